#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
REAL = ("floats are treated as reals (rounding and overflow outside the claim); sizes bounded as listed in DESIGN.md, every value within the bound decided; "
        "trusted: the gosym interpreter and its simplifier, z3, go/ssa; every alarm is replayed on the compiled code before it is reported")
FP = "IEEE-754 bit-vectors for the bit-exact parts; otherwise as: " + REAL
SYM = "symbolic execution of the go/ssa form of the real code, obligations decided by algebraic normal form and z3"
CLAIM = {}
def c(p, tech=SYM, note=REAL): CLAIM[p] = (tech, note)
exec(open(here + '/tools/claims.py').read())
NA = {} 
exec(open(here + '/tools/na.py').read()) if os.path.exists(here + '/tools/na.py') else None
m = dict(version=1, setup_cmd='./run.sh setup',
  hooks=dict(guard='none (no hooks in /repo: harnesses enter through -overlay)', enable='go build -overlay, generated on every run', source_commits=[]),
  checks=[dict(property=p, quick_cmd=f'./run.sh {p} quick', thorough_cmd=f'./run.sh {p} thorough', evidence_file=f'evidence/{p}.json',
               technique=CLAIM[p][0], level='model_checking', level_note=CLAIM[p][1]) for p in props if p in CLAIM],
  not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in CLAIM])
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
