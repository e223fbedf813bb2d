#!/usr/bin/env python3
# addfix.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json
import json,sys,os
f=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/known_findings.json'
d=json.load(open(f))['findings']
p,c,w=sys.argv[1:4]
d.append(dict(property=p,harness='',message='',what=w,status='fixed',commit=c,note=f'fixed: property={p} {c} {w}'))
open(f,'w').write('{"findings":[\n'+',\n'.join(json.dumps(x) for x in d)+'\n]}\n')
