#!/usr/bin/env python3
"""Regenerates sections 4 and 5 of DESIGN.md from known_findings.json and seeded/."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=V+'/DESIGN.md'; s=open(p).read()
i=s.find('## 4. Defects')
s=(s if i<0 else s[:i]).rstrip()+'\n\n\n'
k=json.load(open(V+'/known_findings.json'))['findings']
s+='## 4. Defects found in spago\n\nEach was first reported by a check, reproduced on the compiled code, and repaired by the named `fix:` commit in /repo; the check reports it again when the repair is undone.\n\n| property | commit | what failed |\n|---|---|---|\n'
for f in k:
    if f['status']=='fixed': s+='| %s | %s | %s |\n'%(f['property'],f['commit'],f['what'])
s+='\nRecorded, not repaired (printed as KNOWN-FINDING):\n\n'
for f in k:
    if f['status']!='fixed': s+='* %s, `%s`: %s.\n'%(f['property'],f['harness'],f['what'])
s+='''

## 5. Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, meta). They were written from
the property and the code, confirmed in a scratch copy (builds, passes the
stable tests, demonstration fails only with the patch), and then run against
the property's quick check. All are caught by the check of their property.

| bug | caught by | what it breaks | needs |
|---|---|---|---|
'''
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f))
    s+='| %s | %s | %s | %s |\n'%(f.split('/')[-2],m.get('caught_by',m['property']),m['what_it_breaks'],m['needs'])
s+='''
Misses that led to changes of the checks: c02-softmax-in-place (the harness
assumed all elements non-zero; the assumption is gone), c03/c04-column-index
(index errors inside the backing array: C04 gained column indices that stay
in range of the data), c05-tail-overread (guard placed directly behind the
slice), c08-done-before-idle (second pass started from a reader goroutine),
c20-first-head-cache (chunked decoding with several heads), c25-pad-append
(spare capacity of the caller's slice), c10-short-shape (dimensions beyond 16
bits), c16-shift-positive (sums that can vanish under a logarithm),
c21-repeated-input, c17-seq-repeat and c02-maximum-self (the same tensor at
several positions), c07-zero-grad-stop (vectors through unary operators over two
passes), c24-lstm-truncated (longer sequences: H_Long), c11-map-of-slices (the
same item several times; c11-odd-key: unusual map keys), c24-cross-cache-stop
(cached cross-attention), c25-affine-nil-stop (nil inputs among several pairs),
c06-affine-shared (one tensor as several operands), and the group that needs
size: c20-mask-window, c16-max-unrolled, c15-long-gold, c21-long-reverse,
c14-many-params, c11-slice-halves (long or wide inputs, reached with mostly constant data:
`hx.Few`). Planted changes
that existing tests already catch were dropped and are not counted.

## 6. False alarms met and removed

Alarms on the unchanged tree were analysed one by one. Those that were not
defects came from: real-arithmetic models at points where the code's float
comparison cannot tell two values apart (now `Smooth` or a strict assumption);
|x| written in two ways (normal form); a payload of NaN + NaN (argument order
in FP mode); normal-form zero tests dividing by a vanishing denominator
(domain assumption stated); gradients at points where a norm or a deviation is
exactly zero (C24 is stated for points at which every operation of the model is
differentiable); models of reflect and of `sync.Cond` (engine
fixed). In each case the property or the machinery was corrected; no finding
was listed for them.
'''
open(p,'w').write(s)
