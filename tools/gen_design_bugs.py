#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (columns from seeded/*/meta.json; all caught by their property's check)."""
import os,json
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED={'b34-sysex8-odd-capacity':'C03 (missed at first: odd capacities added)','b17-begin-in-the-middle':'C06','b63-vec-shrinks':'C20 (missed at first: vectors with spare capacity added)','b74-array-rebuffer-long':'C11 (missed at first: array_rebuffer of long messages added)','b52-sysex8-tail-move':'C01 (C18 does not: same result in every buffer)'}
d=open(here+'/DESIGN.md').read()
i=d.index('## Planted bugs')
o='''## Planted bugs

Every one of these builds, passes the 713 tests, has a demo which fails with it, and is reported by the check named (in the
order of the properties; "missed at first" = the check was strengthened because of it). `tools/mkbugs.py` makes them from
`tools/bugs.py`, `tools/plant.py` re-verifies them one by one.

| planted bug | caught by | needs |
|---|---|---|
'''
rows=[]
for b in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(f'{here}/seeded/{b}/meta.json'))
    rows.append((m['property'],b,MISSED.get(b,m['property']),m['needs'].replace('|','/')))
for p,b,c,n in sorted(rows): o+=f'| {b} | {c} | {n} |\n'
o+='''
Beside these, mutants of the library sources were generated mechanically (operators, conditions, deleted statements,
constants; outside the repository): of 3012, 1558 fail the repository's tests, 656 do not compile, 586 survive the tests.
The checks were run on a random part of the survivors; every mutant they did not report was read, and either was
equivalent (dead `u21` encoding and device id code, headers written twice, upper bounds of size hints which stay true,
cfg arms of other feature sets) or led to a stronger check (array rebuffering of long messages, text iterator hints).
Coverage of the library by the quick checks (llvm-cov, once): every line but `unreachable!` arms, `validate` stubs of the
property traits which nothing calls, the blanket IntoBuffer impls, Display of the errors, and the dead `u21` encoding.
'''
open(here+'/DESIGN.md','w').write(d[:i]+o)
