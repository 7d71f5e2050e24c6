#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks that exist."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
 'C01':('sysex','stateful exploration of the real code: every payload edit / edit sequence up to a depth from every packetisation, hint shape and buffer kind, in lockstep with a byte-list model'),
 'C02':('sysex','stateful exploration of the real code: every edit sequence up to a depth from every packetisation and dirty buffer; data() compared with a canonical encoder and re-parsed'),
 'C03':('sysex','exhaustive fault enumeration: every edit (sequence) on every buffer capacity, i.e. every point at which the buffer may refuse to grow, against a fits/does-not-fit model'),
}
import importlib.util
extra=os.path.join(here,'tools','checks.json')
if os.path.exists(extra):
    for k,v in json.load(open(extra)).items(): T[k]=tuple(v)
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        b,tech=T[i]
        checks.append({'property':i,'quick_cmd':f'bash run.sh {b} {i} quick','thorough_cmd':f'bash run.sh {b} {i} thorough','technique':tech,'level':'model_checking','level_note':'bounded exhaustive enumeration of executions of the real code in lockstep with a reference model; bounds in DESIGN.md and in the evidence file'})
    else:
        na.append({'property':i,'reason':'check not built yet (see DESIGN.md)'})
json.dump({'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na},open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
