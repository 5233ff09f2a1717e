#!/usr/bin/env python3
# Writes MANIFEST.json.  usage: python3 tools/mkmanifest.py > MANIFEST.json
import json,os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(HERE,'properties.jsonl'))]
NA={
 'C19':"DotExport is a pure function of a compiled graph: no scheduling, time, I/O, fault or multi-step history for a simulation to control.",
 'C20':"Dependency derivation is a pure function of the declared passes, evaluated once at compile time: nothing nondeterministic to simulate. What its result is used for is decided by C01, C02, C03 and C13.",
 'C21':"Attachment and format classification are pure functions of their arguments: nothing nondeterministic to simulate.",
}
CLAIMED=json.load(open(os.path.join(HERE,'tools','claimed.json')))
m={'version':1,'setup_cmd':'bash check.sh --setup','checks':[],'not_applicable':[],
 'notes':'Every check rebuilds the library from /repo with the simulator of /verif/sim. See DESIGN.md.'}
for p in props:
    i=p['id']
    if i in CLAIMED:
        m['checks'].append({'property':i,'quick_cmd':f'bash check.sh {i} quick','thorough_cmd':f'bash check.sh {i} thorough',
          'technique':'deterministic simulation with fault injection: seeded search over histories, schedules and device faults; '+CLAIMED[i],
          'level':'exploration','level_note':'seeded search, not exhaustive; a violation comes with a minimised replay file that reproduces it exactly'})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'no check registered yet')})
print(json.dumps(m,indent=1))
