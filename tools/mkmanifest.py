#!/usr/bin/env python3
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
PROVED=json.load(open('/verif/tools/proved.json'))
checks=[]
for p in props:
    i=p['id']
    pr=i in PROVED
    checks.append(dict(property=i,quick_cmd='./check.py %s quick'%i,thorough_cmd='./check.py %s thorough'%i,evidence_file='evidence/%s.json'%i,
      technique='Verus contracts on the crate\'s own functions, extracted mechanically from /repo/src on every run; failed obligations replayed on the real crate' if pr else 'bounded replay of the contract on the real crate (bounded stand-in, not a proof)',
      level='proof' if pr else 'exploration',
      level_note=('Every obligation of the functions this rests on is discharged by Verus/z3 for all inputs. ' if pr else 'Bounded: concrete inputs only. ')+
        'Trusted: Verus, vstd, the extraction rules, the std iterator/slice contracts in contracts/00_vx.rs; user Graph implementations assumed lawful. A source the proof does not fit (lost anchor, unsupported construct, solver limit) is reported as BOUNDED, backed by the concrete replay only.'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=[],notes='No hooks in /repo: the extractor reads private items from the source, the harness uses the public API.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
