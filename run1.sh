#!/bin/bash
# developer helper: explore one contract and print the outcome
O=$(mktemp /tmp/w/r.XXXX); export O; cd /verif && PYTHONPATH=/verif python3-vt -m pyvc.worker $1 $2 $O ${3:--} ${4:-400} && python3 - <<'P'
import json
r=json.load(open(__import__('os').environ['O']))
print({k:r[k] for k in ('obligations','discharged','unknown','paths','ok_paths','wall','solver_time','backends')}, len(r['refuted']),'refuted',len(r['errors']),'errors',len(r['undecided']),'undecided')
for x in r['refuted'][:4]: print('REFUTED',x['name'],x['choices'],'\n',str(x['detail'])[:900],x['model'])
for x in r['errors'][:3]: print('ERROR',x['exc'],x['choices'],x['tb'][-1500:])
for x in r['undecided'][:3]: print('UNDEC',x[0],x[1][-1200:],x[2])
for x in r['unknowns'][:3]: print('UNKNOWN',x)
P
