#!/bin/bash
# developer helper: sample a contract on the real code: realtest.sh PROP NAME N [seed0]
mkdir -p /tmp/w/dij; [ -d /tmp/w/dij/lib ] || cp -a /opt/vp-cache/dijitso/. /tmp/w/dij/ 2>/dev/null
python3 - "$@" > /tmp/w/jobs.$1.$2.json <<'P'
import sys,json
p,n,k=sys.argv[1],sys.argv[2],int(sys.argv[3]); s0=int(sys.argv[4]) if len(sys.argv)>4 else 0
print(json.dumps([dict(prop=p,name=n,rnd=True,seed=s0+i) for i in range(k)]))
P
cd /verif && time PYTHONPATH=/verif DIJITSO_CACHE_DIR=/tmp/w/dij PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 /opt/venv/bin/python -W ignore -m pyvc.realrun /tmp/w/jobs.$1.$2.json /tmp/w/ro.$1.$2.json 2>/tmp/w/err.txt || tail -5 /tmp/w/err.txt
python3 - $1 $2 <<'P'
import json,sys
r=json.load(open(f'/tmp/w/ro.{sys.argv[1]}.{sys.argv[2]}.json'))
from collections import Counter
print(Counter(x['status'] for x in r), sum(x.get('checked',0) for x in r),'checks')
for x in r:
    if x.get('failed') or x['status'] in('exception','harness-exception','notrunnable'):
        print(x['status'],x.get('choices'),x.get('failed')[:2],(x.get('error') or '')[-900:]); break
P
