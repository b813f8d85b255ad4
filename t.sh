#!/bin/bash
# t.sh PROP harness... : quick manual run
cd /verif
P=$1; shift
for h in "$@"; do timeout ${TMO:-600} ./build/qsym/release/qsym build/$P.ll $h --dir build --timeout ${TMO:-300} $OPTS | python3 -c "
import json,sys
for l in sys.stdin:
    l=l.strip()
    if not l: continue
    try: d=json.loads(l)
    except Exception: print(l[:3000]); continue
    f=d.pop('functions',[])
    if d['verdict']!='violated': d.pop('model')
    d.pop('witness'); print(len(f),json.dumps(d))
"; done
