#!/bin/bash
# h.sh PROP [regex]: build IR and run all matching harnesses of a property, one line each
cd /verif
P=$1; R=${2:-.}
[ -n "$NOB" ] || ./b.sh $P | tail -1
m=$(python3 -c "
import sys
from table import PROPS, harnesses
p='$P'
for h in harnesses(PROPS.get(p,{}).get('modules',[p.lower()])): print(h['name'])" | grep -E "$R")
echo "$m" | xargs -P ${J:-6} -I{} ./t.sh $P {} 2>&1 | python3 -c "
import sys,json
for l in sys.stdin:
    i=l.find('{')
    try:
        d=json.loads(l[i:]); print(d['entry'],d['verdict'],d['kind'],d['detail'][:700],'t=%.1f'%d['total_s'],'q=%d feas=%d asserts=%d nf=%d bits=%d'%(d['queries'],d['feasibility_queries'],d['asserts'],d['asserts_by_normal_form'],d['input_bits']), flush=True)
    except Exception as e: print(l[:300], flush=True)
"
