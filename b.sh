#!/bin/bash
# b.sh PROP : build only the IR of one property's harness
cd /verif && python3 -c "
import sys, check as C
from table import PROPS
p=sys.argv[1]
C.build_engine()
print(C.build_ir(p, PROPS.get(p,{}).get('modules',[p.lower()])))" $1
