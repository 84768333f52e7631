#!/bin/bash
# development helper: tools/run.sh VARIANT 'job line' [engine options]
V=$1; L="$2"; shift 2
echo "$L" | /verif/engine/target/release/symex "$@" $(sed 's/^/0:/' /verif/build/$V.files) | python3 -c "
import sys,json
for l in sys.stdin:
    d=json.loads(l); d.pop('functions'); 
    d['samples']=len(d['samples'])
    print(json.dumps({k:v for k,v in d.items() if v not in (0,{},[])} ))"
