#!/bin/bash
# dev: run the drivers of the given properties: dr.sh BUDGET PROP...
b=$1; shift
for p in "$@"; do timeout 300 /opt/venv/bin/python /verif/drivers/run.py $p --budget $b --seed ${SEED:-1} | python3 -c "
import json,sys
d=json.load(sys.stdin); print(d['property'],d['evaluations'],d['distinct'],d['wall_s'],d['per_check'])
for f in d['failures']: print('  FAIL',f['check'],f['index'],f['message'][:900])"; done
