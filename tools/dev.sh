#!/bin/bash
# usage: vgo.sh pkg test [args]  -- builds harness pkg and runs test
. /opt/vp/env.sh >/dev/null 2>&1
export GOCACHE=${VGC:-$GOCACHE}
cd /verif
python3 - "$1" <<'P' || exit 1
import sys,os; sys.argv=[sys.argv[0],*sys.argv[1:]]
sys.path.insert(0,'/verif'); import run
sc='/tmp/vgo'; os.makedirs(sc,exist_ok=True); os.makedirs(sc+'/t',exist_ok=True)
run.prepare(sc); env=run.goenv(sc+'/t')
import os
b=run.build(sc,sys.argv[1],env); b or sys.exit("no build")
P
P=$(echo $1 | tr '/:' '__')
mkdir -p /tmp/vgo/run; cd /tmp/vgo/run
export TDEX_NETWORK=regtest TDEX_EXPLORER_ENDPOINT=http://127.0.0.1:3001 TDEX_LOG_LEVEL=5 TDEX_BASE_ASSET=5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225 TDEX_DATA_DIR_PATH=/tmp/vgo/daemon TDEX_OPERATOR_DATADIR=/tmp/vgo/op TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD=1000
export VERIF_KNOWN=/verif/known_findings.txt VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} VERIF_STATS=/tmp/vgo/stats.json
test -n "$2" && timeout ${T:-600} /tmp/vgo/$P.test -test.run "^$2" "${@:3}"
