#!/bin/bash
# resave.sh ID: rewrites seeded/ID's demo.sh with the current template
cd /verif && git -C /tmp/plant checkout -q -- . && git -C /tmp/plant apply /verif/seeded/$1/patch.diff && cp seeded/$1/demo_test.go /tmp/d/resave.go
P=$(python3 -c "import json;m=json.load(open('seeded/$1/meta.json'));print(m['property'])")
python3 -c "import json;m=json.load(open('seeded/$1/meta.json'));print(m['needs']);print(m['what_it_breaks'])" | python3 tools/plant.py save $1 $P ${2:-internal/verif/demo} /tmp/d/resave.go
