#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS < main.rs : takes the uncommitted diff of /repo as the patch, undoes it
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp /verif/tools/demo_template.sh $d/demo.sh; cat > $d/main.rs
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
test -s $d/patch.diff || echo EMPTY PATCH
