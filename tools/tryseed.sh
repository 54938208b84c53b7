#!/bin/bash
# tryseed.sh ID [notest] : demo on clean tree, apply, build, tests, demo, its check; then undo.
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -n "$(git status --porcelain)" ] && { echo "repo dirty"; exit 1; }
if [ "$2" != notest ]; then bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || exit 1
if [ "$2" != notest ]; then
 bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo1.log
 bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo "build $?"
 bash /opt/vp/test.sh /tmp/ts.json 2>&1 | grep "passed, "
fi
cd /verif && bash run.sh $prop 2>&1 | cut -c1-300 | tail -${3:-8}
git -C /repo checkout -- .
