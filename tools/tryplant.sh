#!/bin/bash
# Development aid: confirm a planted bug (builds, passes the stable tests, demo) in a scratch copy,
# then see whether its property's check reports it.  Usage: tryplant.sh ID [PROPERTY...]
d=/verif/seeded/$1; shift
w=/tmp/plantwt; rm -rf /tmp/plantwt; cp -a /repo $w
git -C $w apply --check $d/patch.diff || { echo "NOAPPLY"; exit 1; }
(cd $w && bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
git -C $w apply $d/patch.diff
(cd $w && bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
(cd $w && CARGO_TARGET_DIR=$w/target RUSTUP_TOOLCHAIN=1.90.0 cargo test --offline -q --all-features 2>&1 | grep -E 'test result|error|FAILED' | sort | uniq -c | tr '\n' ';')
rm -rf /tmp/plantwt
echo; echo "demo clean=$a patched=$b: $(grep -aE 'panicked|assert|left|right' /tmp/demo1.log | head -3 | tr '\n' ' ' | cut -c1-200)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$1" ] && p="$*"
git -C /repo apply $d/patch.diff
for q in $p; do
  timeout 900 python3 /verif/tools/check.py $q quick >/tmp/plant.$q.log 2>&1; echo "$q rc=$? $(grep -c VIOLATION /tmp/plant.$q.log) $(grep -m1 VIOLATION /tmp/plant.$q.log | cut -c1-120)"
done
git -C /repo checkout -- .
