#!/bin/bash
# tryplant.sh ID [CHECK...]: applies seeded/ID to a scratch copy (${TW:-/tmp/w}, made from /repo), builds, runs the stable tests, the demonstration with and without the change, and the given checks (default: the property of the change).
TW=${TW:-/tmp/w}
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
[ -d ${TW:-/tmp/w} ] || cp -a /repo ${TW:-/tmp/w}
cd ${TW:-/tmp/w} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
. /opt/vp/env.sh; cd ${TW:-/tmp/w}; export CARGO_TARGET_DIR=${TW:-/tmp/w}/target
mkdir -p /tmp/demo.$ID && cp -r $S/. /tmp/demo.$ID && (cd /tmp/demo.$ID; find . -name '*.diff' -delete; find . -name meta.json -delete)
cmp -s <(git rev-parse HEAD) ${TW:-/tmp/w}.clean.head && [ -x ${TW:-/tmp/w}.clean.bin ] || { cargo build $ARGS >/tmp/plant.log 2>&1 || { echo "CLEAN BUILD FAILS"; exit 1; }; cp target/debug/url-cleaner ${TW:-/tmp/w}.clean.bin; git rev-parse HEAD > ${TW:-/tmp/w}.clean.head; }
cp ${TW:-/tmp/w}.clean.bin target/debug/url-cleaner
timeout 300 bash /tmp/demo.$ID/demo.sh > /tmp/plant.demo0 2>&1; a=$?
git apply $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
for g in target/debug/.fingerprint/url-cleaner-*; do rm -rf "${TW:-/tmp/w}/$g"; done
cargo build $ARGS >/tmp/plant.log 2>&1 || { echo "BUILD FAILS"; grep -A8 ^error /tmp/plant.log | head -40; git checkout -q -- .; exit 1; }
timeout 300 bash /tmp/demo.$ID/demo.sh > /tmp/plant.demo1 2>&1; b=$?
echo "$ID: demo clean=$a patched=$b"
[ $a = 0 ] || tail -5 /tmp/plant.demo0; [ $b = 0 ] || tail -3 /tmp/plant.demo1 | cut -c1-300
if [ -z "$NOTEST" ]; then
cargo test $ARGS --no-fail-fast -- --test-threads 8 > /tmp/plant.test 2>&1
python3 /opt/vp/cli_tests.py ${TW:-/tmp/w}/target/debug/url-cleaner tests.json > /tmp/plant.cli 2>&1
echo "tests: $(grep -c '^test .* ok$' /tmp/plant.test) ok, $(grep -c '^test .* FAILED$' /tmp/plant.test) failed, cli: $(grep -ci 'fail' /tmp/plant.cli) fail of $(wc -l < /tmp/plant.cli)"
fi
for c in ${@:-$P}; do
  t0=$(date +%s); (cd /verif; VERIF_REPO=${TW:-/tmp/w} ./check $c --tier quick $XARGS > /tmp/plant.check 2>&1); r=$?
  echo "check $c: exit $r in $(( $(date +%s)-t0 )) s: $(grep -m2 'VIOLATION\|violation' /tmp/plant.check | cut -c1-300)"
done
git checkout -q -- .
rm -rf /tmp/demo.$ID
