#!/bin/bash
# tools/seedtest.sh ID [CHECK...]: try one planted bug in a scratch copy (/tmp/s): build, stable tests, demonstration, checks.
id=$1; shift
S=/tmp/s
mkdir -p $S
rsync -rlpgoD --checksum --delete --exclude target --exclude .git /repo/ $S/repo/ 2>/dev/null || { mkdir -p $S/repo; cp -a /repo/. $S/repo/; }
mkdir -p $S/repo/target
[ -d $S/repo/target/debug ] || cp -a /repo/target/. $S/repo/target/
mkdir -p $S/verif
rsync -a --delete --exclude .work --exclude .git --exclude evidence --exclude replays /verif/ $S/verif/ || exit 2
mkdir -p $S/verif/evidence $S/verif/replays
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$S/repo/target CARGO_HOME=$S/home
mkdir -p $S/home; cp /opt/vp/cargo-home/config $S/home/config
cd $S/repo || exit 2
d=${SEEDDIR:-/verif/seeded}/$id
clean() { for f in $(cd /repo && git ls-files src); do cmp -s /repo/$f $S/repo/$f || cp /repo/$f $S/repo/$f; done; }
clean
if [ -z "$NODEMO" ]; then
cargo build --offline --locked > $S/build.log 2>&1 || { echo "BUILD of the unchanged tree failed"; exit 2; }
bash $d/demo.sh > $S/demo0.log 2>&1; r0=$?
echo "demo on the unchanged tree: $r0"; [ $r0 = 0 ] || tail -5 $S/demo0.log
fi
patch -p1 -s --no-backup-if-mismatch < $d/patch.diff || { echo "PATCH does not apply"; exit 2; }
if [ -z "$NODEMO" ]; then
cargo build --offline --locked > $S/build.log 2>&1 || { echo "BUILD with the patch failed"; grep -A8 '^error' $S/build.log | head -30; clean; exit 2; }
bash $d/demo.sh > $S/demo1.log 2>&1; r1=$?
echo "demo with the patch: $r1"; tail -3 $S/demo1.log
fi
if [ -z "$NOTEST" ]; then
timeout -k 10 840 cargo test --no-fail-fast --offline --locked -- --test-threads 8 --skip sink::influxdb:: > $S/test.log 2>&1
sed -i -E 's#^( +Running )([^ ]*/([^/ ]+)-[0-9a-f]+)$#\1\3 (\2)#' $S/test.log
python3 /opt/vp/results.py $S/test.json cargo:$S/test.log
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$S/test.json'))['passed'])
print('stable tests failing:', sorted(b-p))
P
fi
cd $S/verif
for c in "$@"; do
  VERIF_REPO=$S/repo VERIF_SEED=1 timeout 900 python3 run.py $c > $S/check.log 2>&1; echo "$c: exit $?"; grep -m3 -E 'VIOLATION|KNOWN' $S/check.log; tail -2 $S/check.log
done
clean
