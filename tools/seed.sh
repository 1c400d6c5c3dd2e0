#!/bin/bash
# seed.sh ID [--notest] : confirms a planted bug in the scratch copy /tmp/sc (made with: cp -a /repo /tmp/sc)
id=$1; S=/verif/seeded/$id; R=/tmp/sc
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.96.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
cd $R || exit 2
git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git clean -fdq -e target >/dev/null
bld() { cargo test --workspace --no-run --offline --locked > /tmp/sc.build.log 2>&1 || { echo "BUILD FAILED"; grep -E '^error' -A12 /tmp/sc.build.log | head -40; git checkout -q -f .; exit 3; }; }
bld
D=$(mktemp -d /tmp/demo.XXXX); cp -r $S/. $D; rm -f $D/patch.diff $D/meta.json
bash $D/demo.sh > /tmp/sc.demo0 2>&1; r0=$?
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 3; }
bld
bash $D/demo.sh > /tmp/sc.demo1 2>&1; r1=$?
rm -rf $D
echo "$id demo clean=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 /tmp/sc.demo0
[ $r1 != 0 ] && tail -3 /tmp/sc.demo1
if [ "$2" != --notest ]; then
  sed 's#/repo#/tmp/sc#g' /opt/vp/nextest.toml > /tmp/sc.nextest.toml; sed 's#/repo#/tmp/sc#g; s#/opt/vp/nextest.toml#/tmp/sc.nextest.toml#' /opt/vp/test.sh > /tmp/sc.test.sh
  bash /tmp/sc.test.sh /tmp/sc.t.json > /tmp/sc.test.log 2>&1
  python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/sc.t.json'))
m=sorted(b-set(t['passed'])); print("tests: ", "all stable pass" if not m else f"{len(m)} FAIL {m[:6]}")
P
fi
git checkout -q -f .
