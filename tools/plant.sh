#!/bin/bash
# plant.sh ID [check]: confirm a planted bug in a scratch copy (/tmp/plant/repo, made by hand with cp -a /repo):
# it applies, compiles, passes the stable tests, its demo passes clean and fails patched; with "check" also
# runs the property's quick check, from a copy of the harness (/tmp/plant/verif) that depends on the scratch copy.
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant/repo
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_HUSKY_DONT_INSTALL_HOOKS=true CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_INCREMENTAL=1
cd $W || exit 1
git checkout -q -- . ; git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
bash $S/demo.sh >/tmp/plant/$ID.clean 2>&1; A=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plant/$ID.log 2>&1
python3 /opt/vp/results.py /tmp/plant/$ID.json cargo:/tmp/plant/$ID.log
M=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/plant/$ID.json'))['passed'])
m=sorted(b-o);print(len(m),m[:4])")
bash $S/demo.sh >/tmp/plant/$ID.patched 2>&1; B=$?
echo "$ID: stable-missing=$M demo-clean=$A demo-patched=$B"
grep -v "^note" /tmp/plant/$ID.patched | tail -2
if [ "$2" = check ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  V=/tmp/plant/verif; mkdir -p $V
  for f in check.sh harness known_findings.txt MANIFEST.json properties.jsonl; do cp -au /verif/$f $V/; done
  cp -a /verif/harness/Cargo.toml /verif/harness/Cargo.lock $V/harness/
  sed -i "s#path = \"/repo\"#path = \"$W\"#" $V/harness/Cargo.toml
  (cd $V && ./check.sh $P quick 2>/tmp/plant/$ID.check | grep -E "VIOLATION|KNOWN|held" | cut -c1-300; echo "  $P exit ${PIPESTATUS[0]}")
fi
git checkout -q -- .
