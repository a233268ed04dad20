#!/bin/bash
# seed_verify.sh ID...: confirms planted changes in a scratch copy of /repo: applies, builds, the
# stable tests pass, demo.sh passes without and fails with it. MATRIX="C01 C02": also runs these checks.
cd "$(dirname "$(readlink -f "$0")")/.." || exit 3
V=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
S=$(mktemp -d /tmp/sv.XXXXXX); trap '/bin/rm -rf "$S"' EXIT
cp -a /repo/. "$S/repo" 2>/dev/null || { mkdir "$S/repo"; cp -a /repo/. "$S/repo"; }
cd "$S/repo" && git checkout -q -- . && git clean -qfd
for id in "$@"; do
  D=$V/seeded/$id; out="$id:"
  rm -rf "${S:?}/d"; cp -r "$D" "$S/d"; /bin/rm -f "$S"/d/*.diff "$S/d/meta.json"
  bash "$S/d/demo.sh" >"$S/demo0.log" 2>&1 && out+=" demo-clean-ok" || { out+=" DEMO-CLEAN-FAILS"; tail -20 "$S/demo0.log"; }
  git apply "$D/patch.diff" || { echo "$out DOES-NOT-APPLY"; continue; }
  if cargo test --workspace --offline --locked --no-fail-fast >"$S/t.log" 2>&1 && grep -q "20 passed" "$S/t.log"; then out+=" tests-ok"; else out+=" TESTS-FAIL"; grep -E "^error|FAILED|panicked|failed" "$S/t.log" | head; fi
  bash "$S/d/demo.sh" >"$S/demo1.log" 2>&1 && out+=" DEMO-DOES-NOT-FAIL" || out+=" demo-fails-ok($(grep -m1 -E "panicked|^error" -A1 "$S/demo1.log" | tr '\n' ' ' | cut -c1-160))"
  for c in $MATRIX $(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$D/meta.json"); do
    REPO_DIR=$S/repo CARGO_TARGET_DIR=${SV_TARGET:-/tmp/sv-target} "$V/check" $c >"$S/c.log" 2>&1; rc=$?
    out+=" | $c rc=$rc $(grep -m1 -B1 ^VIOLATION "$S/c.log" | head -1 | cut -c1-170)"
    [ $rc = 3 ] && tail -15 "$S/c.log"
  done
  git checkout -q -- .
  echo "$out"
done
