#!/bin/bash
# seed.sh <id>: verifies a planted change in a scratch copy: builds, passes the stable tests, demo 0 without / nonzero with it, and runs the check
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$D/repo"; cp -a $S "$D/x"; rm -f "$D/x/patch.diff" "$D/x/meta.json"
cd "$D/repo" || exit 9
if [ -z "$NODEMO" ]; then timeout 300 bash "$D/x/demo.sh" >"$D/d0" 2>&1; R0=$?; fi
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$D"; exit 9; }
if [ -z "$NODEMO" ]; then
timeout 300 bash "$D/x/demo.sh" >"$D/d1" 2>&1; R1=$?
(timeout 300 cargo test --offline --target-dir "$D/t" -- --test-threads=16 >"$D/test" 2>&1); T=$(grep -h '^test result' "$D/test" | head -1)
grep -h '^test .*FAILED' "$D/test" | head
fi
RXSA_REPO="$D/repo" python3 /verif/bin/check.py $P quick >"$D/c" 2>&1; C=$?
echo "$ID [$P]: demo clean=$R0 patched=$R1; tests: $T; check exit=$C $(grep -c '^VIOLATION' $D/c)"
[ "$R0" = 0 ] || tail -5 "$D/d0"
[ -n "$V" ] && head -${V} "$D/c"
rm -rf "$D"
