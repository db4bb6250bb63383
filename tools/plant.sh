#!/bin/bash
# bash tools/plant.sh ID: confirms the change made in the scratch copy /tmp/w (a copy of /repo) as planted bug ID:
# seeded/ID/{demo.sh,demo.rs,meta.json} exist already; writes patch.diff.
D=/verif/seeded/$1
cd /tmp/w || exit 1
git diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
export CARGO_TARGET_DIR=/tmp/wt
cargo test --workspace --all-features --no-fail-fast --offline >/tmp/plant.log 2>&1 && echo "tests pass" || { grep -E "^error|FAILED|failed" /tmp/plant.log | head; echo "TESTS FAIL"; exit 1; }
unset CARGO_TARGET_DIR
(cd /tmp/w && bash "$D/demo.sh" >/tmp/demo.log 2>&1); a=$?
(cd /repo && bash "$D/demo.sh" >/tmp/demo0.log 2>&1); b=$?
echo "demo: patched $a, unchanged $b"; tail -3 /tmp/demo.log
[ $a -ne 0 ] && [ $b -eq 0 ] && git -C /repo apply --check "$D/patch.diff" && echo GOOD
