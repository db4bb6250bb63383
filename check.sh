#!/bin/bash
# bash check.sh PROPERTY TIER: builds the simulator against /repo's current tree, runs one check.
# bash check.sh build: builds only.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
export RUSTC_WRAPPER="$PWD/tools/rustc.sh"
t0=$(date +%s%N)
mkdir -p target
# cargo goes by modification times; go by content instead
sum=$(cd /repo && find Cargo.toml src tools -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
    rm -f target/repo.sum
    for c in vsim lsp-sut; do
        [ -d $c ] && (cd $c && cargo clean --offline -q -p kdl -p $c >/dev/null 2>&1)
    done
fi
build() { # a crate below here
    (cd "$1" && cargo build --offline --locked -q) >"target/build-$1.log" 2>&1 || {
        cat "target/build-$1.log" >&2
        echo "harness: $1 does not build" >&2
        exit 2
    }
}
build vsim
[ -d lsp-sut ] && build lsp-sut
echo "$sum" >target/repo.sum
[ "$1" = build ] && exit 0
t1=$(date +%s%N)
VSIM_BUILD_S=$(((t1 - t0) / 1000000000)) exec target/debug/vsim check "$1" "${2:-quick}"
