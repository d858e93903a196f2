#!/bin/bash
# usage: run.sh build | check ID [quick|thorough] | replay FILE | selftest ID
# Builds the simulator against /repo's working tree, then runs it.
cd "$(dirname "$0")/sim" || exit 2
export HOME=/root
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="--cfg prost_reflect_sim" RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET
export PSIM_VERIF="$(dirname "$PWD")"
mkdir -p target
exec 9>target/.lock
flock 9
# file times may say nothing about what changed: compare contents
sum=$(cd /repo && find prost-reflect prost-reflect-build prost-reflect-derive Cargo.toml -type f \
    \( -name '*.rs' -o -name '*.toml' -o -name '*.md' -o -name '*.bin' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
    rm -f target/.repo-sum
    for p in prost-reflect prost-reflect-derive prost-reflect-build; do
        cargo clean --release --offline -q -p $p 2>/dev/null
    done
fi
for attempt in 1 2; do
    if cargo build --release --offline -q 2>target/build.log; then
        ok=1
        break
    fi
done
if [ -z "$ok" ]; then
    grep -E '^error' -A8 target/build.log | head -60
    echo "ERROR: the simulator does not build against /repo"
    exit 2
fi
echo "$sum" > target/.repo-sum
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
exec ./target/release/psim "$@"
