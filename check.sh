#!/bin/bash
# bash check.sh build | run <ID> [quick|thorough] [--only SCENARIO] | replay <file> | list
# Builds the explorer against /repo's current working tree (offline) and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD"
export PATH="$HOME/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=1.77.2
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$PWD/mc/target"
mkdir -p mc/target evidence out
build() {
    # content, not modification times, decides whether pkstl is compiled again
    local h
    h=$(cd /repo && cat Cargo.toml Cargo.lock $(find src -type f | LC_ALL=C sort) | sha256sum)
    if [ "$(cat mc/target/pkstl.hash 2>/dev/null)" != "$h" ]; then
        (cd mc && cargo clean --release --offline -p pkstl >/dev/null 2>&1)
        rm -f "$PWD/mc/target/pkstl.hash"
    fi
    if ! (cd mc && cargo build --release --offline --locked -q) >out/build.log 2>&1; then
        cat out/build.log >&2
        echo "ERROR: the harness does not build against /repo" >&2
        return 2
    fi
    echo "$h" >mc/target/pkstl.hash
}
exec 9>mc/target/.check.lock
flock 9
build || exit 2
flock -u 9
case "${1:-}" in
build) exit 0 ;;
*) exec mc/target/release/mc "$@" ;;
esac
