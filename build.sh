#!/bin/bash
# build.sh [tsan|asan|miri]...: build the monitor with the working tree of
# /repo, and the builds that are watched by a sanitizer or the interpreter.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
M=harness/Cargo.toml
T=x86_64-unknown-linux-gnu
CARGO_TARGET_DIR="$PWD/target" cargo build --release --offline --manifest-path $M || exit 2
for leg in "$@"; do
    case $leg in
    tsan | asan)
        [ $leg = tsan ] && san=thread || san=address
        CARGO_TARGET_DIR="$PWD/target/$leg" RUSTFLAGS="-Zsanitizer=$san" \
            cargo +nightly build --release --offline -Zbuild-std --target $T \
            --features plain-alloc --manifest-path $M || exit 3
        ;;
    miri)
        # Builds the interpreted library and the dependencies
        CARGO_TARGET_DIR="$PWD/target/miri" XDG_CACHE_HOME="$PWD/target/cache" \
            MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline \
            --features plain-alloc --manifest-path $M -- list || exit 3
        ;;
    esac
done
