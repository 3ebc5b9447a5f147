#!/bin/bash
# check.sh ID [quick|thorough]: build the monitor with the working tree of
# /repo and decide one property.  Exit 0: held, 1: violated, 2: no decision.
cd "$(dirname "$0")" || exit 2
export YPMON_VERIF="$PWD" VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true XDG_CACHE_HOME="$PWD/target/cache"
T=x86_64-unknown-linux-gnu/release/ypmon
case $1 in
C22) legs="tsan miri" ;;
C23) legs="asan miri" ;;
*) legs="" ;;
esac
log=$(mktemp)
bash build.sh >"$log" 2>&1 || {
    cat "$log"
    rm -f "$log"
    echo "INCONCLUSIVE property=$1: the monitor does not build"
    exit 2
}
for leg in $legs; do
    if bash build.sh "$leg" >"$log" 2>&1; then
        case $leg in
        tsan) export YPMON_TSAN="$PWD/target/tsan/$T" ;;
        asan) export YPMON_ASAN="$PWD/target/asan/$T" ;;
        miri) export YPMON_MIRI="$PWD/harness/Cargo.toml" ;;
        esac
    else
        tail -5 "$log"
        echo "note: the $leg build is not available"
    fi
done
rm -f "$log"
exec target/release/ypmon check "$1"
