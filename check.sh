#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the harness (and, where the property is about the
# programs, ginko and ginko_ls) from /repo's working tree and runs the check of one property.
# check.sh --setup builds everything.
cd "$(dirname "$0")" || exit 2
here=$PWD
export CARGO_NET_OFFLINE=true
build_harness() {
    (cd "$here/harness" && RUSTFLAGS="--cfg ginko_verif" cargo build -q --offline --locked --target-dir "$here/build/harness") || return 1
}
build_bins() {
    RUSTFLAGS="" cargo build -q --offline --locked --manifest-path /repo/Cargo.toml --bins --target-dir "$here/build/repo" || return 1
}
run() {
    log=$(mktemp)
    "$@" >"$log" 2>&1
    rc=$?
    if [ $rc -ne 0 ]; then cat "$log"; fi
    rm -f "$log"
    return $rc
}
if [ "$1" = "--setup" ]; then
    run build_harness && run build_bins || { echo "ERROR: build failed"; exit 2; }
    exit 0
fi
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
case "$prop" in
    C17|C18|C19|C20|C21)
        run build_bins & b=$!
        run build_harness; h=$?
        wait $b; b=$?
        [ $h -eq 0 ] && [ $b -eq 0 ] || { echo "ERROR: build failed"; exit 2; } ;;
    *)
        run build_harness || { echo "ERROR: build failed"; exit 2; } ;;
esac
export GV_VERIF=$here
exec "$here/build/harness/debug/gv" run "$prop" "$tier"
