#!/bin/bash
# usage: run.sh ID            explore property ID (tier from VERIF_TIER, default quick)
#        run.sh ID --replay F  re-run the counterexample recorded in F
# exit 0: held on everything explored; 1: VIOLATION line printed; other: error of the check
cd /verif || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${MC_TARGET:-/verif/target}"
id="$1"; shift
mkdir -p evidence
rm -f "evidence/$id.json" "evidence/$id.replay.txt"
case "$id" in
    C0[1-9]|C1[01]|C2[3-6]|C3[01]) crate=mc ;;
    *) exec python3 dec/run.py "$id" "$@" ;;
esac
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! cargo build --offline --release --manifest-path "$crate/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    echo "build of the checker failed" >&2
    exit 2
fi
ulimit -c 0
"$CARGO_TARGET_DIR/release/$crate" "$id" "$@"
