#!/bin/bash
# Builds the MIR driver and dumps the MIR of /repo's current sources: build_dump.sh OUT.json
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
W="${FAJT_WORK:-$HERE/.work}"
mkdir -p "$W"
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
(cd "$HERE/driver" && cargo +nightly build --offline --quiet --target-dir "$W/driver")
export CARGO_TARGET_DIR="$W/harness"
# cargo does not know about the output of the wrapper: force the harness crate itself to be rebuilt.
touch "$HERE/harness/src/lib.rs"
export MIRDUMP_OUT="$1.tmp"
rm -f "$1.tmp"
cd "$HERE/harness"
export RUSTC_WORKSPACE_WRAPPER="$W/driver/debug/mirdump"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Awarnings"
# what does not fit the tree's types is left out, so that the checks that do not need it still get their dump
ok=
LIST="reference,reflex,cli reference,reflex reflex,cli reference,cli reflex reference cli"
[ -z "$FAJT_FEATURES" ] || LIST="$FAJT_FEATURES"
for features in $LIST ""; do
  if cargo +nightly check --offline --quiet --no-default-features --features "$features" 2>"$1.err"; then ok=1; break; fi
  head -30 "$1.err" >&2
done
rm -f "$1.err"
[ -n "$ok" ]
mv "$1.tmp" "$1"
