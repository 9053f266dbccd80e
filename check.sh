#!/bin/bash
# check.sh Cxx [harness arguments]: builds the harness from /repo's working tree and decides one property.
# Exit 0: held; 1: VIOLATION line printed; 2: the check could not run.
cd "$(dirname "$0")" || exit 2
V=$PWD
. "$V/env.sh"
build() { cargo build --release --offline --manifest-path "$V/harness/Cargo.toml" "$@" >"$CARGO_TARGET_DIR/build.log" 2>&1; }
if ! build; then
    # decide what can be decided when a rarely used part of the interface is different
    cp "$CARGO_TARGET_DIR/build.log" "$CARGO_TARGET_DIR/build-full.log"
    ok=
    for f in custom,programs internals,programs internals,custom custom ""; do
        case $f in *programs*) ;; *) for b in disassemble decoder scc68070 scc68070_ffi; do rm -f "$CARGO_TARGET_DIR/release/$b"; done ;; esac
        build --no-default-features --features "$f" && { ok=1; echo "check.sh: built without all features: $f"; break; }
    done
    if [ -z "$ok" ]; then
        tail -n 60 "$CARGO_TARGET_DIR/build-full.log"
        echo "check.sh: the harness does not build against /repo"
        exit 2
    fi
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/harness" --out "$V" "$@"
