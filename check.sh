#!/bin/bash
# check.sh ID              decides one property (VERIF_SEED, VERIF_TIER from the environment)
# check.sh --replay FILE   runs one recorded case again
# Builds the harness, and for the command line tools the tools, from /repo's working tree into /verif/target.
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}"
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS CARGO_BUILD_TARGET
LOG="$VERIF_DIR/target/build.log"
mkdir -p "$VERIF_DIR/target"

build() {
    # with branch counters for coverage guidance
    ( cd "$VERIF_DIR/harness" && RUSTC_WRAPPER="$VERIF_DIR/harness/rustc-wrap.sh" cargo build --release --offline ) >"$LOG" 2>&1 || return 1
    case "$1" in
        C17|C18|C19|C20|C21|C25|all)
            # the tools as users build them, from the repository's workspace
            cc -O1 -shared -fPIC -o "$VERIF_DIR/target/shim.so.$$" "$VERIF_DIR/harness/shim/shim.c" -ldl >>"$LOG" 2>&1 || return 1
            mv "$VERIF_DIR/target/shim.so.$$" "$VERIF_DIR/target/shim.so"
            ( cd /repo && CARGO_TARGET_DIR="$VERIF_DIR/target/repo" cargo build --release --offline -p ripdlt -p dd_dlt ) >>"$LOG" 2>&1 || return 1;;
    esac
}

case "$1" in
    --build)
        build all || { tail -n 60 "$LOG" >&2; echo "check.sh: build failed" >&2; exit 2; }
        exit 0;;
    --replay) ID=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1);;
    *) ID="$1";;
esac
build "$ID" || { tail -n 60 "$LOG" >&2; echo "check.sh: build failed" >&2; exit 2; }
export VH_REPO=/repo
export VH_BIN="$VERIF_DIR/target/repo/release" VH_SHIM="$VERIF_DIR/target/shim.so"
if [ "$1" = --replay ]; then
    exec "$VERIF_DIR/target/release/vh" replay "$2"
fi
exec "$VERIF_DIR/target/release/vh" check "$ID"
