#!/bin/bash
# check.sh ID quick|thorough : builds the harness against /repo's working tree and runs one monitor.
# Exit 0: held on everything observed. 1: violated (VIOLATION line). 2: no verdict.
set -u
ID=$1
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$V/target" "$V/evidence"

if [ "$ID" = C23 ]; then
    # The name generator is a program of its own.
    exec python3 "$V/codegen_check/run.py" "$TIER" "$SEED" "$V"
fi

build() {
    # cargo looks at modification times only; a restored tree can be older than the build. Always rebuild the library.
    (cd "$V/harness" && cargo clean -q --offline --release -p svgdom -p mon && cargo build -q --offline --release --locked) \
        > "$V/target/build.log" 2>&1
}

exec 9> "$V/target/.lock"
flock 9
if ! build; then
    # A stale or damaged build directory must not look like a verdict: once more from scratch.
    rm -rf "$V/target/release"
    if ! build; then
        tail -n 40 "$V/target/build.log" >&2
        echo "NO VERDICT property=$ID: the harness does not build" >&2
        exit 2
    fi
fi
cp "$V/target/release/mon" "$V/target/mon.$ID.$$"
flock -u 9
trap 'rm -f "$V/target/mon.$ID.$$"' EXIT

EXTRA=""
if [ "$TIER" = thorough ] && [ -x "$V/sanitize.sh" ]; then
    EXTRA=$("$V/sanitize.sh" "$ID" "$SEED")
    rc=$?
    if [ $rc -eq 1 ]; then
        echo "$EXTRA"
        exit 1
    fi
fi
"$V/target/mon.$ID.$$" run "$ID" "$TIER" "$SEED" "$V" "$EXTRA"
