#!/bin/bash
# sanitize.sh ID SEED : runs cases of one monitor under AddressSanitizer (LeakSanitizer for C18) and Miri.
# Prints one summary line. Exit 0: nothing reported, or the tool could not run here (said so). Exit 1: a report (VIOLATION line).
set -u
ID=$1
SEED=$2
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
T=$V/target/asan
LOG=$V/target/sanitize.$ID.log
OUT=""
mkdir -p "$V/evidence/replays"
LEAKS=0
[ "$ID" = C18 ] && LEAKS=1

violation() {
    cp "$LOG" "$V/evidence/replays/$ID-$1-$SEED.txt"
    echo "$ID: $1 report, see the log"
    echo "VIOLATION property=$ID replay=$V/evidence/replays/$ID-$1-$SEED.txt"
    exit 1
}

# AddressSanitizer: 8 processes, 120 s each.
exec 8> "$V/target/.lock.asan"
flock 8
if (cd "$V/harness" && export RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR=$T \
    && cargo +nightly clean -q --offline --release --target x86_64-unknown-linux-gnu -p svgdom -p mon \
    && cargo +nightly build -q --offline --release --locked --target x86_64-unknown-linux-gnu) > "$LOG" 2>&1; then
    BIN=$T/x86_64-unknown-linux-gnu/release/mon
    pids=()
    for k in 0 1 2 3 4 5 6 7; do
        ASAN_OPTIONS=detect_leaks=$LEAKS:exitcode=99:abort_on_error=0 \
            timeout 400 "$BIN" plain "$ID" quick "$SEED" $((k * 10000000)) 1000000 "${SAN_SECONDS:-120}" > "$LOG.$k" 2>&1 &
        pids+=($!)
    done
    n=0; bad=0
    for k in 0 1 2 3 4 5 6 7; do
        wait "${pids[$k]}"; rc=$?
        if [ $rc -eq 99 ] && grep -qE 'ERROR: (Address|Leak)Sanitizer' "$LOG.$k" && ! grep -q 'LeakSanitizer has encountered a fatal error' "$LOG.$k"; then
            cp "$LOG.$k" "$LOG"; bad=1
        fi
        c=$(sed -n 's/^cases \([0-9]*\)$/\1/p' "$LOG.$k" | tail -1)
        n=$((n + ${c:-0}))
        rm -f "$LOG.$k"
    done
    flock -u 8
    [ $bad -eq 1 ] && violation asan
    OUT="AddressSanitizer$([ $LEAKS = 1 ] && echo ' and LeakSanitizer'): $n cases, no report"
else
    flock -u 8
    OUT="AddressSanitizer: the build failed here, not run"
fi

# Miri: undefined-behaviour interpreter, slow, a few cases; memory left over at the end is reported too.
# The experimental aliasing rules are off: the pinned siphasher 0.2.3 (a dependency of phf) breaks them, svgdom has no unsafe code.
exec 8> "$V/target/.lock.miri"
flock 8
(cd "$V/harness" && CARGO_TARGET_DIR=$V/target/miri cargo +nightly clean -q --offline --target x86_64-unknown-linux-gnu -p svgdom -p mon 2> /dev/null
    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows $([ $LEAKS = 1 ] || echo -Zmiri-ignore-leaks)" CARGO_TARGET_DIR=$V/target/miri \
    timeout 600 cargo +nightly miri run -q --offline --locked -- plain "$ID" quick "$SEED" 0 100000 "${SAN_SECONDS:-120}") > "$LOG" 2>&1
rc=$?
flock -u 8
if grep -qE 'error: (Undefined Behavior|memory leaked)' "$LOG"; then
    violation miri
fi
c=$(sed -n 's/^cases \([0-9]*\)$/\1/p' "$LOG" | tail -1)
if [ $rc -eq 0 ]; then
    OUT="$OUT; Miri: ${c:-0} cases, no report"
else
    OUT="$OUT; Miri: ended with $rc after ${c:-0} cases without a report"
fi
echo "$OUT"
exit 0
