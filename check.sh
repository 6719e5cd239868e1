#!/bin/bash
# check.sh <property id> [quick|thorough]: decides one property against /repo's current working tree.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
export RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p out evidence

# build <target dir> <cargo args...>
build() {
    local t=$1; shift
    # cargo goes by modification times, which a restored file need not advance
    find "$t" -maxdepth 5 -type d \( -path '*/.fingerprint/trees-*' -o -path '*/build/trees' \) -prune -exec rm -rf {} + 2>/dev/null
    if ! cargo "${TOOL[@]}" build --offline -q --manifest-path "$CRATE/Cargo.toml" --target-dir "$t" "$@" 2>"$V/out/build-$ID$LOG.log"; then
        tail -50 "$V/out/build-$ID$LOG.log"
        echo "error: the harness does not build against /repo"
        exit 2
    fi
}
asan() {
    TOOL=(+nightly)
    RUSTFLAGS="-Awarnings -Zsanitizer=address" build "$V/target-asan" --features sysalloc --target x86_64-unknown-linux-gnu
    TOOL=()
    export VT_ASAN_BIN=$V/target-asan/x86_64-unknown-linux-gnu/debug/vt ASAN_OPTIONS=detect_leaks=0:abort_on_error=1 VT_NOAS=1
}
TOOL=()
LOG=
if [ "$ID" = C32 ]; then
    CRATE=$V/thr
    build "$V/target-thr"
    TOOL=(+nightly)
    RUSTFLAGS="-Awarnings -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" build "$V/target-tsan" --target x86_64-unknown-linux-gnu
    TOOL=()
    VT_TSAN_BIN=$V/target-tsan/x86_64-unknown-linux-gnu/debug/thr
    if "$VT_TSAN_BIN" cases 1 0 1 1 1 >out/tsan.log 2>&1 || grep -q FAIL out/tsan.log; then export VT_TSAN_BIN; else unset VT_TSAN_BIN; echo "note: ThreadSanitizer does not run here"; fi
    find "$V/target-miri" -maxdepth 6 -type d \( -path '*/.fingerprint/trees-*' -o -path '*/build/trees' \) -prune -exec rm -rf {} + 2>/dev/null
    if tools/miri.sh cases 1 0 1 0 1 >out/miri.log 2>&1 || grep -q "Undefined Behavior\|FAIL" out/miri.log; then export VT_MIRI=$V/tools/miri.sh; else tail -3 out/miri.log; echo "note: Miri does not run here"; fi
    exec "$V/target-thr/debug/thr" run "$ID" "$TIER" "$SEED" "$V"
fi
CRATE=$V/harness
# the library as released (no overflow checks, no debug assertions) is searched too, and for C31 the other configuration
case $ID in
C09|C10)
    python3 tools/gen_tuples.py "$SEED" "$TIER" "$V/out/tup" "$V/harness" || exit 2
    CRATE=$V/out/tup
    ARGS=(--profile rel)
    OTHER=$V/target-tup-rel
    export VT_REL_BIN=$OTHER/rel/tup ;;
C31)
    ARGS=(--features no_std)
    OTHER=$V/target-nostd
    export VT_NOSTD_BIN=$OTHER/debug/vt ;;
*)
    ARGS=(--release)
    OTHER=$V/target-rel
    export VT_REL_BIN=$OTHER/release/vt ;;
esac
( LOG=-2; build "$OTHER" "${ARGS[@]}" ) >"out/build2-$ID.txt" &
B2=$!
case $ID in
C09|C10) build "$V/target-tup"; BIN=$V/target-tup/debug/tup ;;
*) build "$V/target"; BIN=$V/target/debug/vt ;;
esac
wait $B2 || { cat "out/build2-$ID.txt"; exit 2; }
case $ID in
C05|C24|C29|C30) asan ;;
esac
"$BIN" run "$ID" "$TIER" "$SEED" "$V"
