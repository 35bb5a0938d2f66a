#!/bin/bash
# check.sh ID            decide one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# check.sh --replay FILE run the case of a replay file on the current tree
# check.sh --build       only build
#
# Builds the harness, and the program from the current working tree of /repo: development build,
# release build, and the batch build (--cfg ripcalc_batch; used for speed only). All output of the
# builds goes to $RIPVERIF_BUILD, by default build/ beside this script.
# Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${RIPVERIF_REPO:-/repo}
BUILD=${RIPVERIF_BUILD:-$ROOT/build}
mkdir -p "$BUILD"
exec 9>"$BUILD/lock"
flock 9
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0

# Time stamps of source files need not mean anything: always compile the program itself.
fresh() {
    find "$1" -maxdepth 3 -path '*/.fingerprint/ripcalc-*' -prune -exec rm -rf {} + 2>/dev/null
}
build() { # name, extra arguments...
    local name=$1
    shift
    fresh "$BUILD/$name"
    cargo build --offline --locked --manifest-path "$REPO/Cargo.toml" --target-dir "$BUILD/$name" "$@" >"$BUILD/$name.log" 2>&1
}

build dev & P1=$!
build release --release & P2=$!
(
    export RUSTFLAGS="--cfg ripcalc_batch -Coverflow-checks=on -Cdebug-assertions=on"
    build batch --release
) & P3=$!
cargo build --offline --locked --release --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$BUILD/harness" >"$BUILD/harness.log" 2>&1 & P4=$!
rm -f "$BUILD/shim.so"
${CC:-cc} -O1 -shared -fPIC -o "$BUILD/shim.so" "$ROOT/harness/shim/shim.c" -ldl >"$BUILD/shim.log" 2>&1
REDUCED=
case "${1:-}" in
C31 | --build) REDUCED=1 ;;
--replay) grep -q '"property": *"C31"' "$2" && REDUCED=1 ;;
esac
if [ -n "$REDUCED" ]; then
    # with only some of the optional features; whether these compile is for C31 to judge
    mkdir -p "$BUILD/reduced"
    for features in nothing console num-bigint; do
        (
            rm -f "$BUILD/reduced/$features.program"
            list=$features
            [ "$features" = nothing ] && list=
            build "reduced/$features" --no-default-features --features "$list" &&
                cp "$BUILD/reduced/$features/debug/ripcalc" "$BUILD/reduced/$features.program"
        ) &
        REDUCED="$REDUCED $!"
    done
fi
wait $P1; S1=$?
wait $P2; S2=$?
wait $P3; S3=$?
wait $P4; S4=$?
for p in ${REDUCED#1}; do
    wait "$p"
done
[ -n "$REDUCED" ] && export RIPVERIF_REDUCED=$BUILD/reduced
for i in "$S1 dev" "$S2 release" "$S4 harness"; do
    set -- $i "$@"
    if [ "$1" != 0 ]; then
        echo "ERROR the $2 build failed:"
        tail -n 30 "$BUILD/$2.log"
        exit 2
    fi
    shift 2
done

export RIPVERIF_ROOT=$ROOT
export RIPVERIF_SOURCE=$REPO/src
export RIPVERIF_DEV=$BUILD/dev/debug/ripcalc
export RIPVERIF_RELEASE=$BUILD/release/release/ripcalc
export RIPVERIF_SHIM=
[ -f "$BUILD/shim.so" ] && export RIPVERIF_SHIM=$BUILD/shim.so
export RIPVERIF_BATCH=
if [ "$S3" = 0 ]; then
    export RIPVERIF_BATCH=$BUILD/batch/release/ripcalc
fi

deb() { # the properties of contrib/: deb SCRIPT check | deb SCRIPT replay FILE
    local script=$1
    shift
    for p in python3-vt /opt/veriftools/pyvenv/bin/python3 python3; do
        if "$p" -c 'import hypothesis' 2>/dev/null; then
            RIPVERIF_REPO=$REPO "$p" -B "$ROOT/harness/deb/$script" "$@" 9>&-
            return
        fi
    done
    echo "ERROR no python with hypothesis"
    return 2
}
case "${1:-}" in
--build)
    exit 0
    ;;
C27)
    deb deb.py check
    ;;
C30)
    deb arch.py check
    ;;
--replay)
    if grep -q '"property": *"C27"' "$2"; then
        deb deb.py replay "$2"
    elif grep -q '"property": *"C30"' "$2"; then
        deb arch.py replay "$2"
    else
        "$BUILD/harness/release/ripverif" replay "$2" 9>&-
    fi
    ;;
*)
    "$BUILD/harness/release/ripverif" check "$1" 9>&-
    ;;
esac
S=$?
if [ "$S" = 0 ] && [ "${1:-}" != --replay ]; then
    # defects that were found but not repaired (none at present)
    grep "^KNOWN-FINDING: property=$1 " "$ROOT/known_findings.txt" 2>/dev/null
fi
case $S in
0 | 1 | 2) exit $S ;;
*)
    echo "ERROR the harness ended with status $S"
    exit 2
    ;;
esac
