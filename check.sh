#!/bin/bash
# check.sh <property>            decides a property on /repo's current tree (VERIF_SEED, VERIF_TIER, VERIF_BUDGET_S)
# check.sh replay <replay file>  repeats the recorded execution
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh || exit 2
what=$1
file=
if [ "$what" = replay ]; then
    file=$(realpath "$2")
    what=$(sed -n 's/^property //p' "$file" | head -1)
fi
fail() { echo "check.sh: $*" >&2; exit 2; }
# A failing build says nothing about the property.
crate() {
    (cd "$1" && cargo build --offline --quiet 2>"$CARGO_TARGET_DIR/$1.log") || { tail -50 "$CARGO_TARGET_DIR/$1.log" >&2; fail "cannot build $1"; }
}
case "$what" in
C01)
    python3 tools/build_sut.py min-int min-rational full-int full-rational || fail "cannot build diman"
    crate macrosim
    bin=$CARGO_TARGET_DIR/debug/macrosim ;;
C02 | C03 | C04)
    python3 tools/build_sut.py min-int min-rational || fail "cannot build diman"
    crate macrosim
    bin=$CARGO_TARGET_DIR/debug/macrosim ;;
C05 | C06 | C07 | C08 | C11)
    # The generated unit systems are part of the program: they are seeded at build time.
    # C11 needs to switch tasks at accesses to memory.
    export RTSIM_SEED=${VERIF_SEED:-1}
    with=plain out=debug
    [ "$what" = C11 ] && with=instrumented out=$HOST/debug
    export RTSIM_RATIONAL=$CARGO_TARGET_DIR/rational/$out/rtsim
    only=
    if [ -n "$file" ]; then
        RTSIM_SEED=$(sed -n 's/^systems_seed //p' "$file")
        only=$(sed -n 's/^features //p' "$file")
    fi
    rtsim() {
        python3 tools/freshness.py "$1" || return 1
        (cd rtsim && $with --target-dir "$1" $2 2>"$1/rtsim.log") || { tail -50 "$1/rtsim.log" >&2; return 1; }
    }
    jobs=()
    if [ "$only" != rational ]; then rtsim "$CARGO_TARGET_DIR" & jobs+=($!); fi
    if [ "$only" != int ]; then rtsim "$CARGO_TARGET_DIR/rational" "--features rational" & jobs+=($!); fi
    for j in "${jobs[@]}"; do wait "$j" || fail "cannot build rtsim"; done
    bin=$CARGO_TARGET_DIR/$out/rtsim
    [ "$only" = rational ] && bin=$RTSIM_RATIONAL ;;
C09 | C10)
    # Like C11: instrumented.
    sim=mpisim
    [ "$what" = C10 ] && sim=hdfsim
    export RTSIM_SEED=${VERIF_SEED:-1}
    [ -n "$file" ] && RTSIM_SEED=$(sed -n 's/^systems_seed //p' "$file")
    python3 tools/freshness.py "$CARGO_TARGET_DIR" || fail "cannot read /repo"
    (cd $sim && instrumented 2>"$CARGO_TARGET_DIR/$sim.log") || { tail -50 "$CARGO_TARGET_DIR/$sim.log" >&2; fail "cannot build $sim"; }
    bin=$CARGO_TARGET_DIR/$HOST/debug/$sim ;;
*) fail "no check for '$what'" ;;
esac
if [ -n "$file" ]; then
    exec "$bin" replay "$file"
fi
exec "$bin" check "$what"
