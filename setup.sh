#!/bin/bash
# Builds everything the checks need, so that they only rebuild what depends on /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
set -e
for c in macrosim; do (cd $c && cargo build --offline); done
python3 tools/build_sut.py min-int min-rational full-int full-rational
export RTSIM_SEED=${VERIF_SEED:-1}
python3 tools/freshness.py "$CARGO_TARGET_DIR"
python3 tools/freshness.py "$CARGO_TARGET_DIR/rational"
for with in plain instrumented; do
    (cd rtsim && $with && $with --features rational --target-dir "$CARGO_TARGET_DIR/rational")
done
(cd mpisim && instrumented)
(cd hdfsim && instrumented)
