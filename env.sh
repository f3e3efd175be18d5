# Sourced by setup.sh and check.sh.
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
export HOST=x86_64-unknown-linux-gnu
# Builds with a call before each access to memory, which access.c answers in place of the sanitizer's run-time library.
instrumented() {
    RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-func-entry-exit=0" cargo build --offline --quiet --target $HOST "$@"
}
plain() {
    cargo build --offline --quiet "$@"
}
