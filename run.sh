#!/bin/bash
# Entry point of all checks. Usage:
#   run.sh setup                      build everything
#   run.sh check ID                   VERIF_TIER (quick|thorough), VERIF_SEED
#   run.sh replay ID TIER SEED CASE   re-run one case
# Builds the harness (and through it /repo's crate) from /repo's current working tree into
# /verif/.work, which git ignores.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
WORK=$VERIF/.work
mkdir -p "$WORK"
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="$CARGO_HOME/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$WORK/target"
export RBMON_WORK="$WORK" RBMON_EVIDENCE="$VERIF/evidence" RBMON_FINDINGS="$VERIF/known-findings.txt"
EXE="$CARGO_TARGET_DIR/release/rbmon"
TIER="${VERIF_TIER:-quick}"
SEED="${VERIF_SEED:-1}"
case "$SEED" in (*[!0-9]*|'') SEED=1;; esac
case "$TIER" in (quick|thorough) ;; (*) TIER=quick;; esac

# Files cargo needs that git ignores in /repo.
prepare() {
    [ -e "$REPO/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$REPO/Cargo.lock" 2>/dev/null
    for f in src/tests/lexer/gen.rs src/tests/parser/gen.rs; do
        if [ ! -e "$REPO/$f" ]; then mkdir -p "$(dirname "$REPO/$f")"; : > "$REPO/$f"; fi
    done
    # Generated sources are rebuilt whenever any source differs from what the last build here saw.
    local h
    h=$(cd "$REPO" && { find src build.rs codegen Cargo.toml Cargo.lock -type f ! -path 'src/tests/*' ! -name parse.rs ! -name list.rs -print0 | sort -z | xargs -0 sha256sum; sha256sum src/bin/parse.rs src/parser/parse.rs src/reserved_words/list.rs; } 2>/dev/null | sha256sum)
    if [ "$h" != "$(cat "$WORK/src.sha" 2>/dev/null)" ]; then
        rm -f "$WORK/src.sha" "$REPO/src/parser/parse.rs" "$REPO/src/reserved_words/list.rs"
        touch "$REPO/src/parser/parse.y" "$REPO/src/lib.rs" "$REPO/build.rs"
    fi
}
prepared() {
    (cd "$REPO" && { find src build.rs codegen Cargo.toml Cargo.lock -type f ! -path 'src/tests/*' ! -name parse.rs ! -name list.rs -print0 | sort -z | xargs -0 sha256sum; sha256sum src/bin/parse.rs src/parser/parse.rs src/reserved_words/list.rs; } 2>/dev/null | sha256sum) > "$WORK/src.sha"
}
build() {
    exec 9>"$WORK/lock"
    flock 9
    prepare
    if ! (cd "$VERIF/harness" && cargo build --release --offline) > "$WORK/build.log" 2>&1; then
        cat "$WORK/build.log" >&2
        echo "ERROR: the harness does not build" >&2
        exit 3
    fi
    if [ "${1:-}" = cli ]; then
        if ! (cd "$REPO" && cargo build --release --offline --features development,bin-parse --bin parse) >> "$WORK/build.log" 2>&1; then
            tail -50 "$WORK/build.log" >&2
            echo "ERROR: the parse executable does not build" >&2
            exit 3
        fi
    fi
    if [ "${1:-}" = asan ]; then
        # a nightly toolchain knows -Zsanitizer; the target is named so that build scripts stay plain
        if ! (cd "$VERIF/harness" && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$WORK/target-asan" \
            cargo build --release --offline --target x86_64-unknown-linux-gnu) >> "$WORK/build.log" 2>&1; then
            tail -50 "$WORK/build.log" >&2
            echo "ERROR: the harness does not build with AddressSanitizer" >&2
            exit 3
        fi
        EXE="$WORK/target-asan/x86_64-unknown-linux-gnu/release/rbmon"
        export RBMON_ASAN=1 RBMON_NOLIMIT=1 ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1
    fi
    prepared
    flock -u 9
}
kind() { case "$1" in (C27) echo cli;; (C30) echo asan;; esac; }
case "${1:-}" in
setup)
    (build cli) && (build asan)
    ;;
check)
    build $(kind "$2")
    exec "$EXE" check "$2" "$TIER" "$SEED"
    ;;
replay)
    build $(kind "$2")
    shift
    exec "$EXE" replay "$@"
    ;;
*)
    sed -n 2,8p "$0"
    exit 2
    ;;
esac
