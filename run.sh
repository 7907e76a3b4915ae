#!/bin/bash
# run.sh build | check ID quick|thorough | replay FILE | list
# Rebuilds the checker against the working tree of /repo, then runs it.
export HOME="${HOME:-/root}"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
ROOT="$(cd "$(dirname "$0")" && pwd)"
export MC_ROOT="$ROOT"
cd "$ROOT/mc" || exit 2
log=$(mktemp)
trap 'rm -f "$log"' EXIT
build() { cargo build --offline --locked "$@" >"$log" 2>&1; }
if ! build; then
    # A second attempt: a first one may have been disturbed from outside.
    if ! build; then
        grep -E -A12 '^error' "$log" | head -60
        tail -5 "$log"
        echo "the checker does not build against /repo"
        exit 2
    fi
fi
[ "$1" = build ] && exit 0
"$ROOT/mc/target/debug/mc" "$@"
rc=$?
if [ "$1" = check ] && [ $rc -gt 100 ]; then
    echo "the checker ended with status $rc; once more"
    "$ROOT/mc/target/debug/mc" "$@"
    rc=$?
    if [ $rc -gt 100 ]; then
        mkdir -p "$ROOT/replays"
        f="$ROOT/replays/$2.json"
        printf '{"property":"%s","tier":"%s","message":"the code under test crashed the process (status %s)"}\n' "$2" "$3" "$rc" >"$f"
        echo "VIOLATION property=$2 replay=$f"
        exit 1
    fi
fi
exit $rc
