#!/bin/bash
# run.sh check ID | replay FILE | build: builds the harness against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
root=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$root" || exit 2
export CARGO_TARGET_DIR=$root/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# Cargo decides by modification times; make sure that changed contents are always rebuilt.
state=$(cd /repo && find Cargo.toml src compose_spec_macros -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/repo.state" 2>/dev/null)" != "$state" ]; then
    rm -f "$CARGO_TARGET_DIR/repo.state"
    (cd harness && cargo clean --offline -q -p compose_spec -p compose_spec_macros 2>/dev/null)
fi
if ! (cd harness && cargo build --offline -q --color never 2>"$CARGO_TARGET_DIR/build.log"); then
    grep -A 30 '^error' "$CARGO_TARGET_DIR/build.log" | head -200 >&2
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
fi
echo "$state" > "$CARGO_TARGET_DIR/repo.state"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/harness" "$@"
