#!/bin/bash
# run.sh <bin> run <ID> [law] | run.sh <bin> replay <file>
# Builds the check against /repo's current working tree and runs it.
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 2
BIN=$1; shift # "all": build every check
set +u; [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1; set -u
cd "$HERE" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${KV_TARGET:-$HERE/target}"
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides by mtime what to rebuild; decide by content instead
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
h=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
if [ "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" != "$h" ]; then
  cargo clean --offline --release -p kyber-rs >/dev/null 2>&1
fi
SEL=(--bin "$BIN"); [ "$BIN" = all ] && SEL=(--bins)
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --release "${SEL[@]}" >"$log" 2>&1; then
  if ! cargo build --offline --release "${SEL[@]}" >"$log" 2>&1; then
    grep -E "^error" -A8 "$log" | head -60
    echo "build of the check failed"
    exit 2
  fi
fi
echo "$h" > "$CARGO_TARGET_DIR/.repo-hash"
flock -u 9
[ "$BIN" = all ] && exit 0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec "$CARGO_TARGET_DIR/release/$BIN" "$@"
