#!/bin/bash
# build.sh VARIANT   (dbg | asan | tsan): builds the harness against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
variant=$1
. "$here/harness/env.sh"
export RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings"
export CARGO_TARGET_DIR="$here/target/$variant"
mkdir -p "$CARGO_TARGET_DIR"
args=(--offline)
case $variant in
  dbg) ;;
  asan) RUSTFLAGS+=" -Zsanitizer=address -C force-frame-pointers=yes"; args+=(--no-default-features --target x86_64-unknown-linux-gnu) ;;
  tsan) RUSTFLAGS+=" -Zsanitizer=thread -C unsafe-allow-abi-mismatch=sanitizer"; args+=(--no-default-features -Zbuild-std --target x86_64-unknown-linux-gnu) ;;
  *) echo "unknown variant $variant" >&2; exit 3 ;;
esac
# Never trust time stamps alone: when the sources differ from those of the last build, make
# cargo rebuild the crate under test.
h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/.repo_hash" 2>/dev/null)" != "$h" ]; then
  find "$CARGO_TARGET_DIR" -path '*/.fingerprint/hexodsp-*' -prune -exec rm -rf {} + 2>/dev/null
fi
cd "$here/harness" || exit 3
if ! cargo build "${args[@]}" > "$CARGO_TARGET_DIR/build.log" 2>&1; then
  grep -E '^error' -A8 "$CARGO_TARGET_DIR/build.log" | head -60
  tail -5 "$CARGO_TARGET_DIR/build.log"
  exit 4
fi
echo "$h" > "$CARGO_TARGET_DIR/.repo_hash"
case $variant in
  dbg) echo "$CARGO_TARGET_DIR/debug/hexomon" ;;
  *) echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/hexomon" ;;
esac
