#!/bin/bash
# Builds the harness (and through it /repo's crates with the hooks on) into /verif/target.
# usage: build.sh [VARIANT]      VARIANT: (none) | asan | msan | tsan
set -u
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
VARIANT="${1:-}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
unset CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
case "$VARIANT" in
  "") DIR="$ROOT/target" ;;
  *) DIR="$ROOT/target-$VARIANT" ;;
esac
mkdir -p "$DIR" || exit 3
exec 9>"$DIR/.verif-lock"
flock 9
# cargo goes by modification times: a source whose content changed while its time did not (a
# restored or bind-mounted tree) would be missed, so go by content here
NOW="$( (cd /repo && find core remote remote-ffi remote-ffi-gen Cargo.toml Cargo.lock ! -path remote-ffi/src/ffi.rs \
          \( -name target -prune \) -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; \
          cd "$ROOT" && find harness ffi -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)"
# the C interface: its build script writes next to its sources, so it is built from a copy
FFI="$ROOT/target/ffi-src/src"
mkdir -p "$FFI" || exit 3
exec 8>"$ROOT/target/ffi-src/.lock"
flock 8
for f in /repo/remote-ffi/src/*.rs; do
  b="$(basename "$f")"
  [ "$b" = ffi.rs ] || cmp -s "$f" "$FFI/$b" || cp "$f" "$FFI/$b"
done
for f in "$FFI"/*.rs; do
  b="$(basename "$f")"
  [ "$b" = ffi.rs ] || [ -f "/repo/remote-ffi/src/$b" ] || rm -f "$f"
done
OLD="$(cat "$DIR/.verif-hash" 2>/dev/null)"
cd "$ROOT/harness" || exit 3
case "$VARIANT" in
  "") export RUSTFLAGS="--cfg ced_verif --cfg ced_delays"; CARGO=(cargo build --offline) ;;
  asan) export CC_x86_64_unknown_linux_gnu=clang CFLAGS_x86_64_unknown_linux_gnu="-fsanitize=address" RUSTFLAGS="--cfg ced_verif -Zsanitizer=address"; CARGO=(env RUSTC_BOOTSTRAP=1 cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu) ;;
  msan) export CC_x86_64_unknown_linux_gnu=clang CFLAGS_x86_64_unknown_linux_gnu="-fsanitize=memory -fsanitize-memory-track-origins" RUSTFLAGS="--cfg ced_verif -Zsanitizer=memory -Zsanitizer-memory-track-origins"; CARGO=(env RUSTC_BOOTSTRAP=1 cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu) ;;
  tsan) export CC_x86_64_unknown_linux_gnu=clang CFLAGS_x86_64_unknown_linux_gnu="-fsanitize=thread" RUSTFLAGS="--cfg ced_verif -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"; CARGO=(env RUSTC_BOOTSTRAP=1 cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu) ;;
esac
export CARGO_TARGET_DIR="$DIR"
if [ "$NOW" != "$OLD" ]; then
  if [ -n "$OLD" ]; then
    rm -f "$DIR/.verif-hash"
    for f in "$DIR"/debug/.fingerprint "$DIR"/x86_64-unknown-linux-gnu/debug/.fingerprint; do
      [ -d "$f" ] && find "$f" -maxdepth 1 -type d \( -name 'ced-*' -o -name 'cedmon-*' -o -name 'remote-ffi*' -o -name 'cedffi*' \) -exec rm -rf {} +
    done
  fi
fi
"${CARGO[@]}" > "$DIR/.verif-build.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  tail -n 60 "$DIR/.verif-build.log"
  echo "build of the harness against /repo failed ($rc)"
  exit 3
fi
if [ "$VARIANT" = "" ] && { [ ! -f "$DIR/shim.so" ] || [ "$ROOT/tools/shim.c" -nt "$DIR/shim.so" ]; }; then
  gcc -O2 -shared -fPIC -o "$DIR/shim.so.new" "$ROOT/tools/shim.c" -ldl && mv "$DIR/shim.so.new" "$DIR/shim.so" || exit 3
fi
echo "$NOW" > "$DIR/.verif-hash"
exit 0
