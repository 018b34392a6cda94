#!/bin/bash
# build.sh [asan|tsan]
# Build the monitors against /repo's working tree, plainly or instrumented by a
# sanitizer.  cargo decides by mtime, so the library is rebuilt from scratch
# whenever the contents differ from the contents of the last successful build.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${CSMON_REPO:-/repo}"
KIND="${1:-}"
TRIPLE=x86_64-unknown-linux-gnu
case "$KIND" in
  "")   export CARGO_TARGET_DIR="$V/.build"; OUT="$CARGO_TARGET_DIR/release"; CMD=(cargo build) ;;
  asan) export CARGO_TARGET_DIR="$V/.build/asan" RUSTFLAGS="-Zsanitizer=address"
        OUT="$CARGO_TARGET_DIR/$TRIPLE/release"; CMD=(cargo +nightly build --target "$TRIPLE") ;;
  # Races are only seen in instrumented code, so the standard library is built too.
  tsan) export CARGO_TARGET_DIR="$V/.build/tsan" RUSTFLAGS="-Zsanitizer=thread"
        OUT="$CARGO_TARGET_DIR/$TRIPLE/release"; CMD=(cargo +nightly build -Zbuild-std --target "$TRIPLE") ;;
  *) echo "unknown kind $KIND" >&2; exit 2 ;;
esac
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/lock"
flock 9
STAMP="$CARGO_TARGET_DIR/stamp"
now() {
  (cd "$REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum
   ls build.rs .cargo 2>/dev/null
   cd "$V/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum
}
H="$(now)"
if [ -x "$OUT/csmon" ] && [ -f "$OUT/deps/libcrystsymm.so" ] \
   && [ -f "$STAMP" ] && [ "$(cat "$STAMP")" = "$H" ]; then
  exit 0
fi
rm -f "$STAMP"
find "$OUT/.fingerprint" -maxdepth 1 \( -name 'cryst-symm-*' -o -name 'csmon-*' \) -exec rm -r {} + 2>/dev/null
cd "$V/harness" || exit 2
# The instrumented builds need no internal modules; the plain build drops them
# only if it has to.
TRY=("tables,helpers" helpers tables "")
[ -n "$KIND" ] && TRY=("")
for F in "${TRY[@]}" none; do
  [ "$F" = none ] && { tail -40 "$CARGO_TARGET_DIR/build.log" >&2; exit 2; }
  "${CMD[@]}" --release --offline --quiet --no-default-features --features "$F" >"$CARGO_TARGET_DIR/build.log" 2>&1 && break
done
printf '%s' "$H" >"$STAMP"
exit 0
