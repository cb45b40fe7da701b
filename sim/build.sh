#!/bin/bash
# Builds what a check needs from the current working trees: the simulator, the driver, the instrumented `huff` of
# /repo and (with the argument "lib") the library workload. Incremental; safe to call again and again.
set -e
cd "$(dirname "$0")"
SIMDIR="$PWD"
OUT="${SIM_OUT:-$(dirname "$SIMDIR")/target}"
REPO="${SIM_REPO:-/repo}"
mkdir -p "$OUT"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
exec 9>"$OUT/.lock"; flock 9
if [ ! -f "$OUT/libsim.so" ] || [ libsim/libsim.c -nt "$OUT/libsim.so" ] || [ libsim/simshm.h -nt "$OUT/libsim.so" ] || [ build.sh -nt "$OUT/libsim.so" ]; then
  # the baton makes threads take turns inside calls: no reasoning across calls about what they leave unchanged
  gcc -O2 -fno-ipa-reference -fno-ipa-pure-const -fno-ipa-modref -shared -fPIC -fvisibility=hidden -w -o "$OUT/libsim.so.tmp" libsim/libsim.c -ldl
  mv "$OUT/libsim.so.tmp" "$OUT/libsim.so"
fi
cargo build -q --release --offline --locked --manifest-path driver/Cargo.toml --target-dir "$OUT/driver" >&2 &
DRV=$!
# what the code under test is, by content (not by time stamp)
HASH=$( (cd "$REPO" && find . -name target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; \
         cd "$SIMDIR" && sha256sum rustc-wrap.sh; find libwork -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum "$OUT/libsim.so") | sha256sum | cut -c1-32)
export SIM_LIB="$OUT/libsim.so"
sut() { # $1: stamp, rest: cargo arguments
  local stamp="$OUT/$1.hash" dir="$OUT/$1"; shift
  [ "$(cat "$stamp" 2>/dev/null)" = "$HASH" ] && return 0
  rm -f "$stamp"
  if [ -d "$dir/release/.fingerprint" ]; then
    find "$dir/release/.fingerprint" -mindepth 1 -maxdepth 1 \( -name 'huff-*' -o -name 'huff_coding-*' -o -name 'libwork-*' \) -exec rm -rf {} +
  fi
  RUSTC_WRAPPER="$SIMDIR/rustc-wrap.sh" cargo build -q --release --offline "$@" --target-dir "$dir" >&2 || return 1
  echo "$HASH" > "$stamp"
}
RC=0; LIB=""
if [ "$1" = lib ]; then
  ( [ "$(cat "$OUT/lib.hash" 2>/dev/null)" != "$HASH" ] || exit 0
    rm -rf "$OUT/lw"; mkdir -p "$OUT/lw"; cp -r libwork/Cargo.toml libwork/Cargo.lock libwork/src "$OUT/lw/"
    sed -i "s#\"/repo/huff_coding\"#\"$REPO/huff_coding\"#" "$OUT/lw/Cargo.toml"
    sut lib --manifest-path "$OUT/lw/Cargo.toml" ) &
  LIB=$!
fi
sut cli --locked --manifest-path "$REPO/Cargo.toml" -p huff --bin huff || RC=1
wait $DRV || RC=1
[ -z "$LIB" ] || wait $LIB || RC=1
exit $RC
