#!/bin/bash
# build.sh <flavour>...   builds the simulator and rawloader from /repo's working tree; flavour: rel | dev
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
tgt="$here/../target"
mkdir -p "$tgt"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG || true
exec 9>"$tgt/.lock"; flock 9
[ "$tgt/simrt.o" -nt "$here/rt/simrt.c" ] && [ "$tgt/simrt.o" -nt "$here/rt/simrt.h" ] || \
  { gcc -O2 -g0 -Wall -fno-strict-aliasing -fPIC -c "$here/rt/simrt.c" -o "$tgt/simrt.o"
    # cargo does not know that the programs link it
    find "$tgt" -maxdepth 5 -type d -path '*/.fingerprint/rlsim-*' -prune -exec rm -rf {} + ; }
tgt="$(cd "$tgt" && pwd)"
for fl in "$@"; do
  case $fl in rel) prof=--release;; dev) prof=;; *) echo "flavour $fl?" >&2; exit 2;; esac
  SIMRT_O="$tgt/simrt.o" RUSTC_WRAPPER="$here/rustc-wrap.sh" \
  cargo build --manifest-path "$here/Cargo.toml" --target-dir "$tgt/$fl" --target x86_64-unknown-linux-gnu --offline --locked $prof -q
done
