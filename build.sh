#!/bin/bash
# Builds the binary under test (from /repo's working tree), the shim and the
# harness into /verif/target. Usage: build.sh [krill|shim|harness|inproc]...
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export HOME=/root CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
V=$(cd "$(dirname "$0")" && pwd)
T=$V/target
mkdir -p "$T"
exec 9>"$T/.build.lock"
flock 9
for what in "${@:-krill}"; do
  case $what in
    krill)
      CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=1 \
        cargo build -q --bin krill-sync --manifest-path /repo/Cargo.toml --target-dir "$T/krill" --locked --offline ;;
    shim)
      if [ ! -e "$T/shim.so" ] || [ "$V/shim/shim.c" -nt "$T/shim.so" ]; then
        gcc -O1 -shared -fPIC -o "$T/shim.so.new" "$V/shim/shim.c" -ldl -lpthread 2>/dev/null
        mv "$T/shim.so.new" "$T/shim.so"
      fi ;;
    harness)
      cargo build -q --manifest-path "$V/harness/Cargo.toml" --target-dir "$T/harness" --locked --offline ;;
    inproc)
      cargo build -q --manifest-path "$V/inproc/Cargo.toml" --target-dir "$T/inproc" --offline ;;
  esac
done
