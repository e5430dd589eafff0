#!/bin/bash
# build.sh [release|plain|tools]...: builds the simulator (and the instrumented yamd inside it) and
# the tools from /repo's working tree; everything if nothing is named.
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
exec 9>/tmp/.ysim-build.lock; flock 9
sum=$(cd /repo && { find src utils/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml utils/Cargo.toml; } 2>/dev/null | sha256sum | cut -d' ' -f1)
mkdir -p target
[ $# -gt 0 ] || set -- release plain tools
for what; do
  # never trust time stamps of sources that were swapped underneath cargo
  stale=0; [ "$(cat "target/$what.sum" 2>/dev/null)" = "$sum" ] || stale=1
  rm -f "$PWD/target/$what.sum"
  case $what in
  tools)
    if [ $stale = 1 ]; then
      cargo clean -q --release -p yamd -p utilsbin --manifest-path utilsbin/Cargo.toml --target-dir target/utils >/dev/null 2>&1
    fi
    cargo build -q --release --offline --locked --manifest-path utilsbin/Cargo.toml --target-dir target/utils || exit 2
    gcc -O1 -shared -fPIC -o target/shim.so utilsbin/shim.c -ldl || exit 2 ;;
  *)
    if [ $stale = 1 ]; then
      cargo clean -q --profile "$what" -p yamd --manifest-path sim/Cargo.toml --target-dir target/sim >/dev/null 2>&1
    fi
    RUSTC_WRAPPER="$PWD/sim/rustc-wrapper.sh" cargo build -q --profile "$what" --offline --locked --manifest-path sim/Cargo.toml --target-dir target/sim || exit 2 ;;
  esac
  echo "$sum" > "target/$what.sum"
done
