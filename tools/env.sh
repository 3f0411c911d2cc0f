# Sourced by setup.sh and check drivers: offline cargo with its own home and
# target directory, so that nothing under /opt/vp or /repo is written.
# usage: . env.sh [asan]
. /opt/vp/env.sh
export VB=/verif/build
export CARGO_HOME=$VB/cargo-home
export CARGO_INCREMENTAL=1
export CARGO_NET_OFFLINE=true
VARIANT=${1:-plain}
if [ "$VARIANT" = asan ]; then
  # The 1.39 toolchain ships the AddressSanitizer runtime; -Z needs the bootstrap switch.
  export CARGO_TARGET_DIR=$VB/asan RUSTC_BOOTSTRAP=1
  export RUSTFLAGS="-Z sanitizer=address -C link-arg=@$VB/link.args"
  export LUA_LOCAL_SOURCE=$VB/lua-asan
  CVARGS="--bin cv --target x86_64-unknown-linux-gnu"
  PROFDIR=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug
else
  VARIANT=plain
  export CARGO_TARGET_DIR=$VB/target
  export LUA_LOCAL_SOURCE=$VB/lua-api
  CVARGS=
  PROFDIR=$CARGO_TARGET_DIR/debug
fi
