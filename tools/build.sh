#!/bin/bash
# build.sh [plain|asan]: incremental build of the harness (and the daemon) from
# /repo's working tree. Cargo judges freshness by mtime; a content hash decides
# here, so that a tree whose files carry old timestamps is still rebuilt.
set -e
. /verif/tools/env.sh ${1:-plain}
if [ ! -e $VB/lua-asan/liblua.a ] || [ ! -e $CARGO_HOME/config ] || [ ! -e $VB/vendor ]; then
  exec bash /verif/tools/setup.sh
fi
stamp() { (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha1sum; cd /verif/harness && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha1sum) | sha1sum | cut -d' ' -f1; }
NOW=$(stamp)
if [ "$NOW" != "$(cat $VB/built.$VARIANT 2>/dev/null)" ]; then
  d=$PROFDIR/.fingerprint
  [ -d $d ] && find $d -maxdepth 1 \( -name 'cernan-*' -o -name 'cv-*' \) -print0 | xargs -0r -I{} find {} -type f -delete
fi
cd /verif/harness
cargo build --offline --locked $CVARGS 2>&1
echo "$NOW" > $VB/built.$VARIANT
