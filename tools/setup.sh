#!/bin/bash
# Prepares /verif/build (git-ignored) and builds the harness once, plain and
# with AddressSanitizer. Idempotent.
set -e
. /verif/tools/env.sh plain
mkdir -p $CARGO_HOME
python3 /verif/tools/mkvendor.py
python3 /verif/tools/mkconfig.py
bash /verif/tools/lua.sh lua-api ""
bash /verif/tools/lua.sh lua-asan "-fsanitize=address"
bash /verif/tools/build.sh plain
bash /verif/tools/build.sh asan
