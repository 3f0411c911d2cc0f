#!/bin/bash
# lua.sh NAME CFLAGS: builds the vendored Lua sources with extra flags.
set -e
. /verif/tools/env.sh
d=$VB/$1
[ -e $d/liblua.a ] && exit 0
mkdir -p $d
cp $VB/vendor/mond/lua-source/src/* $d/
cd $d
for f in l*.c; do
  case $f in lua.c|luac.c) continue;; esac
  gcc -O1 -g -fPIC -DLUA_COMPAT_5_2 -DLUA_USE_POSIX -DLUA_USE_APICHECK $2 -c $f -o ${f%.c}.o
done
ar rc liblua.a.tmp *.o
mv liblua.a.tmp liblua.a
