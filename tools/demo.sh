#!/bin/bash
# Builds the demonstration beside this script against /repo's library.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -g -DFDUMP_DEFINE -DRTP_DEFINE -DFPRINT_ERRORS \
  -I/repo/include -I"$D" "$D/demo.cc" /repo/_build/src/libh264nal.a \
  -o "$T/demo" || exit 2
timeout 60 "$T/demo" 2>"$T/err"
rc=$?
grep '^demo:' "$T/err"
exit $rc
