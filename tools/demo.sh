#!/bin/bash
# run in /repo after the build: exit 0 if the behaviour is right
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
inc="-I_build/generated"
for d in $(find core/lib ext/lib -type d); do inc="$inc -I$d"; done
g++ -std=c++11 -w $inc "$here/demo.cpp" -o "$tmp/demo" -L_build -lgpstk -Wl,-rpath,"$PWD/_build"
cd "$tmp"
timeout 60 ./demo
