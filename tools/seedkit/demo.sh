#!/bin/sh
# run with cwd = the repository; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$work"' EXIT
CXX=g++-13; command -v $CXX >/dev/null || CXX=g++
$CXX -std=c++23 -O1 -g @FLAGS@ -w -I "$here/net" -I include "$here/demo.cpp" -o "$work/demo" || exit 2
cp -r "$here"/root "$work/root" 2>/dev/null || mkdir "$work/root"
cd "$work" && timeout 120 ./demo
