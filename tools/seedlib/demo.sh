#!/bin/bash
# compiles demo.cc against the built library and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
b=/repo/_build
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export FIMEX_IO_PLUGINS_PATH=$b/src/io/netcdf:$b/src/io/felt:$b/src/io/grib TZ=UTC LC_ALL=C.UTF-8
g++ -std=gnu++20 -O0 -fopenmp -I/repo/include -I$b/src -I/repo/src -isystem /usr/include/libxml2 -o "$w/demo" "$here/demo.cc" -L$b/src -lfimex-2.4 -Wl,-rpath,$b/src -lpthread || exit 2
cd "$w" && timeout 120 ./demo
