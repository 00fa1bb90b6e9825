#!/bin/bash
# compiles the small program beside this script against the module as built and runs it
here=$(cd "$(dirname "$0")" && pwd); out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
g++ -std=c++11 -O0 -w -I/opt/gismo-core/src -I/opt/gismo-core/external -I/opt/gismo-core/optional -I/repo/_build "$here/demo.cpp" -o "$out/demo" -L/repo/_build/lib -lgismo -Wl,-rpath,/repo/_build/lib || exit 2
timeout 200 "$out/demo"
