#!/bin/bash
# Build the symbolic executor: build.sh OUTDIR
set -e
d="$(cd "$(dirname "$0")" && pwd)"; o="$1"; mkdir -p "$o"
for f in expr ir cfg solver exec; do g++ -std=c++17 -O2 -march=x86-64-v2 -Wall -Wno-misleading-indentation -Wno-parentheses -c "$d/$f.cpp" -o "$o/$f.o" & done; wait
g++ -o "$o/lsym" "$o/expr.o" "$o/ir.o" "$o/cfg.o" "$o/solver.o" "$o/exec.o" -lz3
