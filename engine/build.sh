#!/bin/bash
# builds the symbolic executor (no network, no /repo access)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX="g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -I$Z/include"
pids=()
for f in expr solver exec_core exec models main; do
	if [ ! -e "$out/$f.o" ] || [ "$here/$f.cpp" -nt "$out/$f.o" ] || [ "$here/exec.h" -nt "$out/$f.o" ] || [ "$here/expr.h" -nt "$out/$f.o" ] || [ "$here/solver.h" -nt "$out/$f.o" ]; then
		$CXX -c "$here/$f.cpp" -o "$out/$f.o" &
		pids+=($!)
	fi
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$out"/{expr,solver,exec_core,exec,models,main}.o -o "$out/muusym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lpthread
mv "$out/muusym.tmp" "$out/muusym"
