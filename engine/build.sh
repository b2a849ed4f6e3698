#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/vsym); incremental by content hash
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
h=$(cat "$here"/*.cpp "$here"/*.h "$here"/build.sh | sha256sum | cut -c1-32)
if [ -x "$out/vsym" ] && [ "$(cat "$out/vsym.hash" 2>/dev/null)" = "$h" ]; then exit 0; fi
exec 9>"$out/.lock"; flock 9
if [ -x "$out/vsym" ] && [ "$(cat "$out/vsym.hash" 2>/dev/null)" = "$h" ]; then exit 0; fi
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z3/lib/libz3.so ]; then ZI="-I$Z3/include"; ZL="-L$Z3/lib -Wl,-rpath,$Z3/lib -lz3"; else ZI=; ZL=-lz3; fi
LI="-I$(llvm-config-18 --includedir)"; LL="-L$(llvm-config-18 --libdir) -lLLVM-18"
F="-std=c++20 -O2 -w"
pids=()
g++ $F -c "$here/expr.cpp" -o "$out/expr.o" & pids+=($!)
g++ $F $ZI -c "$here/solver.cpp" -o "$out/solver.o" & pids+=($!)
g++ $F $LI -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$here/vsym.cpp" -o "$out/vsym.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ "$out"/expr.o "$out"/solver.o "$out"/vsym.o -o "$out/vsym.tmp" $LL $ZL
mv "$out/vsym.tmp" "$out/vsym"; echo "$h" > "$out/vsym.hash"; rm -f "$out"/*.o
