#!/bin/bash
# build.sh OUTDIR [SRC]: compiles the simulator and the node images (the library under test) into OUTDIR.
set -e
out=$1; src=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd)/sim
mkdir -p "$out"
CXX=${CXX:-g++}
sim() {
  mkdir -p "$out/sim"
  for f in core core_dev plan exec main props_a props_b props_c props_d; do
    [ "$out/sim/$f.o" -nt "$here/$f.cpp" -a "$out/sim/$f.o" -nt "$here/sim.h" -a "$out/sim/$f.o" -nt "$here/props.h" -a "$out/sim/$f.o" -nt "$here/node_api.h" ] || echo $f
  done | xargs -P 8 -I{} $CXX -std=gnu++17 -O1 -w -c "$here/{}.cpp" -o "$out/sim/{}.o" 
  $CXX -rdynamic -o "$out/apsim.tmp" "$out"/sim/*.o -ldl && mv "$out/apsim.tmp" "$out/apsim"
}
image() {  # name flags...
  local n=$1 o="$out/obj-$1"; shift
  mkdir -p "$o"
  { find "$src/src" -name '*.cpp' | grep -v -i RegressionTree; echo "$here/glue.cpp"; } | sort | xargs -P 8 -I{} sh -c '
    f="$1"; shift; o="$1"; shift; b=$(echo "$f" | tr / _); exec "$@" -c "$f" -o "$o/$b.o"' _ {} "$o" \
    $CXX -std=gnu++14 -O1 -fPIC -DNDEBUG -fno-gnu-unique -ftrivial-auto-var-init=pattern -w -I"$here" -I"$here/stubs" -I"$src/include" -I"$src/src" -I"$src/src/connectors/kokkos/include" -DENABLE_CUDA -DENABLE_HIP "$@"
  gcc -fPIC -O1 -c "$here/finalize.c" -o "$o/zz_finalize.o"
  $CXX -shared -Wl,-Bsymbolic -o "$out/node-$n.so.tmp" "$o"/*.o && mv "$out/node-$n.so.tmp" "$out/node-$n.so"
  rm -rf "$o"
}
shift; shift || true
what=${*:-sim def mpi jit kk}
for w in $what; do
  case $w in
    sim) sim ;;
    def) image def ;;
    mpi) image mpi -DENABLE_MPI ;;
    jit) image jit -DENABLE_JIT_DTREE
      mkdir -p "$out/pch"; v=$(echo '#include <vector>' | c++ -x c++ -E - | grep -m1 '/vector"' | sed 's/.*"\(.*\)".*/\1/')
      [ -e "$out/pch/vector.gch" ] || c++ -w -x c++-header -O0 -fPIC -o "$out/pch/vector.gch" "$v" || true ;;
    kk) image kk ;;
  esac
done
