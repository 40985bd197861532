#!/bin/bash
# Compiler wrapper: like g++ for a link of several .cc files, but every CPUID
# and XGETBV instruction of the *repository's* files (and of the harness) is
# replaced by a call to a stub of the harness (see stubs_lite.S).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
args=(); srcs=(); out=a.out
while [ $# -gt 0 ]; do
  case "$1" in
    *.cc) srcs+=("$1");;
    -o) shift; out=$1;;
    *) args+=("$1");;
  esac
  shift
done
objs=(); pids=()
i=0
for s in "${srcs[@]}"; do
  o="$out.$i.o"; i=$((i+1)); objs+=("$o")
  fl=$(sed -n '1s,^// stubcxx-flags: *,,p' "$s")
  ( ${STUB_CXX:-g++} "${args[@]}" $fl -mno-red-zone -S "$s" -o "$o.s0" && sed -E -f "$HERE/../mc/post.sed" "$o.s0" > "$o.s" && ${STUB_CXX:-g++} -c "$o.s" -o "$o" ) &
  pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
${STUB_CXX:-g++} -c "$HERE/stubs_lite.S" -o "$out.st.o"
${STUB_CXX:-g++} "${objs[@]}" "$out.st.o" -o "$out" -lpthread
