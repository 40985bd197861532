#!/bin/bash
# usage: build_mc.sh OUTDIR NAME HARNESS.cc "extra repo .cc files" "extra flags"
# Instruments the harness and repo sources, links them with the mc runtime.
set -e
HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}
OUT=$1; NAME=$2; H=$3; SRCS=$4; FL=$5
mkdir -p "$OUT"
CXX=${CXX:-g++}
inst() { # src obj
  $CXX -std=c++17 -O1 -DNDEBUG -fno-pie -fsanitize=thread -U__SANITIZE_THREAD__ -Wno-tsan -mno-red-zone -fno-omit-frame-pointer -ffunction-sections -w \
    -I"$REPO" -I"$HERE" $FL -S "$1" -o "$2.s0"
  sed -E -f "$HERE/post.sed" "$2.s0" > "$2.s"
  $CXX -c "$2.s" -o "$2"
}
objs=""
pids=""
inst "$H" "$OUT/$NAME.h.o" & pids="$pids $!"
objs="$OUT/$NAME.h.o"
for s in $SRCS; do
  o="$OUT/$NAME.$(basename "$s" .cc).o"
  inst "$REPO/$s" "$o" & pids="$pids $!"
  objs="$objs $o"
done
MT=$(echo "$FL" | grep -o 'MC_MAXT=[0-9]*' || echo MC_MAXT=8)
$CXX -std=c++17 -O2 -g -fno-pie -w -D$MT -c "$HERE/mc_rt.cc" -o "$OUT/$NAME.rt.o" & pids="$pids $!"
$CXX -c "$HERE/stubs.S" -o "$OUT/$NAME.st.o" & pids="$pids $!"
for p in $pids; do wait $p; done
$CXX -no-pie $objs "$OUT/$NAME.rt.o" "$OUT/$NAME.st.o" -o "$OUT/$NAME" -lpthread -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all
