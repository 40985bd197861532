#!/bin/bash
# Compiler driver for the WebAssembly targets: compiles C++ sources and the
# runtime in this directory to WebAssembly and writes a script which runs the
# result in node. Arguments as for g++ (the output must be given by -o).
here=$(cd "$(dirname "$0")" && pwd)
args=() out=a.out
while [ $# -gt 0 ]; do
  case $1 in
    -o) out=$2; shift ;;
    -lpthread|-l*) ;;
    *) args+=("$1") ;;
  esac
  shift
done
gi=$(ls -d /usr/include/c++/* | sort -V | tail -1); v=${gi##*/}
clang++ --target=wasm32-unknown-unknown -msimd128 -mnontrapping-fptoint -fno-exceptions -fno-rtti -D_GLIBCXX_EXTERN_TEMPLATE=0 "-D__regparm__(x)=" \
  -I"$here/inc" -isystem "$gi" -isystem /usr/include/x86_64-linux-gnu/c++/$v -isystem /usr/include/x86_64-linux-gnu -isystem /usr/include \
  "${args[@]}" "$here/rt.cc" -nostdlib -Wl,--no-entry -Wl,--export=vf_start -Wl,--export=vf_trap -Wl,--export=__wasm_call_ctors -Wl,--export=vf_buf -Wl,-z,stack-size=1048576 -Wl,--allow-undefined-file="$here/imports.txt" -o "$out.wasm" || exit 1
printf '#!/bin/sh\nexec node --stack-size=4000 %s/run.js %s.wasm "$@"\n' "$here" "$(realpath "$out.wasm" | sed 's/\.wasm$//')" > "$out" && chmod +x "$out"
