#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p $out
[ -f $out/shadow/ext/atomicity.h ] || $here/mkshadow.sh $out/shadow
if [ ! -f $out/libmcrt.so ] || [ $here/mcrt.cpp -nt $out/libmcrt.so ] || [ $here/mc.h -nt $out/libmcrt.so ]; then
  g++ -std=c++20 -O2 -g1 -fPIC -shared -fvisibility=hidden -fno-omit-frame-pointer -fno-builtin -fno-threadsafe-statics -w $here/mcrt.cpp -o $out/libmcrt.so.tmp$$ -ldl && mv $out/libmcrt.so.tmp$$ $out/libmcrt.so
fi
