#!/bin/sh
# Builds the analysers (abstract interpreters over LLVM IR) into /verif/bin.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
cd "$here/engine"
sum=$(sha256sum lanes.cpp | cut -d' ' -f1)
if [ ! -x "$here/bin/lanes" ] || [ "$(cat "$here/bin/lanes.sum" 2>/dev/null)" != "$sum" ]; then
	tmp="$here/bin/lanes.$$"
	g++ -O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -w -o "$tmp" lanes.cpp -L/usr/lib/llvm-18/lib -lLLVM-18
	mv "$tmp" "$here/bin/lanes"
	echo "$sum" > "$here/bin/lanes.sum"
fi
sum=$(cat ai.cpp num.cpp num.h state.h *.inc | sha256sum | cut -d' ' -f1)
if [ -x "$here/bin/ai" ] && [ "$(cat "$here/bin/ai.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
tmp="$here/bin/ai.$$"
g++ -O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -w -o "$tmp" ai.cpp num.cpp -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp
mv "$tmp" "$here/bin/ai"
echo "$sum" > "$here/bin/ai.sum"
