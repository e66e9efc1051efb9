#!/bin/bash
# builds sa/bin/irx (the IR exporter)
cd "$(dirname "$0")" || exit 1
LC=/usr/lib/llvm-18/bin/llvm-config
[ -x $LC ] || LC=/usr/bin/llvm-config-18
mkdir -p bin
/usr/bin/clang++-18 -O1 -std=c++17 $($LC --cxxflags | sed 's/-std=[^ ]*//') irx.cpp -o bin/irx.tmp.$$ $($LC --ldflags --libs) -Wl,-rpath,/usr/lib/llvm-18/lib && mv bin/irx.tmp.$$ bin/irx
