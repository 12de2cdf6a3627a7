#!/bin/bash
# Builds the bitcode dumper from the committed source.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
clang++-18 -O1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') irdump.cpp -o ../build/irdump.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
mv ../build/irdump.tmp ../build/irdump
