#!/bin/bash
# Builds the IR tools used by the checks.
set -e
cd "$(dirname "$0")"
mkdir -p bin
for t in irdump effects; do
  if [ ! -x bin/$t ] || [ tools/irdump/$t.cpp -nt bin/$t ]; then
    g++ -O1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') \
      tools/irdump/$t.cpp -o bin/$t.tmp.$$ $(llvm-config-18 --ldflags) -lLLVM-18
    mv bin/$t.tmp.$$ bin/$t
  fi
done
