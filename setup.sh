#!/bin/bash
# Builds the IR dumper and primes the cache of IR facts. Offline; writes only under /verif/.work.
set -eu
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
mkdir -p .work/bin
if [ ! -x .work/bin/irdump ] || [ tool/irdump.cpp -nt .work/bin/irdump ]; then
  /usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include tool/irdump.cpp \
    -o .work/bin/irdump.tmp /usr/lib/llvm-18/lib/libLLVM-18.so
  mv .work/bin/irdump.tmp .work/bin/irdump
fi
python3 -B -m gpl.prep
