#!/bin/bash
# dbg.sh TU.cpp ENTRY [sx args]: compile one harness and run one entry
V=/verif; n=$(basename $1 .cpp); d=/verif/build/dbg-$n; mkdir -p $d; L=/usr/lib/llvm-18/bin
R=${SX_REPO:-/repo}
if [ -z "$NOC" ]; then $L/clang++ -std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -g1 -DBOOST_ENABLE_ASSERT_HANDLER -w -I$V/engine -I$V/harness -I$V/shim -I$R/include $DEFS -emit-llvm -c $V/harness/$1 -o $d/h.bc && $L/llvm-link $d/h.bc $V/build/rt.bc -o $d/full.bc || exit 1; fi
e=$2; shift 2; rm -rf $d/$e; mkdir -p $d/$e; $V/build/sx $d/full.bc --entry $e --out $d/$e "$@"; for f in $d/$e/viol_*.case; do [ -f $f ] && head -${HL:-40} $f && break; done
