#!/bin/bash
# trycc.sh file.cc [targets...]: syntax/instantiation check of a SIMD harness (VPART from env)
f=$1; shift
for t in ${@:-AVX3_SPR AVX2 SSE2 EMU128 SCALAR}; do (
  x=""; [ $t = EMU128 ] && x=-DHWY_BROKEN_EMU128=0
  s=$(date +%s)
  g++ -std=c++17 -O0 -w -DNDEBUG -DHWY_COMPILE_ONLY_STATIC -DHWY_BASELINE_TARGETS=HWY_$t $x -DVPART=${VPART:-0} -I${VERIF_REPO:-/repo} -I/verif/harness -c /verif/harness/simd/$f -o /tmp/try_$t.o > /tmp/try_$t.log 2>&1
  echo "$t rc=$? $(( $(date +%s) - s ))s"; grep -E "error" /tmp/try_$t.log | cut -c1-260 | sort -u | head -3 ) & done; wait
