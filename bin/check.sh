#!/bin/bash
# Usage: check.sh <property>   (VERIF_SEED, VERIF_TIER)
set -u
cd "$(dirname "$0")/.." || exit 3
export VERIF_DIR=$PWD
bash bin/build.sh dev || { echo "build failed"; exit 3; }
if [ "$1" = C14 ]; then
  bash bin/build.sh asan & A=$!
  bash bin/build.sh tsan & B=$!
  wait $A || { echo "build under AddressSanitizer failed"; exit 3; }
  wait $B || { echo "build under ThreadSanitizer failed"; exit 3; }
  if [ "${VERIF_TIER:-quick}" = thorough ]; then
    bash bin/build.sh miri || { echo "build for Miri failed"; exit 3; }
  fi
fi
exec harness/target/debug/lima-monitor check "$1"
