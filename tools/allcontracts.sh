#!/bin/bash
# runs the contracts of the given properties (default: all with a contract file), one after another; prints what is not discharged
cd "$(dirname "$0")/.."
P=${@:-$(ls contracts/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/')}
for p in $P; do
  PYVC_SHOW=1 PYVC_JOBS=${PYVC_JOBS:-6} python3-vt -m contracts.runner $p ${TIER:-quick} /tmp/all_$p.json 2>&1 | cut -c1-220 | sed "s/^/$p /"
done
