#!/bin/bash
# ck.sh PROP [budget] [lines]: run a check and show the replay on violation
cd "$(dirname "$0")/.."
VERIF_BUDGET=${2:-12} python3 check.py $1 > /tmp/ck.$1 2>&1; rc=$?
tail -3 /tmp/ck.$1 | cut -c1-1200
if [ $rc = 1 ]; then python3 tools/show.py $(sed -n 's/.*replay=//p' /tmp/ck.$1 | tail -1) ${3:-12}; fi
