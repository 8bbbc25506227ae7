#!/bin/bash
# dbg.sh UNIT:ENTRY - development: show the program and messages of a failing native run
cd /verif && rm -rf /tmp/vp-dev-* && VP_KEEP=1 python3 vp/run.py --unit $1 --native | tail -3
d=$(ls -d /tmp/vp-dev-*/*.${1#*:}); VP_SHOW=1 ASAN_OPTIONS=detect_leaks=0 $d/native replay $d/found.txt 2>&1 | tail -${2:-60}
rm -rf /tmp/vp-dev-*
