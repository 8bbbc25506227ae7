#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
exec python3 vp/run.py "$1" --tier "${2:-quick}"
