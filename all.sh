#!/bin/bash
# run every law file separately (development aid)
cd "$(dirname "$0")"
for f in laws/C*.cpp; do n=$(basename $f .cpp); echo "== $n"; python3-vt engine/lawrun.py $n "$@" | grep -v "s $" | grep -v "unknown calls" | cut -c1-260; done
