#!/bin/bash
# development helper: run checks verbosely, show only slow or odd jobs
for p in "$@"; do timeout 880 python3-vt -m engine.run $p -v 2>&1 | awk '/s paths=/{split($0,a,"s paths");n=split(a[1],b," "); if(b[n]+0>8 || /cuts|INCOMP|VIOL/) print; next} {print}' ; done
