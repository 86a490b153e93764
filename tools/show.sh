#!/bin/bash
# short listing of what a check reports:  tools/show.sh PID args...
VMON_MAXREPORT=60 bash "$(dirname "$0")/../run.sh" "$@" 2>&1 | python3 -c '
import sys,re
for l in sys.stdin:
    l=l.rstrip()
    if l.startswith("VIOLATION"): continue
    if re.match(r"\s+\^|\s+~",l): continue
    print(l[:420])
'
