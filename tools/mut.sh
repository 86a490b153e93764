#!/bin/bash
# usage: mut.sh 'PYTHON-REPLACE-SCRIPT or patch file' PID...   : run checks against a scratch copy with a change
# the first argument is a patch file, or "FILE<<<OLD>>>NEW"
d=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$d"' EXIT
rsync -a --exclude=.git /repo/ "$d/repo/"
if [ -f "$1" ]; then (cd "$d/repo" && patch -p1 -s < "$1") || exit 9
else python3 - "$d/repo" "$1" <<'P' || exit 9
import sys
root,spec=sys.argv[1:]
for part in spec.split("@@@"):
    fn,rest=part.split("<<<"); old,new=rest.split(">>>")
    old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
    p=root+"/"+fn; s=open(p).read()
    if s.count(old)!=1: sys.exit("%d matches in %s: %r"%(s.count(old),fn,old))
    open(p,"w").write(s.replace(old,new))
P
fi
shift
for pid in "$@"; do VERIF_ROOT_KEEP=1 VERIF_REPO="$d/repo" VMON_EVID="$d/evid" bash /verif/run.sh $pid 2>&1 | grep -v "^ *File\|^    " | cut -c1-${W:-300} | tail -n ${N:-14}; done
