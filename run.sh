#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE] [--scenario NAME] [--cases N]
# Runs one runtime-monitoring check against /repo's current working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT="$here"
REPO=${VERIF_REPO:-/repo}
export VERIF_REPO="$REPO"
SCRATCH=$(mktemp -d /tmp/vmon.XXXXXX) || exit 3
case "$SCRATCH" in /tmp/vmon.??????) ;; *) exit 3;; esac
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/home/mpl" "$SCRATCH/tmp"
cp -f "$REPO/resources/viscidrc" "$SCRATCH/home/.viscidrc" 2>/dev/null
ln -sfn "$REPO/viscid/plot/styles" "$SCRATCH/home/mpl/stylelib"
export VMON_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH/tmp"
export HOME="$SCRATCH/home" MPLCONFIGDIR="$SCRATCH/home/mpl" LANG=C.UTF-8 TZ=UTC
export PATH="$REPO/scripts:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export PYTHONPATH="$here/lib:$here/checks:$REPO" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
unset PYTHONWARNINGS
cd "$SCRATCH" || exit 3
/opt/venv/bin/python -W ignore -m vmon "$@"
exit $?
