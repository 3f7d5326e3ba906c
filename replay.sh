#!/bin/bash
# replay.sh FILE: runs one recorded case again (exit 1: the violation shows again)
set -eu
here=$(cd "$(dirname "$0")" && pwd)
f=$(readlink -f "$1")
d=$(awk '$1=="driver"{print $2}' "$f"); p=$(awk '$1=="prop"{print $2}' "$f"); id=$(awk '$1=="property"{print $2}' "$f")
e=$(awk '$1=="env"{$1="";print}' "$f")
python3 "$here/buildgen.py" prop "$id" >/dev/null
export BUILD="$here/.build" VERIF="$here" LC_ALL=C LANG=C TZ=UTC MC_VERBOSE=1
mkdir -p "$here/.scratch/r$$"; rc=0
env $e "$BUILD/$d" --prop "$p" --replay "$f" --scratch "$here/.scratch/r$$" || rc=$?
rm -rf "$here/.scratch/r$$"
exit $rc
