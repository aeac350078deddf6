#!/bin/bash
# try.sh SEED CHECK: runs a check on a scratch copy with a planted bug
d=/tmp/try_$1; rm -rf "$d"; mkdir -p "$d"; cp -r /repo/building3d "$d/"; (cd "$d" && git apply --unsafe-paths -p1 --directory="$d" /verif/seeded/$1/patch.diff 2>/dev/null || patch -s -p1 -d "$d" < /verif/seeded/$1/patch.diff)
VERIF_REPO="$d" python3 -m sa.run $2; echo "exit $?"; rm -rf "$d"
