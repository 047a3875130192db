#!/bin/bash
# tools/try.sh SRC PROPERTY [quick|thorough]   development only: runs a check
# against a scratch copy of the repository instead of /repo.
. /verif/tools/env.sh
src=$1; shift
d=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$d"' EXIT
/verif/build/prep "$src" /opt/vp/gopath "$d/ws" || exit 2
GOPATH=$d/ws:/verif/sim go build -ldflags=-checklinkname=0 -o "$d/dst" dst/cmd || exit 2
mkdir -p "$d/root/evidence" "$d/root/replays"
cp /verif/KNOWN_FINDINGS "$d/root/"
for p in $1; do DST_ROOT=$d/root "$d/dst" check "$p" "${2:-quick}"; echo "exit $p $?"; done
