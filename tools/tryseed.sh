#!/bin/sh
# tryseed.sh ID [TIER]: runs the property's check against a scratch copy of /repo with the planted change.
V=/verif/seeded/$1; W=/tmp/trywt-$1
rm -rf "$W"; mkdir "$W"; git -C /repo archive HEAD | tar x -C "$W"
(cd $W && patch -s -p1 < $V/patch.diff) || { echo "patch does not apply"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
cp /verif/evidence/$p.json /tmp/ev-$1.json 2>/dev/null
VERIF_REPO=$W /verif/check ${3:-$p} ${2:-quick} | grep -v "^ *KNOWN" | tail -${LINES_:-4} ; 
cp /tmp/ev-$1.json /verif/evidence/$p.json 2>/dev/null
rm -rf "$W" /tmp/ev-$1.json
