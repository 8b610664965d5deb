#!/bin/bash
# mut.sh <check> <file in repo> <python expression on s>: runs a check on a scratch copy with one edit.
d=$(mktemp -d /tmp/mut_XXXXXX); git -C /repo archive HEAD | tar -x -C "$d"
python3 - "$d/$2" "$3" <<'P'
import sys,re
p,e=sys.argv[1:3]; s=open(p).read(); t=eval(e)
assert t!=s,'no change'; open(p,'w').write(t)
P
[ $? = 0 ] && VERIF_REPO=$d bin/check $1 ${4:-quick} 2>&1 | grep -v '^\[.*model' | cut -c1-${W:-300} | tail -${T:-6}
rm -rf "$d"
