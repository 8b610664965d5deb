#!/bin/bash
# selftest.sh [id..]: runs the check of each planted change (seeded/ and mutants/) on a scratch copy that has it.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded mutants | grep -v : | sort -u)
for i; do
  p=seeded/$i; [ -d "$p" ] || p=mutants/$i
  prop=$(python3 -c "import json,sys; print(json.load(open('$p/meta.json'))['property'])")
  d=$(mktemp -d /tmp/self_XXXXXX); git -C /repo archive HEAD | tar -x -C "$d"
  if (cd "$d" && git init -q . && git apply "$OLDPWD/$p/patch.diff"); then
    VERIF_REPO=$d bin/check $prop ${TIER:-quick} > "$d.log" 2>&1; rc=$?
    echo "$i $prop rc=$rc $(grep -c '^\[.*degraded' "$d.log") degraded: $(grep -m1 '^  ' "$d.log" | cut -c1-${W:-150})"
  else echo "$i does not apply"; fi
  rm -rf "$d" "$d.log"
done
