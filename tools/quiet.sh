#!/bin/bash
# quiet.sh [name]: behaviour-preserving edits (refactors/<name>.diff, first line "# checks: C01 ..") on a scratch copy; the checks must pass.
cd "$(dirname "$0")/.."
for f in $( [ $# -gt 0 ] && for n in "$@"; do echo refactors/$n.diff; done || echo refactors/*.diff ); do
  d=$(mktemp -d /tmp/quiet_XXXXXX); git -C /repo archive HEAD | tar -x -C "$d"
  (cd "$d" && git init -q . && git apply "$OLDPWD/$f") || echo "$f does not apply"
  for c in $(sed -n '1s/# checks: //p' $f); do
    VERIF_REPO=$d timeout 900 bin/check $c ${TIER:-quick} > /tmp/quiet_log_$$ 2>&1; rc=$?
    echo "$(basename $f .diff) $c rc=$rc $(grep -ciE 'degrade|does not build' /tmp/quiet_log_$$) degraded"; [ $rc = 0 ] || { cp /tmp/quiet_log_$$ /tmp/quiet_fail_$(basename $f .diff)_$c; grep -m2 VIOL /tmp/quiet_log_$$ | cut -c1-300; }
  done
  rm -rf "$d" /tmp/quiet_log_$$
done
