#!/bin/bash
# try.sh [-p PROP] [-d DIFFDIR] ID...: runs the check of their property (or PROP) against seeded changes, one at a
# time, each in a copy of /repo and /verif (or $VSRC) mounted over them in a namespace of its own.
prop= dir=/verif/seeded
while :; do case $1 in
-p) prop=$2; shift 2;;
-d) dir=$2; shift 2;;
*) break;; esac; done
for id in "$@"; do
  for p in ${prop:-$(python3 -c "import json;print(json.load(open('$dir/$id/meta.json'))['property'])")}; do
  T=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo "$T/repo"; mkdir "$T/verif"; (cd "${VSRC:-/verif}" && tar cf - --exclude=.git --exclude=seeded --exclude=replays .) | tar xf - -C "$T/verif"
  git -C "$T/repo" apply "$dir/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$T"; continue; }
  s=$(date +%s)
  out=$(unshare -Urm --propagation private bash -c "mount --bind $T/repo /repo && mount --bind $T/verif /verif && cd /verif && VERIF_SEED=${VERIF_SEED:-1} ./check.sh $p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -E 'VIOLATION' | cut -c1-120) $(echo "$out" | grep -m1 -iE '^violation|: [a-z]+\.[a-z-]+:' | cut -c1-200)"
  [ $rc -eq 1 ] || echo "$out" | tail -3
  rm -rf "$T"
  done
done
