#!/bin/bash
# catch.sh [-a] ID...: applies planted bugs to /repo one at a time and runs the check of their property (-a: every check), undoing each straight afterwards
here=$(cd "$(dirname "$0")/.." && pwd)
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# = 0 ] && set -- $(cd "$here/seeded" && ls)
for id; do
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  props=$prop; [ -n "$all" ] && props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12"
  line="$id ($prop):"
  for p in $props; do
    t=$SECONDS
    (cd "$here" && timeout 900 ./check.sh $p >/tmp/catch.$id.$p.log 2>&1); rc=$?
    n=$(grep -c "^VIOLATION property=$p" /tmp/catch.$id.$p.log)
    case $rc:$n in 0:0) r=quiet;; 1:[1-9]*) r=CAUGHT;; *) r="rc=$rc,n=$n";; esac
    line="$line $p=$r($((SECONDS-t))s)"
  done
  git -C /repo checkout -q -- .
  echo "$line"
done
