#!/bin/bash
# plant.sh ID [COPY]: takes the change made in a scratch copy of /repo (default /tmp/w/repo), confirms that it builds,
# passes the repository's tests and is told apart by seeded/ID/demo.sh, and keeps it as seeded/ID/patch.diff.
set -u
id=$1; copy=${2:-/tmp/w/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$here/seeded/$id
[ -f "$dir/demo.sh" ] || cp "$here/tools/demo.sh" "$dir/demo.sh"
( . /opt/vp/env.sh >/dev/null; cd "$copy" || exit 1
  git diff -- . >/tmp/plant.diff
  [ -s /tmp/plant.diff ] || { echo "no change"; exit 1; }
  cargo test --workspace --offline >/tmp/plant.log 2>&1 || { echo "tests fail"; grep -E "^error|FAILED|panicked|failed" -A5 /tmp/plant.log | head -20; exit 1; }
  echo "tests: $(grep '^test result' /tmp/plant.log | awk '{p+=$4; f+=$6} END {print p, "passed", f, "failed"}')" ) || exit 1
( cd "$copy" && bash "$dir/demo.sh" >/tmp/plant.demo1 2>&1; echo "demo patched: $?"; tail -3 /tmp/plant.demo1 )
( cd /repo && bash "$dir/demo.sh" >/tmp/plant.demo0 2>&1; echo "demo unpatched: $?"; tail -2 /tmp/plant.demo0 )
cp /tmp/plant.diff "$dir/patch.diff"
git -C /repo apply --check "$dir/patch.diff" && echo "applies"
git -C "$copy" checkout -- .
