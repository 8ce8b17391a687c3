#!/bin/bash
# catch.sh ID [CHECK...]: apply a planted bug to /repo, run its check (or the given ones), undo
id=$1; shift
cd /verif
p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
[ $# = 0 ] && set -- $p
[ "$1" = all ] && set -- $(./target/release/mc list)
for c in "$@"; do
  out=$(./check $c quick 2>/tmp/catch.err); r=$?
  echo "$id ($p): $c exit $r $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-220)"
done
