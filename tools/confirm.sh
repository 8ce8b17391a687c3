#!/bin/bash
# confirm.sh ID...: in a scratch copy of /repo: demo passes without the patch; with it: builds, stable tests pass, demo fails
. /opt/vp/env.sh 2>/dev/null
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/plant/$id
  rm -rf "/tmp/plant/$id"; mkdir -p /tmp/plant; cp -a /repo "$w"; cp -a "$s" "/tmp/plant/$id.d"
  cd "$w"; git checkout -q -- .
  bash "/tmp/plant/$id.d/demo.sh" >/tmp/plant/$id.log 2>&1; a=$?
  git apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  bash "/tmp/plant/$id.d/demo.sh" >>/tmp/plant/$id.log 2>&1; b=$?
  unset CARGO_TARGET_DIR
  CARGO_TARGET_DIR=$w/target cargo test --workspace --features extern --no-fail-fast --offline -- --test-threads 8 >/tmp/plant/$id.tests 2>&1; t=$?
  n=$(grep -c '^test .* ok$' /tmp/plant/$id.tests)
  echo "$id: unchanged $a, patched $b, tests exit $t ($n ok)"
  [ $a = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ $t = 0 ] || { echo "  NOT CONFIRMED"; tail -5 /tmp/plant/$id.log; grep -E "FAILED|^error|panicked" /tmp/plant/$id.tests | head; }
  cd /; rm -rf "/tmp/plant/$id" "/tmp/plant/$id.d"
done
