#!/bin/bash
# refresh /tmp/vt from /verif's working tree, /tmp/vtrepo from HEAD of /repo (+ optional patch $1)
mkdir -p /tmp/vt /tmp/vtrepo
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude mc/miri/target /verif/ /tmp/vt/ 2>/dev/null || (cd /verif && tar c --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar x -C /tmp/vt)
cd /tmp/vtrepo && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} + ; git -C /repo archive HEAD | tar x -C /tmp/vtrepo
[ -n "$1" ] && (cd /tmp/vtrepo && patch -p1 -s < "$1")
sed -i 's|"/repo"|"/tmp/vtrepo"|' /tmp/vt/mc/Cargo.toml /tmp/vt/mc/src/checks/ext.rs /tmp/vt/mc/miri/Cargo.toml
sed -i 's|R=/repo|R=/tmp/vtrepo|' /tmp/vt/check
sed -i 's|/repo/|/tmp/vtrepo/|' /tmp/vt/setup.sh
mkdir -p /tmp/vt/evidence
