#!/bin/bash
# seed.sh ID: turn the uncommitted change in /repo into seeded/ID/patch.diff, undo it, and try the demonstration both ways
set -e
D=/verif/seeded/$1
mkdir -p "$D"
if ! git -C /repo diff --quiet; then git -C /repo diff > "$D/patch.diff"; git -C /repo checkout -- .; fi
cp /verif/tools/seedlib/world.py /verif/tools/seedlib/demo.sh "$D/"
T=/dev/shm/seedtry; rm -rf /dev/shm/seedtry; cp -r /repo /dev/shm/seedtry
build() { sed "s#cd /repo#cd $T#" /opt/vp/build.sh > /dev/shm/seedtry-build.sh; bash /dev/shm/seedtry-build.sh > /dev/shm/seedtry.log 2>&1 || { tail -5 /dev/shm/seedtry.log; echo BUILD-FAILED; exit 1; }; }
build; cd $T; rc=0; time bash "$D/demo.sh" || rc=$?; echo "unchanged: exit $rc"
git -C $T apply "$D/patch.diff"; build
for k in 1 2 3; do rc=0; bash "$D/demo.sh" || rc=$?; echo "patched: exit $rc"; done
(cd $T; ls bin/*test* >/dev/null 2>&1 || true)
rm -rf /dev/shm/seedtry /dev/shm/seedtry-build.sh /dev/shm/seedtry.log
