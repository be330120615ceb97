#!/bin/bash
# seed.sh ID [-t] : try the planted bug seeded/ID in a scratch copy of /repo (-t: the repository's tests too).
# Shows: build, demo with the bug (must fail), the checks of its property (must report), demo without (must pass).
# CHECKS="P02 P03" overrides the checks that are run.
D=/verif/seeded/$1; S=/tmp/s/repo
P=$(python3 -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/s/vp; 
for f in build.sh test.sh env.inc; do sed "s,R=/repo,R=$S,; s,/opt/vp/env.inc,/tmp/s/vp/env.inc,; s,/opt/vp/build.sh,/tmp/s/vp/build.sh," /opt/vp/$f > /tmp/s/vp/$f; done
exec 9>/tmp/s/lock; flock 9
rsync -a --delete --exclude=/_build /repo/ $S/
bld() { bash /tmp/s/vp/build.sh > /tmp/s/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/s/build.log; return 1; }; }
demo() { rm -rf /tmp/s/demo; mkdir -p /tmp/s/demo; cp $D/* /tmp/s/demo/; rm -f /tmp/s/demo/patch.diff /tmp/s/demo/meta.json; (cd $S && timeout 300 bash /tmp/s/demo/demo.sh > /tmp/s/demo.log 2>&1); echo $?; }
git -C $S apply $D/patch.diff || exit 1
bld || exit 1
d1=$(demo); echo "demo with the bug: $d1 ($(tail -1 /tmp/s/demo.log | cut -c1-150))"
if [ "$2" = -t ]; then bash /tmp/s/vp/test.sh /tmp/s/res.json > /tmp/s/test.log 2>&1; grep -E '^FAIL' /tmp/s/test.log; grep -c '^PASS' /tmp/s/test.log; fi
for p in ${CHECKS:-$P}; do
  VT_REPO=$S timeout 900 /verif/bin/check $p > /tmp/s/check.log 2>&1; echo "check $p: $? $(grep -a -m2 VIOLATION /tmp/s/check.log | cut -c1-150)"
done
git -C $S apply -R $D/patch.diff; bld; d2=$(demo); echo "demo without: $d2 $(test $d2 = 0 || tail -1 /tmp/s/demo.log)"
[ "$d1" != 0 ] && [ "$d2" = 0 ] && echo "SEED $1 valid"
