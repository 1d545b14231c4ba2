#!/bin/bash
# development: for each named seed, in a private copy of /repo (mount namespace): apply, build, test, demo, check
if [ -z "$IN_NS" ]; then
  w=$(mktemp -d /tmp/tryseed.XXXXXX); cp -a ${REPO_SRC:-/repo} $w/repo; cp -a /opt/vp $w/vp
  IN_NS=1 unshare -Urm sh -c "mount --bind $w/repo /repo && mount --bind $w/vp /opt/vp && exec bash $(readlink -f "$0") $*"
  case $w in /tmp/tryseed.*) rm -rf "$w";; esac
  exit
fi
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  t=$(mktemp -d)
  (cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$s: build fails"; bash /opt/vp/test.sh $t/o >/dev/null 2>&1; tail -c 300 $t/o | tr '\n' ' ' | grep -o '"failed": \[[^]]*\]'; bash /verif/seeded/$s/demo.sh >/dev/null 2>&1; echo "$s demo exit $? (want nonzero)")
  python3-vt lvc/check.py $p > $t/log; echo "$s check exit $?: $(grep VIOLATION $t/log)"; grep -h "MISMATCH\|FAILED C\|NOT DEC\|obligation:\|ERROR: Add" $t/log | head -${LINES_:-4}
  git -C /repo checkout -- .; (cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1; bash /verif/seeded/$s/demo.sh >/dev/null 2>&1) || echo "$s: DEMO FAILS ON THE UNCHANGED TREE"
done
