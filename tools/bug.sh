#!/bin/bash
# tools/bug.sh ID [notest|checkonly]: in a private mount namespace with a copy of /repo bound over /repo: applies seeded/ID, builds,
# runs the stable tests and the demo, runs the property's check.
if [ -z "$BUGNS" ]; then
  W=/tmp/bw/$1; mkdir -p $W/ev; cp -a /repo $W/repo
  BUGNS=1 W=$W unshare -Urm bash -c 'mount --bind $W/repo /repo && mount --bind $W/ev /verif/evidence && exec bash "$0" "$@"' "$0" "$@"
  rm -rf "/tmp/bw/$1"; exit
fi
id=$1; D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1; export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0=/repo; git checkout -q -- .
demo() { rm -rf $W/demo_copy && cp -r $D $W/demo_copy && rm -f $W/demo_copy/*.diff $W/demo_copy/meta.json && (cd /repo && timeout 300 bash $W/demo_copy/demo.sh >$W/demo.out 2>&1; echo $?); rm -rf $W/demo_copy; }
[ "$2" = checkonly ] || { bash /opt/vp/build.sh >/dev/null 2>&1; echo "demo clean: $(demo)"; }
git apply $D/patch.diff || exit 1
if [ "$2" != checkonly ]; then
  bash /opt/vp/build.sh >$W/build.out 2>&1 || { echo "BUILD FAILED"; tail -5 $W/build.out; exit 1; }
  echo "demo patched: $(demo)"; head -3 $W/demo.out
  [ "$2" = notest ] || { bash /opt/vp/test.sh $W/bug.json >/dev/null 2>&1; python3 - $W/bug.json <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(__import__('sys').argv[1]))['passed']; print("tests failing:", sorted(set(b)-set(o))[:6])
P
  }
fi
cd /verif; t=$SECONDS; python3 check.py $P 2>&1 | cut -c1-250 | grep -a "VIOLATION\|quick:\|KNOWN" | head -4; echo "check $P took $((SECONDS-t)) s"
