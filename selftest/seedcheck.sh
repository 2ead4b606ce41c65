#!/bin/bash
# seedcheck.sh ID [notest] : validate /verif/seeded/ID in a scratch copy of /repo bind-mounted over /repo in a private namespace
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/seed_XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir $W/demo; cp -a $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cp -a /repo $W/repo
inns() { unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && $1"; }
export PYTHONDONTWRITEBYTECODE=1
inns "bash $W/demo/demo.sh" > $W/clean.log 2>&1; c=$?
git -C $W/repo apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
inns "bash /opt/vp/build.sh" > $W/build.log 2>&1; b=$?
inns "bash $W/demo/demo.sh" > $W/bug.log 2>&1; d=$?
echo "$ID: demo clean=$c build=$b demo bug=$d"; tail -3 $W/clean.log; tail -4 $W/bug.log
if [ "$2" != notest ]; then
  inns "bash /opt/vp/test.sh $W/out.json" > $W/test.log 2>&1
  python3 - $W/out.json $ID <<'PY'
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
miss = sorted(set(b['stable']) - set(o['passed']))
print(sys.argv[2], 'stable tests failing:', len(miss), miss[:6])
PY
fi
