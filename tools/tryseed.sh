#!/bin/bash
# tryseed.sh ID [nobuild] [nocheck]: confirms the planted change /verif/seeded/ID and runs the check of its property against it.
# (works on /repo's tree: applies the patch, undoes it afterwards)
cd /repo || exit 2
S=/verif/seeded/$1
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $S/meta.json)
git diff --quiet || { echo "/repo is not clean"; exit 2; }
L=/tmp/tryseed.$1.log
bash $S/demo.sh > $L 2>&1 || { echo "$1: demo fails on the unchanged tree ($L)"; exit 1; }
git apply $S/patch.diff || { echo "$1: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [[ " $* " != *" nobuild "* ]]; then
  bash /opt/vp/build.sh > $L.build 2>&1; bash /opt/vp/test.sh /tmp/tryseed.$1.json >> $L.build 2>&1
  python3 - /tmp/tryseed.$1.json <<'P' || { echo "$1: tests fail"; exit 1; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(sys.argv[1]))
ok=set(r.get('passed',[]) if isinstance(r.get('passed'),list) else [k for k,v in r.items() if v])
sys.exit(0 if b<=ok else 1)
P
fi
bash $S/demo.sh >> $L 2>&1 && { echo "$1: demo passes with the change"; exit 1; }
rc=$?
if [[ " $* " != *" nocheck "* ]]; then
  cd /verif && VERIF_CACHE=1 timeout 900 python3 run.py $P > /tmp/tryseed.$1.out 2>/tmp/tryseed.$1.err; c=$?
  echo "$1 ($P): demo rc $rc, check rc $c $(grep -c '^VIOLATION property='$P /tmp/tryseed.$1.out)"
else echo "$1: demo rc $rc"; fi
