#!/bin/bash
# fix.sh PROP "fix: msg" "what failed" REPLAY NAME
set -e
cd /repo
bash /opt/vp/build.sh >/tmp/fb.log 2>&1 || { tail -20 /tmp/fb.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1
git commit -qam "$2"
h=$(git rev-parse --short=12 HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
[ -n "$4" ] && cp "$4" "/verif/harness/regress/$1-$5.json"
git status --short | head -3
echo $h
