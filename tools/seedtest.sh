#!/bin/bash
# Developer tool: confirm planted bugs in scratch copies (bind-mounted over /repo in a private mount namespace).
# usage: seedtest.sh [-n] id...     (-n: skip the repository's tests)
V=$(cd "$(dirname "$0")/.." && pwd)
NOTEST=0; [ "$1" = -n ] && { NOTEST=1; shift; }
for id in "$@"; do
  S=$V/seeded/$id; W=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo $W/repo; mkdir $W/verif; (cd $V && cp -a checks engine known-findings.json .cache MANIFEST.json properties.jsonl $W/verif/) ; cp -a $S $W/demo
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  unshare -m bash -c "
    mount --bind $W/repo /repo; cd /repo; git checkout -q -- .
    bash /opt/vp/build.sh > $W/build0.log 2>&1
    timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo demo-unchanged=\$?
    git apply $S/patch.diff || echo APPLY-FAILED
    bash /opt/vp/build.sh > $W/build.log 2>&1; echo build=\$?
    timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo demo-patched=\$?
    cmd=\$(python3 -c \"import json;print([c['quick_cmd'] for c in json.load(open('$W/verif/MANIFEST.json'))['checks'] if c['property']=='$prop'][0])\")
    cd $W/verif; \$cmd > $W/check.log 2>&1; echo check=\$?; grep -v KNOWN-FINDING $W/check.log | head -${LINES_:-3}
    cd /repo
    if [ $NOTEST = 0 ]; then bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1; python3 -c \"
import json;d=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests passed',len(d['passed']),'failed',d['failed'][:6])\"; fi
  " 2>&1 | sed "s/^/[$id $prop] /"
  tail -2 $W/demo1.log | sed "s/^/[$id demo] /"
  rm -rf "$W"
done
