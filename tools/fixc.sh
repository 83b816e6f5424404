#!/bin/bash
# fixc.sh "message"
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json;d=json.load(open('/tmp/o.json'))
p=d['passed'];f=d['failed']
print(len(p),len(f),f)
import sys
sys.exit(0 if len(p)==151 and not f else 1)
P
git commit -qam "$1" && git log --oneline | head -1
