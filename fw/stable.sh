#!/bin/bash
# helper: build and run the repository's stable tests, print those that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in b if x not in t['passed']]
print('stable tests not passing:',bad); raise SystemExit(1 if bad else 0)
P
