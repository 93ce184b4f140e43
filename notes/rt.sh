#!/bin/bash
# dev aid: build and test /repo, print stable tests that no longer pass
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tail -5 /tmp/b.log; bash /opt/vp/test.sh /tmp/OUT.json >/dev/null 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/OUT.json'));print('missing', set(b['stable'])-set(o['passed']))"
git status --short | head -3
