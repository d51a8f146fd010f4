#!/bin/bash
# run the repository's tests and list baseline tests that no longer pass
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open('/tmp/out.json'))['passed'])
print(len(a), 'stable;', len(a-b), 'now failing'); print('\n'.join(sorted(a-b)[:20]))
P
