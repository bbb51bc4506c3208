#!/bin/bash
# Run the repository's tests and compare with the stable list.  usage: stable.sh
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/stable_out.json'))['passed'])
m=sorted(b-o); print('stable',len(b),'missing',len(m)); print('\n'.join(m[:20]))
raise SystemExit(bool(m))
P
