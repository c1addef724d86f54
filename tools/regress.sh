#!/bin/bash
# Runs the stable tests of /repo, and its GSF tests in a scratch copy with the missing examples stubbed.
set -u
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/regress.json >/tmp/regress.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/regress.json'))
def names(x):
    for k in ("passed","pass","stable","tests"):
        if k in x: return set(x[k])
    return set()
print("baseline", len(names(b)), "missing:", sorted(names(b)-names(r))[:10])
P
rm -rf /tmp/gt
mkdir /tmp/gt && cp -a /repo /tmp/gt/repo && cd /tmp/gt/repo && touch examples/interleaved_7.gsf examples/interleaved_8.gsf
/opt/venv/bin/python -m pytest -q -x --maxfail=50 tests/test_gsf.py 2>&1 | tail -6
cd /
rm -rf /tmp/gt
