#!/bin/bash
# developer helper: build the harness with modules "$@" and run the last one
. /opt/vp/env.sh
cd /verif && python3 tools/mirror.py .build/mirror terms models "$@" || exit 2
(cd .build/mirror && cargo build --locked --offline --bin vharness_mirror 2>&1 | grep -E "^(error|warning: unused)" -A7 | head -${LINES_MAX:-60})
m="${@: -1}"
timeout 900 /repo/target/debug/vharness_mirror $m ${SEED:-1} ${TIER:-quick} ${SECS:-20} /tmp/h.json && python3 -c "
import json
d=json.load(open('/tmp/h.json'))
for k,v in d['stats'].items(): print(k,v['evaluations'],v['nontrivial'],v['sample'][:100])
for f in d['fails']: print('FAIL',f['contract'],f['input'][:600],f['message'][:600])
print(d['wall_s'])"
