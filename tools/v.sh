#!/bin/bash
# developer helper: extract a unit and run Verus on it:  tools/v.sh c01 [verus args]
cd /verif && mkdir -p .build && python3 - "$1" <<'P' || exit 2
import sys
sys.path.insert(0, "tools")
import vx
u = vx.Unit("units/%s.vu" % sys.argv[1])
u.process()
open(".build/%s.rs" % sys.argv[1], "w").write(u.text())
P
x=$1; shift
cd .build && verus --triggers-mode silent --rlimit ${RL:-30} "$@" $x.rs 2>&1
