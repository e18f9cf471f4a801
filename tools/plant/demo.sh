#!/bin/bash
# Builds the crate in the current directory (/repo) with demo.rs as one more module, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
exec python3 "$here/run.py" "$PWD" "$here"
