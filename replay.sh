#!/bin/bash
# replay.sh <file>: runs a recorded counterexample again on /repo's current working tree.
set -eu
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bash setup.sh
exec bin/verifengine replay "$1"
