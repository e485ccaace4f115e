#!/bin/bash
# Builds the engine from the committed files into bin/ (ignored by git); no network.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin
cd engine && go build -o ../bin/verifengine .
