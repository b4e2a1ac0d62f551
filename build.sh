#!/bin/bash
# Builds the symbolic-execution engine from the committed sources.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
mkdir -p bin
cd engine
go build -o ../bin/verif.$$ . && mv -f ../bin/verif.$$ ../bin/verif
