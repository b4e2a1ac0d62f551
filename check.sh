#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
if [ ! -x bin/verif ] || [ -n "$(find engine -name '*.go' -newer bin/verif 2>/dev/null | head -1)" ]; then
  ./build.sh >&2 || exit 2
fi
exec bin/verif check -prop "$1" -tier "$2"
