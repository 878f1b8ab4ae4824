#!/bin/bash
# ./check.sh PROPERTY quick|thorough
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x build/gosym ] || [ -n "$(find engine -name '*.go' -newer build/gosym | head -1)" ]; then
  ./setup.sh || exit 3
fi
export VERIF_DIR="$PWD" VERIF_REPO="${VERIF_REPO:-/repo}"
exec ./build/gosym "$@"
