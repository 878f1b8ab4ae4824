#!/bin/bash
# builds the engine from the committed files
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p build evidence
cd engine
GOFLAGS=-mod=mod go build -o ../build/gosym .
