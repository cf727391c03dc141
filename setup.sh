#!/bin/bash
# Checks that the engine builds offline with the installed tools; the checks build it again themselves.
cd "$(dirname "$0")/engine" || exit 1
. /opt/vp/env.sh
GOFLAGS=-mod=mod go build -buildvcs=false -o /dev/null . && command -v z3-new
