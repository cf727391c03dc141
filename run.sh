#!/bin/bash
# usage: run.sh <property> <quick|thorough>   (extra arguments go to the engine)
# Builds the symbolic engine, regenerates the encoding from /repo's current working tree and decides the property.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
id=$1 tier=${2:-quick}
shift 2
tmp=$(mktemp -d /tmp/gosym-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
(cd engine && GOFLAGS=-mod=mod go build -buildvcs=false -o "$tmp/gosym" .) || exit 2
"$tmp/gosym" run -check "$id" -tier "$tier" -repo /repo -verif "$PWD" "$@"
