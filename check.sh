#!/bin/bash
# usage: check.sh ID [engine flags]   -- builds the engine if needed and runs one check against /repo
set -u
V=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
. "$V/build.sh" || exit 2
id=$1; shift
exec "$GOSYM" -id "$id" -repo "${REPO:-/repo}" -verif "$V" "$@"
