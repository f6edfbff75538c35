#!/bin/bash
# Builds the engine into $1 (default /verif/bin/gosym, not committed).
set -e
cd "$(dirname "$0")"
here=$(pwd)
out=${1:-$here/bin/gosym}
mkdir -p "$(dirname "$out")"
cd engine
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
exec go build -o "$out" .
