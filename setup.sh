#!/bin/bash
# builds the verifier
set -e
cd "$(dirname "$0")/gv"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/gv .
