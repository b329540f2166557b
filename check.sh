#!/bin/bash
# check.sh <property>
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOGC=400
[ -x bin/gv ] || ./setup.sh || exit 2
exec bin/gv check -prop "$1" -root "$PWD"
