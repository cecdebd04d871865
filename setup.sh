#!/bin/bash
# Builds the analyser from the committed sources (offline, vendored dependencies).
cd "$(dirname "$0")/checker" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=vendor -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin && go build -o ../bin/candicecheck . 
