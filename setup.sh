#!/bin/bash
# Checks that the machinery builds. (The checks build what they need themselves.)
here=$(cd "$(dirname "$0")" && pwd) || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
cd "$here/sim" && go build -o /dev/null ./simcheck
