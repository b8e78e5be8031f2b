#!/bin/bash
# Builds the checker once, offline; each check builds its own copy again.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local
cd "$here/harness" && go build -o /dev/null . && go vet . && clang -fsyntax-only -w ../cdrv/drv.c
