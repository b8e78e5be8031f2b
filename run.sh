#!/bin/bash
# usage: run.sh PROPERTY   (VERIF_TIER=quick|thorough)
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_ROOT=${VERIF_ROOT:-$here} VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/harness" && go build -o "$bin/verifcheck" .) || exit 2
"$bin/verifcheck" "$1"
