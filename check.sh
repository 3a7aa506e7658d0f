#!/bin/bash
# usage: check.sh <property id>: builds the analyser when needed and decides one property on /repo's current tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
bin="$here/bin/pdfverif"
if [ ! -x "$bin" ] || [ -n "$(find "$here/tool" -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/tool" && go build -o "$bin" .) || { echo "cannot build the analyser"; echo "VIOLATION property=$1 replay=build"; exit 1; }
fi
exec "$bin" -property "$1" -repo "${PDF_REPO:-/repo}" -verif "${PDF_VERIF:-$here}" "${@:2}"
