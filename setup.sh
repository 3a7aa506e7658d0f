#!/bin/bash
# Builds the analyser offline from the committed sources.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p "$here/bin" "$here/evidence"
cd "$here/tool" && go build -o "$here/bin/pdfverif" .
