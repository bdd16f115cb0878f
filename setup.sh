#!/bin/bash
# Builds the analyser once, which fills Go's build cache.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p bin evidence
(cd sa && go build -o ../bin/gsesa.setup .) || exit 1
rm -f "$PWD/bin/gsesa.setup"
