#!/bin/bash
# Builds the engine (offline, from the module cache) unless an up-to-date binary is there.
vhere="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root LANG=C.UTF-8 GOENV=off GOWORK=off GO111MODULE=on GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=/root/.cache/go-build GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
if [ ! -x "$vhere/engine/bin/gosym" ] || [ -n "$(find "$vhere/engine" -maxdepth 1 \( -name '*.go' -o -name 'go.*' \) -newer "$vhere/engine/bin/gosym" 2>/dev/null | head -1)" ]; then
	mkdir -p "$vhere/engine/bin"
	(cd "$vhere/engine" && go build -o bin/gosym.$$ . && mv bin/gosym.$$ bin/gosym) || { echo "engine build failed"; false; }
fi
