#!/bin/bash
# Builds the symbolic execution engine into .bin/ (git-ignored). Offline; uses only the installed toolchain and the
# module cache. Go's build cache makes repeated builds cheap.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off GOSUMDB=off CGO_ENABLED=0
mkdir -p .bin
cd engine
go build -o ../.bin/gosym.$$ .
mv -f ../.bin/gosym.$$ ../.bin/gosym
