#!/bin/bash
# Compiles everything once, to fill the build cache.
cd "$(dirname "$0")/harness" || exit 1
export GOENV=off GOWORK=off GO111MODULE=on GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/verif_setup.XXXXXX) || exit 1
cp go.mod go.sum "$tmp"/
go build -modfile "$tmp/go.mod" -o "$tmp/instr" ./cmd/instr
rc=$?
rm -rf "$tmp"
exit $rc
