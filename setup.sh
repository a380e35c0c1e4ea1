#!/bin/bash
# Builds the framework once (and warms the Go build cache); every check builds again from /repo's working tree.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$(dirname "$0")/harness" && go build -ldflags=-checklinkname=0 -o /dev/null .
go build -race -ldflags=-checklinkname=0 -o /dev/null .
