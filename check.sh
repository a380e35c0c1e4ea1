#!/bin/bash
# check.sh ID [quick|thorough]   run the check of one property against /repo's working tree
# check.sh replay FILE           replay a reported violation
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOEXPERIMENT GODEBUG
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
bin=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
export VH_BIN=$bin
export VH_SRC=$here/harness
cd "$VH_SRC" || exit 2
go build -ldflags=-checklinkname=0 -o "$bin/vh" . || { echo "check: the harness does not build"; exit 2; }
if [ "$1" = C19 ] || { [ "$1" = replay ] && grep -q C19 "$2"; }; then
	go build -race -ldflags=-checklinkname=0 -o "$bin/vhrace" . || { echo "check: the harness does not build with the race detector"; exit 2; }
fi
cd "$here" || exit 2
if [ "$1" = replay ]; then
	"$bin/vh" replay "$2"
else
	"$bin/vh" run "$1" ${2:+"$2"}
fi
