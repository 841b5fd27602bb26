#!/bin/bash
# Runs demo.go (beside this file) against the tree in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
printf '{"Replace":{"%s":"%s","%s":"%s"}}' "$PWD/zz_demo/demo.go" "$here/demo.go" "$PWD/zz_demo/util.go" "$here/util.go" > "$d/o.json"
go build -overlay "$d/o.json" -o "$d/demo" ./zz_demo || exit 2
timeout 200 "$d/demo"
