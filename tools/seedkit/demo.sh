#!/bin/bash
# Run in the repository: exit 0 when the property holds in main.go's scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'find "$work" -delete' EXIT
cp "$here"/*.go "$work"/
cp "$repo/protocol/go.sum" "$work/go.sum"
cat > "$work/go.mod" <<M
module demo

go 1.20

require github.com/RTann/libsignal-go/protocol v0.0.0

replace github.com/RTann/libsignal-go/protocol => $repo/protocol
M
sed -n '/^require/,/^)/p' "$repo/protocol/go.mod" >> "$work/go.mod"
cd "$work" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
exec 3>&1
go build RACE -o demo . >&2 && GLOG_logtostderr=1 timeout 250 ./demo
