#!/bin/bash
# native.sh OUT PROP: build the replay binary from /repo's working tree.
# When the harnesses of PROP set the clock, the standard library's time.Now is
# replaced, through a build overlay, by one that can be set.
set -e
cd "$(dirname "$0")"
out=$1; prop=$(echo "$2" | tr A-Z a-z)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
if grep -q 'vp\.SetClock' "h/$prop.go" 2>/dev/null; then
	src=$(go env GOROOT)/src/time/time.go
	tmp=$(dirname "$out")
	sed 's/^func Now() Time {$/&\n\tif VPClock != nil {\n\t\treturn Unix(VPClock(), 0)\n\t}/' "$src" > "$tmp/vp_time.go"
	printf '\n// VPClock replaces the clock.\nvar VPClock func() int64\n' >> "$tmp/vp_time.go"
	grep -q 'return Unix(VPClock(), 0)' "$tmp/vp_time.go"
	printf '{"Replace": {"%s": "%s"}}\n' "$src" "$tmp/vp_time.go" > "$tmp/vp_overlay.json"
	exec go build -overlay "$tmp/vp_overlay.json" -tags vpclock -o "$out" ./cmd/replay
fi
if grep -q 'vp\.Concurrent' "h/$prop.go" 2>/dev/null; then
	CGO_ENABLED=1 exec go build -race -o "$out" ./cmd/replay
fi
exec go build -o "$out" ./cmd/replay
