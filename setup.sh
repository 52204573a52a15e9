#!/bin/bash
# Builds the driver once, to see that it builds. Checks build what they need.
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
cd harness && go vet ./cmd/... ./result ./media && go build -o /dev/null ./cmd/vh
