#!/bin/bash
# Usage: check.sh <property>. Builds the driver and runs the property's check.
set -u
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
scratch=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'pkill -KILL -f "^$scratch/"; rm -rf -- "$scratch"' EXIT
(cd harness && go build -o "$scratch/vh" ./cmd/vh) || { echo "the driver does not build" >&2; exit 2; }
VH_VERIF="$PWD" VH_SCRATCH="$scratch" "$scratch/vh" "$@"
