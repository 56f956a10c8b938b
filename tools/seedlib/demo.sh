#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
go build -o "$T/demo" "$D"/*.go || exit 3
cd "$T" && timeout 200 ./demo
