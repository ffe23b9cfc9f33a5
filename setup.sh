#!/bin/bash
# Builds every check from the committed files against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/harness" || exit 2
mkdir -p "$here/evidence"
CGO_ENABLED=0 go vet ./... && CGO_ENABLED=0 go build -o /dev/null ./... 
