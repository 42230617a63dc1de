#!/bin/bash
# builds the analyzer, offline, from the committed and vendored source
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
cd "$here/analyzer" && GOFLAGS='-mod=vendor -buildvcs=false' go build -o "$here/bin/jsv" .
