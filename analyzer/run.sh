#!/bin/bash
# development helper: build and run
. /opt/vp/env.sh
cd /verif/analyzer && GOFLAGS=-mod=vendor go build -o /tmp/jsv . && timeout ${T:-300} /tmp/jsv -n "$@"
