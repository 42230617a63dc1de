#!/bin/bash
# development helper: mut.sh PROPS FILE SED-EXPR...  analyses a scratch copy with an edit
. /opt/vp/env.sh
props=$1; file=$2; shift 2
rm -rf /tmp/mut && mkdir /tmp/mut && cp -a /repo/. /tmp/mut/
for e in "$@"; do sed -i -E "$e" /tmp/mut/$file; done
(cd /tmp/mut && git diff --stat | tail -1; . /opt/vp/env.sh; go build ./... || echo NOBUILD; [ -n "$TEST" ] && go test ./... 2>&1 | grep -v "^ok\|no test files" | head -20; true)
timeout ${T:-200} /tmp/jsv -n -repo /tmp/mut -property $props 2>&1 | cut -c1-${W:-260} | head -${N:-30}
rm -rf /tmp/mut
