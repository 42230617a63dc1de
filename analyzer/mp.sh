#!/bin/bash
# development helper: mp.sh PROPS < python   analyses a scratch copy edited with sub(file, old, new[, n])
. /opt/vp/env.sh
D=${D:-/tmp/mut}
rm -rf $D && mkdir $D && cp -a /repo/. $D/
cat > $D.py <<'P'
import sys
def sub(f, old, new, n=1):
    p = sys.argv[1] + '/' + f
    s = open(p).read()
    if old not in s: sys.exit('no such text in ' + f + ': ' + old)
    open(p, 'w').write(s.replace(old, new, n))
P
cat >> $D.py
python3 $D.py $D || exit 1
(cd $D && gofmt -l . ; git diff --stat | tail -1; go build ./... || echo NOBUILD; [ -n "$TEST" ] && go test ./... 2>&1 | grep -v "^ok\|no test files" | head -20; true)
timeout ${T:-300} /tmp/jsv -n -repo $D -property $1 2>&1 | cut -c1-${W:-260} | head -${N:-30}
rm -rf $D $D.py
