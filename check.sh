#!/bin/bash
# check.sh PROPERTY TIER: builds the analyzer when needed and decides one property for the source in /repo.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
. /opt/vp/env.sh
replay="$here/evidence/$id.violation.txt"
mkdir -p "$here/evidence" "$here/bin"
bin="$here/bin/jsv"
if ! (cd "$here/analyzer" && GOFLAGS='-mod=vendor -buildvcs=false' go build -o "$bin" .) >"$here/bin/build.log" 2>&1; then
	cp "$here/bin/build.log" "$replay"
	tail -20 "$here/bin/build.log"
	echo "VIOLATION property=$id replay=$replay"
	exit 1
fi
out=$(mktemp)
timeout 800 "$bin" -property "$id" -tier "$tier" -verif "$here" -repo /repo >"$out" 2>&1
rc=$?
head -c 20000 "$out"
if [ $rc -ne 0 ] && ! grep -q "^VIOLATION property=$id " "$out"; then
	# the analyzer crashed or ran out of time: the property is not shown to hold
	echo "the analysis did not finish (exit $rc)" | tee "$replay"
	tail -c 4000 "$out" >>"$replay"
	echo "VIOLATION property=$id replay=$replay"
fi
rm -f "$out"
[ $rc -eq 0 ] || rc=1
exit $rc
