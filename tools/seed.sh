#!/bin/bash
# seed.sh ID PROP PKG NEEDS BREAKS <<stdin: plants a bug. stdin has a python program run in a copy of /repo
# (sub(file, old, new) edits), a line =====, and a Go test of the package in directory PKG. Keeps it in /verif/seeded/ID when all conditions hold.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
. /opt/vp/env.sh
w=/tmp/seed.$$
mkdir -p $w
d=$w/out
mkdir -p $d
cat >$w/stdin
edit=$(sed '/^=====$/,$d' $w/stdin)
sed '1,/^=====$/d' $w/stdin >$d/body
if grep -q 'demoRun\|demoTransformer\|demoWant' $d/body; then
	(printf 'package transform\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"testing"\n'; sed -n 's/^import //p' $d/body | sed 's/^/\t/' ; printf '\n\t"github.com/GannettDigital/jstransform/jsonschema"\n)\n\n'; grep -v '^import ' $d/body; cat /verif/tools/demo/transform.txt) >$d/demo_test.go.txt
elif grep -q 'demoGen' $d/body; then
	(printf 'package generate\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"testing"\n'; sed -n 's/^import //p' $d/body | sed 's/^/\t/' ; printf ')\n\n'; grep -v '^import ' $d/body; cat /verif/tools/demo/generate.txt) >$d/demo_test.go.txt
else
	mv $d/body $d/demo_test.go.txt
fi
rm -f $d/body
cat >$d/demo.sh <<EOS
#!/bin/bash
# fails when the behaviour demonstrated by demo_test.go.txt is broken
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
w=\$(mktemp -d)
trap 'rm -rf "\$w"' EXIT
cp "\$here/demo_test.go.txt" "\$w/zz_demo_test.go"
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/zz_demo_test.go"}}' "\$PWD" "\$w" >"\$w/overlay.json"
timeout 250 go test -count=1 \${DEMOFLAGS:-} -run '^TestDemo' -overlay "\$w/overlay.json" ./$pkg
EOS
sed -i "s/\\\${DEMOFLAGS:-}/${DEMOFLAGS:-}/" $d/demo.sh
chmod +x $d/demo.sh
cp -a /repo $w/repo
cd $w/repo
ok=1
# -overlay paths are those of the copy
bash $d/demo.sh >$w/clean.log 2>&1 || { echo "demo fails on the clean tree"; tail -15 $w/clean.log; ok=0; }
grep -q "no tests to run" $w/clean.log && { echo "no demo test"; ok=0; }
python3 -c "
import re,sys
def sub(f,a,b,n=1):
    s=open(f).read()
    assert s.count(a)>=1,('missing',f,a)
    assert n==0 or s.count(a)==n,('count',s.count(a))
    open(f,'w').write(s.replace(a,b))
$edit" || ok=0
git diff >$d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; ok=0; }
python3 - <<'EOB' || ok=0
import subprocess,re,sys
d=subprocess.run(['git','diff','-U0'],capture_output=True,text=True).stdout
f=None;bad=0;n=0
for l in d.splitlines():
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
    if m and m.group(2)!='0':
        a=int(m.group(1));k=int(m.group(2) or 1)
        for b in subprocess.run(['git','blame','-s','-L',f'{a},{a+k-1}','HEAD','--',f],capture_output=True,text=True).stdout.splitlines():
            n+=1
            if not b.startswith('^'): bad+=1
if n and bad==n: print('only lines of my own commits are changed'); sys.exit(1)
if bad: print(bad,'of',n,'changed lines are of my own commits')
EOB
go build ./... && go vet ./transform ./jsonschema >/dev/null 2>&1
go build ./... || ok=0
go test ./... >$w/test.log 2>&1 || { echo "existing tests fail"; grep -E '^(---|FAIL)|panic' $w/test.log | head; ok=0; }
if bash $d/demo.sh >$w/bad.log 2>&1; then echo "demo passes with the bug"; ok=0; fi
# lines of the original repository?
python3 - "$prop" "$needs" "$breaks" $d/meta.json <<'EOP'
import json,sys
json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},open(sys.argv[4],"w"),indent=1)
EOP
if [ $ok = 1 ]; then
	mkdir -p /verif/seeded/$id
	cp $d/* /verif/seeded/$id/
	grep -E '^\s+zz_demo|panic:|DATA RACE' $w/bad.log | head -3
	/tmp/jsv -property $prop -n -repo $w/repo -verif /verif 2>&1 | grep -E 'held|VIOLATION|^[a-z].* \| ' | cut -c1-200 | head -4
	echo "kept $id"
else
	echo "NOT kept $id"; tail -5 $w/bad.log
fi
rm -rf $w
