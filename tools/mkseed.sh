#!/bin/bash
# mkseed.sh ID PROP PKGDIR "needs" "breaks": takes the change now in /repo's working tree and
# /tmp/demo_test.go as the demonstration (TestDemo in PKGDIR), stores and verifies the seed, restores /repo.
set -e; REPO=${SEED_REPO:-/tmp/w}
id=$1 prop=$2 pkg=$3 d=/verif/seeded/$1
mkdir -p $d
git -C $REPO diff > $d/patch.diff
cp ${DEMO:-/tmp/demo_test.go} $d/demo_test.go
name=zz_demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
d=\$(cd "\$(dirname "\$0")" && pwd)
p=\$PWD; . /opt/vp/env.sh; cd "\$p"
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\":{\"\$PWD/$pkg/$name\":\"\$d/demo_test.go\"}}" > \$t/o.json
go test -overlay \$t/o.json -vet=off -count=1 -tags "\$TAGS" -run '^TestDemo\$' ./$pkg
X
chmod +x $d/demo.sh
python3 - "$d" "$prop" "$4" "$5" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
X
[ -s $d/patch.diff ] || { echo NO CHANGE; exit 1; }
(cd $REPO && $d/demo.sh >/tmp/demo1.log 2>&1) && { echo "DEMO PASSES WITH PATCH"; tail -5 /tmp/demo1.log; git -C $REPO checkout -q -- .; exit 1; }
grep -q "build failed\|setup failed" /tmp/demo1.log && { tail -20 /tmp/demo1.log; git -C $REPO checkout -q -- .; exit 1; }
if [ -z "$NOTEST" ]; then bash /tmp/test_w.sh /tmp/seedt.json | tail -3; python3 -c "import json;a=json.load(open(\"/tmp/seedt.json\"));b=json.load(open(\"/opt/vp/BASELINE.json\"));print(\"BROKEN\",[x for x in b[\"stable\"] if x not in a[\"passed\"]])"; fi
rc=0; VERIF_REPO=$REPO /verif/check.sh $prop quick > /tmp/seedcheck.log || rc=$?
grep "VIOL\|exit\|==" /tmp/seedcheck.log | cut -c1-200
python3 - $id $prop $rc <<'X'
import json,sys,os,re
f='/verif/tools/caught.json'
c=json.load(open(f)) if os.path.exists(f) else {}
hs=sorted(set(re.findall(r'(ZV_\w+): paths \d+ ends map\[[^\]]*violated', open('/tmp/seedcheck.log').read())))
c[sys.argv[1]]='caught by %s (%s)'%(sys.argv[2],', '.join(hs)) if sys.argv[3]=='1' else 'MISSED (exit %s)'%sys.argv[3]
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
X
git -C $REPO checkout -q -- .
(cd $REPO && $d/demo.sh >/tmp/demo2.log 2>&1) && echo "SEED $id OK" || { echo "DEMO FAILS WITHOUT PATCH"; tail -20 /tmp/demo2.log; }
