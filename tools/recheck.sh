#!/bin/bash
# recheck.sh ID...: rerun checks of seeds, update caught.json
for id in "$@"; do
 d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /tmp/w apply $d/patch.diff || continue
 rc=0; VERIF_REPO=/tmp/w /verif/check.sh $prop quick > /tmp/seedcheck.log || rc=$?
 git -C /tmp/w checkout -q -- .
 python3 - $id $prop $rc <<'X'
import json,sys,os,re
f='/verif/tools/caught.json'
c=json.load(open(f)) if os.path.exists(f) else {}
hs=sorted(set(re.findall(r'(ZV_\w+): paths \d+ ends map\[[^\]]*violated', open('/tmp/seedcheck.log').read())))
c[sys.argv[1]]='caught by %s (%s)'%(sys.argv[2],', '.join(hs)) if sys.argv[3]=='1' else 'MISSED (exit %s)'%sys.argv[3]
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
print(sys.argv[1],c[sys.argv[1]])
X
done
