#!/bin/bash
# mkseed.sh ID PROPERTY PKG "needs" "breaks": takes the edit made in /tmp/sw (a copy of /repo) and the demo test in /tmp/demo_test.go
ID=$1; S=/verif/seeded/$ID; mkdir -p $S
git -C /tmp/sw diff > $S/patch.diff
cp /tmp/demo_test.go $S/demo_test.go.txt
cat > $S/demo.sh <<D
#!/bin/bash
. /opt/vp/env.sh
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\":{\"/repo/pkg/$3/zz_demo_test.go\":\"\$D/demo_test.go.txt\"}}" > "\$T/o.json"
cd /repo && TMPDIR="\$T" go test -overlay "\$T/o.json" -vet=off -count=1 -timeout 120s ${RACE} -run '^TestZZDemo' ./pkg/$3
D
python3 - "$ID" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
git -C /tmp/sw checkout -q .
/verif/tools/seedcheck.sh $ID
