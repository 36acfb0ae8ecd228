#!/bin/bash
# usage: mkseed.sh ID PROPERTY PKG "needs" "what it breaks" < demo_test.go ; the change is /tmp/seedwt's working tree (a worktree copy of /repo)
# confirms: builds, stable tests pass, demo passes unchanged and fails changed; stores seeded/ID
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
D=/verif/seeded/$id; mkdir -p $D; cat > $D/demo_test.go
git -C /tmp/seedwt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
cat > $D/demo.sh <<X
#!/bin/bash
d=\$(cd "\$(dirname "\$0")" && pwd); t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
. /opt/vp/env.sh
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$d/demo_test.go\"}}" > "\$t/o.json"
timeout 250 go test -overlay "\$t/o.json" -vet=off -count=1 -run TestZZDemo ./$pkg
X
python3 - "$prop" "$needs" "$what" > $D/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
. /opt/vp/env.sh
cd /tmp/seedwt || exit 1
go build ./... || { echo BUILD FAILED; exit 1; }
bash $D/demo.sh > /tmp/demo.out 2>&1 && { echo "DEMO PASSES WITH PATCH"; cat /tmp/demo.out; exit 1; }
go test ./... 2>&1 | grep -E "^(---|\s+---) FAIL|^FAIL|panic" | grep -v "panic.go\|ex4data1\|TestLoadOctaveBin\|Fit_mnist\|panic(\|datasets\s\|neural_network\s\|^FAIL$" | head -20
git -C /tmp/seedwt stash -q; bash $D/demo.sh > /tmp/demo2.out 2>&1 || { echo "DEMO FAILS UNCHANGED"; cat /tmp/demo2.out; }
git -C /tmp/seedwt stash drop -q; git -C /tmp/seedwt checkout -q -- .
echo "seed $id ok?"; tail -5 /tmp/demo.out
