#!/bin/bash
# mkseed.sh ID PROPERTY PKG: makes /verif/seeded/ID from
#   /tmp/seed/ID/edit.py (edits the tree in cwd), demo_test.go, needs.txt, breaks.txt
# and confirms: builds, demo passes without and fails with the patch
ID=$1; PROP=$2; PKG=$3; S=/tmp/seed/$ID; O=/verif/seeded/$ID
. /opt/vp/env.sh
rm -rf /tmp/seedtree; git -C /repo worktree prune; git -C /repo worktree add -f --detach /tmp/seedtree HEAD -q || exit 1
cd /tmp/seedtree || exit 1
python3 "$S/edit.py" || { echo "edit failed"; exit 1; }
gofmt -l $(git diff --name-only) 
mkdir -p "$O"; git diff > "$O/patch.diff"
cp "$S/demo_test.go" "$O/demo_test.go"
cat > "$O/demo.sh" <<D
#!/bin/bash
# exit 0 when the property holds on the concrete scenario, nonzero when it does not
D="\$(cd "\$(dirname "\$0")" && pwd)"
. /opt/vp/env.sh
T="\$(mktemp -d)"; trap 'rm -rf "\$T"' EXIT
printf '{"Replace":{"%s/$PKG/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$D" > "\$T/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "\$T/o.json" -run '^TestDemo\$' ./$PKG
D
python3 - "$PROP" "$S" > "$O/meta.json" <<'P'
import json,sys
s=sys.argv[2]
json.dump({"property":sys.argv[1],"needs":open(s+"/needs.txt").read().strip(),"what_it_breaks":open(s+"/breaks.txt").read().strip()},sys.stdout,indent=1)
P
go build ./... || { echo "$ID: DOES NOT BUILD"; }
bash "$O/demo.sh" > /tmp/seed/$ID/with.txt 2>&1; w=$?
git checkout -q -- .
bash "$O/demo.sh" > /tmp/seed/$ID/without.txt 2>&1; wo=$?
echo "$ID: demo without=$wo with=$w"
cd /; git -C /repo worktree remove --force /tmp/seedtree
