#!/bin/bash
# mkseed.sh ID PROP PKGDIR 'needs' 'breaks' MUTATE-SCRIPT < demo_test.go
# Makes a seeded change in a scratch copy of /repo, confirms that it builds, passes the stable tests,
# and that its demonstration passes without and fails with it; then stores it in seeded/ID.
id=$1; prop=$2; pkg=$3; needs=$4; breaks=$5; mut=$6
s=/verif/seeded/$id; mkdir -p "$s"
cat > "$s/demo_test.go"
cat > "$s/demo.sh" <<EOD
#!/bin/bash
# runs the demonstration test beside this file inside the package it concerns
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo "{\"Replace\": {\"\$PWD/$pkg/zz_demo_test.go\": \"\$here/demo_test.go\"}}" > "\$t/overlay.json"
cp "\$here/demo_test.go" "\$t/" ; cd "$pkg" || exit 3
TMPDIR=\$t timeout 250 go test -vet=off -count=1 -overlay "\$t/overlay.json" -run '^TestDemo\$' .
EOD
chmod +x "$s/demo.sh"
d=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo/. "$d/"
cd "$d" || exit 1
bash "$s/demo.sh" > /tmp/demo.out 2>&1 || { echo "SEED $id: demo fails on the unchanged tree"; tail -5 /tmp/demo.out; rm -rf "$d"; exit 1; }
bash -c "$mut" || { echo "SEED $id: mutation failed"; rm -rf "$d"; exit 1; }
git diff > "$s/patch.diff"
[ -s "$s/patch.diff" ] || { echo "SEED $id: empty patch"; rm -rf "$d"; exit 1; }
go build ./... || { echo "SEED $id: does not build"; rm -rf "$d"; exit 1; }
go test ./... 2>&1 | grep -v 'no test files' | grep -v '^ok' && { echo "SEED $id: existing tests fail"; rm -rf "$d"; exit 1; }
if bash "$s/demo.sh" > /tmp/demo.out 2>&1; then echo "SEED $id: demo passes with the change"; rm -rf "$d"; exit 1; fi
python3 - "$prop" "$needs" "$breaks" > "$s/meta.json" <<'EOP'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOP
rm -rf "$d"
echo "SEED $id ok"
