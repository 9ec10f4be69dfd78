#!/bin/bash
# h.sh PKGDIR TEST: run one harness test against /repo
d=$1; p=$(basename $d); [ "$d" = . ] && { p=main; src=root; } || src=$d
t=$(mktemp -d); sed "s/^package PKG/package ${p}_test/" /verif/harness/helper.go.txt > $t/h_test.go
python3 - "$src" "$d" "$t" > $t/ov.json <<'P'
import sys,glob,json,os
src,d,t=sys.argv[1:]
r={f"/repo/{d}/verif_helper_test.go":t+"/h_test.go"}
for f in glob.glob(f"/verif/harness/{src}/*_test.go"): r[f"/repo/{d}/verif_"+os.path.basename(f)]=f
print(json.dumps({"Replace":r}))
P
cd /repo && VERIF_LIMIT_MS=${3:-3000} VERIF_OUT=$t/o.json go test -vet=off -overlay $t/ov.json -run "$2\$" ./$d 2>&1 | cut -c1-1500 | head -${4:-20}; cut -c1-500 $t/o.json; echo; rm -rf $t
