#!/bin/bash
# mutc.sh PROP FILE 'sed-expr': run the registered check of PROP against a mutated copy of /repo
p=$1; f=$2; e=$3
d=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $d/
sed -i "$e" $d/$f; (cd $d && git diff | grep '^[-+][^-+]'; go build ./... && go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok)
/verif/bin/gover check -repo $d $p | cut -c1-300; echo "exit ${PIPESTATUS[0]}"
rm -rf "$d"
