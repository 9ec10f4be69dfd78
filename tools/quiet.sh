#!/bin/bash
# quiet.sh SCRIPT.py PROP...: apply a behaviour-preserving rewrite to a scratch copy of /repo; the checks must stay quiet
s=$1; shift
d=$(mktemp -d /tmp/quietXXXXXX); cp -a /repo/. "$d/"; (cd $d && python3 $s && gofmt -l . ; git diff --stat | tail -1; go build ./... && go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok)
for p in "$@"; do VERIF_NOEVIDENCE=1 timeout 900 /verif/bin/gover check -repo $d $p 2>&1 | cut -c1-400| tail -3; done
rm -rf "$d"
