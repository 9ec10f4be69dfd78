#!/bin/bash
# mut.sh FILE 'sed-expr' -- gover args...: run the verifier on a mutated copy of /repo
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $d/
sed -i "$e" $d/$f; (cd $d && git diff --stat | tail -1; go build ./... )
/verif/bin/gover verify -repo $d "$@"
rm -rf "$d"
