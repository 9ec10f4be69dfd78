#!/bin/bash
# rootsof.sh FILE...: root keys (pkg.Type.Func) of the function contracts in the given .gvs files
for f in "$@"; do
 p=$(grep -m1 '^package ' $f | awk '{print $2}')
 sed -nE "s/^func \(\w+ \*?(\w+)\) (\w+).*/$p.\1.\2/p; s/^func (\w+)\(.*/$p.\1/p" $f
done | paste -sd,
