#!/bin/bash
# v.sh FILE.gvs [func-substr]: verify every function of a contract file, print what is not proved
cd /verif
f=$1; s=$2
timeout 1500 bin/gover verify -repo /repo -contracts contracts -prop XX ${TIER:+-tier $TIER} -roots "$(tools/rootsof.sh $f)" ${s:+-func $s} -v -nofallback=true > /tmp/v.out 2>&1
grep PROBLEM /tmp/v.out; grep "^FAILED\|rror" /tmp/v.out | sed "s,layer.Layer.QueryActiveNodeAndComputeActivations,Q,g; s,activeNodesPerLayer,aNPL,g" | sed -E 's,^(.{110}).*( \(#[0-9]+\))  \[.*,\1\2,; s,^(.{110}).*  \[.*,\1,' | head -${3:-40}
grep "^obligations" /tmp/v.out
