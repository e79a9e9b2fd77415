#!/bin/bash
B=$PWD/_build/src/dieharder/dieharder; T=$(mktemp -d); trap "rm -rf $T" EXIT

fail=0
for s in 1 2 3 4 5 6 7 8 9 10 11 12; do
 $B -g 206 -d 100 -t 1000 -p 5 -S $s -s 1 -W 0.4 -D 128 -D 256 > $T/o
 awk -F'|' '{for(i=1;i<=NF;i++) if($i ~ /^ *[01]\.[0-9]+ *$/) p=$i; v="";  if($0~/PASSED/)v="P"; if($0~/WEAK/)v="W"; if(v=="P" && (p<0.399||p>0.601)){print; exit 1}}' $T/o || fail=1
done
exit $fail
