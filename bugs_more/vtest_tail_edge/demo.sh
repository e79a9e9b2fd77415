#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
int main(void){ Vtest v; int i; Vtest_create(&v,4); v.cutoff=6; for(i=0;i<4;i++){ v.y[i]=i<2?10:3; v.x[i]=i<2?10:6; } Vtest_eval(&v); printf("%g %u\n",v.chisq,v.ndof); return !(v.ndof==2 && v.chisq>5.9); }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t
