#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
int main(void){ int i; unsigned a[3][2]={{1,0},{1,0},{0,1}}, b[3][2]={{1,1},{1,0},{0,0}}, *p[3]; dieharder_rng_types();
 for(i=0;i<3;i++) p[i]=a[i]; i=binary_rank(p,3,33); if(i!=2){ printf("rank %d\n",i); return 1; }
 for(i=0;i<3;i++) p[i]=b[i]; i=binary_rank(p,3,33); if(i!=2){ printf("rank %d\n",i); return 1; } return 0; }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t
