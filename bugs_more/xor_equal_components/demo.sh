#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
int main(int c,char **v){ int i,z=0; dieharder_rng_types(); gvcount=3; gnumbs[0]=207; gnumbs[1]=gnumbs[2]=208; rng=gsl_rng_alloc(dh_rng_types[207]); gsl_rng_set(rng,7);
 for(i=0;i<10;i++) z+= gsl_rng_get(rng)==0; printf("%d zeros\n",z); return z>1; }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t
