#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
int main(int c,char **v){ int i; unsigned a[5]; dieharder_rng_types(); rng=gsl_rng_alloc(dh_rng_types[209]); gsl_rng_set(rng,7); for(i=0;i<5;i++) a[i]=gsl_rng_get(rng);
 gsl_rng_set(rng,8); for(i=0;i<50000;i++) gsl_rng_get(rng); gsl_rng_set(rng,7); for(i=0;i<5;i++) if(a[i]!=gsl_rng_get(rng)) { printf("number %d differs\n",i); return 1; } return 0; }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t
