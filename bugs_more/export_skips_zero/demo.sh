#!/bin/bash
B=$PWD/_build/src/dieharder/dieharder; T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
static unsigned n; static void set(void *s,unsigned long x){ n=0; } static double gd(void *s){ return (n++%3==1)?0.0:0.25; } static unsigned long get(void *s){ return 4294967295.0*gd(s); }
static const gsl_rng_type G={"g",0xffffffffu,0,8,set,get,gd};
int main(void){ rng=gsl_rng_alloc(&G); Seed=1; output_format=2; tsamples=7; output_rnds(); return 0; }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/output_rnds.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t | grep -v '[#:]' > $T/o; cat $T/o
[ "$(tr '\n' ' ' < $T/o)" = "0.2500000000 0.0000000000 0.2500000000 0.2500000000 0.0000000000 0.2500000000 0.2500000000 " ]
