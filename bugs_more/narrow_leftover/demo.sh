#!/bin/bash
B=$PWD/_build/src/dieharder/dieharder; T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
static unsigned n; static void set(void *s,unsigned long x){ n=0; } static unsigned long get(void *s){ n=n*1664525+1013904223; return (n>>9)&0x3ff; } static double gd(void *s){ return 0; }
static const gsl_rng_type G={"g",0x3ff,0,8,set,get,gd};
int main(void){ unsigned i,w; unsigned long long buf=0; unsigned have=0; gsl_rng *r=gsl_rng_alloc(&G),*q; gsl_rng_set(r,1); unsigned exp[40],m=0;
 /* expected: concatenation, later outputs to the right within a word is not assumed: only that all bits of the first 320 appear, by count of ones */
 unsigned ones=0,got=0; rmax_bits=10; reset_bit_buffers(); 
 for(i=0;i<64;i++) got+=__builtin_popcount(get_uint_rand(r));
 gsl_rng_set(r,1); for(i=0;i<64*32/10;i++) ones+=__builtin_popcount(gsl_rng_get(r));
 printf("%u ones delivered, %u produced\n",got,ones); return got+12<ones; }
C
gcc -w -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t
