#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

printf 'type: d\ncount: 3\nnumbit: 32\n17\n777\n377\n' > $T/in
cat > $T/t.c <<'C'
#include "dieharder.h"
int main(int c,char **v){ int i; dieharder_rng_types(); strcpy(filename,v[1]); rng=gsl_rng_alloc(dh_rng_types[202]); gsl_rng_set(rng,1);
 for(i=1;i<=10;i++){ gsl_rng_get(rng); if(file_input_get_rewind_cnt(rng)!=(i-1)/3){ printf("after %d numbers: %u\n",i,file_input_get_rewind_cnt(rng)); return 1; } } return 0; }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t $T/in
