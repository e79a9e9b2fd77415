#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include "dieharder.h"
static int bad; int execute_test(int n){ if(n>201 && n<204 && ntuple!=9){ printf("test %d ran with ntuple %d\n",n,ntuple); bad=1; } return 0; }
extern void run_all_tests();
int main(void){ dieharder_test_types(); ntuple=9; run_all_tests(); return bad; }
C
gcc -w -DVERSION=1 -Iinclude -Idieharder -o $T/t $T/t.c dieharder/run_all_tests.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t
