#!/bin/bash
B=$PWD/_build/src/dieharder/dieharder; T=$(mktemp -d); trap "rm -rf $T" EXIT

# a file of 17 words and one stray byte is replayed with period 17
python3 - $T/in <<'P'
import struct,sys
open(sys.argv[1],'wb').write(b''.join(struct.pack('<I',(i*2654435761)&0xffffffff) for i in range(17))+b'x')
P
cat > $T/t.c <<'C'
#include "dieharder.h"
int main(int c,char **v){ int i; dieharder_rng_types(); strcpy(filename,v[1]); rng=gsl_rng_alloc(dh_rng_types[201]); gsl_rng_set(rng,1);
 for(i=0;i<40;i++) if((unsigned)gsl_rng_get(rng)!=(unsigned)((i%17)*2654435761u)) { printf("number %d differs\n",i); return 1; } printf("ok\n"); return 0; }
C
gcc -w -Iinclude -Idieharder -o $T/t $T/t.c dieharder/globals.c dieharder/user_template.c _build/src/libdieharder/.libs/libdieharder.a -lgsl -lgslcblas -lm || exit 0
$T/t $T/in | tee $T/o; grep -q '^ok' $T/o
