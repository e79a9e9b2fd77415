#!/bin/bash
T=$(mktemp -d); trap "rm -rf $T" EXIT

cat > $T/t.c <<'C'
#include <stdio.h>
#include <string.h>
#include <dieharder/parse.h>
int verbose; char splitbuf[PK][PBUF]; 
int main(void){ static char l[5000]; int i; for(i=0;i<2000;i++) strcat(l,"a "); i=split(l); if(i!=PK-1){ printf("%d\n",i); return 1; } return 0; }
C
gcc -w -g -fsanitize=address -Iinclude -o $T/t $T/t.c libdieharder/parse.c || exit 0
$T/t
