/* Native replay runtime: feeds the solver's recorded inputs back. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#define VP_NATIVE 1
#include "vp.h"
static FILE *f; static unsigned long n;
static uint64_t next(const char *kind){
  char k[16]; uint64_t v;
  if(!f){ const char *p = getenv("VP_REPLAY"); f = p?fopen(p,"r"):0; if(!f){ fprintf(stderr,"vp: no replay file\n"); _Exit(78);} }
  if(fscanf(f,"%15s %" SCNx64,k,&v)!=2){ /* past the recorded prefix: unconstrained */ return 0; }
  if(strcmp(k,kind)){ fprintf(stderr,"vp: replay diverged at input %lu: want %s have %s\n",n,kind,k); _Exit(79); }
  n++; return v;
}
uint8_t  vp_u8(void){ return (uint8_t)next("u8"); }
uint16_t vp_u16(void){ return (uint16_t)next("u16"); }
uint32_t vp_u32(void){ return (uint32_t)next("u32"); }
uint64_t vp_u64(void){ return next("u64"); }
double   vp_double(void){ uint64_t v=next("f64"); double d; memcpy(&d,&v,8); return d; }
void vp_native_assert(int c,const char *msg,const char *file,int line){
  if(!c){ fprintf(stderr,"VP-ASSERTION-VIOLATED: %s (%s:%d)\n",msg,file,line); fflush(0); _Exit(42); } }
void vp_native_assume(int c,const char *file,int line){
  if(!c){ fprintf(stderr,"VP-ASSUMPTION-FALSE %s:%d\n",file,line); fflush(0); _Exit(77); } }
void vp_native_witness(void){ }
extern void VP_FUNC(void);
int main(void){ VP_FUNC(); fprintf(stderr,"VP-REPLAY-END no violation\n"); return 0; }
