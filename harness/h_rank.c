/* C12: GF(2) rank and the rank tests */
#ifdef H_RANK
#include <dieharder/libdieharder.h>
/* reference: XOR basis indexed by leading column, over at most 128 columns */
typedef unsigned __int128 row_t;
static unsigned rank_ref(const row_t *r,unsigned n,unsigned cols){
  row_t basis[KB]; unsigned nb=0,i,j,c;
  for(i=0;i<n;i++){ row_t v=r[i];
    for(j=0;j<nb;j++){ row_t w=v^basis[j]; if(w<v) v=w; }
    if(v){ basis[nb]=v; for(j=nb;j>0 && basis[j-1]<basis[j];j--){ row_t t=basis[j]; basis[j]=basis[j-1]; basis[j-1]=t; } nb++; }
  }
  return nb;
}
static const int RP[KB]={ROWPOS}, CP[KB]={COLPOS};   /* where the symbolic KB x KB block sits */
#define WORDS ((COLS+31)/32)
static uint32_t MX[ROWS][WORDS+1]; static uint32_t *PT[ROWS];
VP_ENTRY(h_rank){
  row_t sub[KB]; unsigned i,j,ident=0,got,exp;
  verbose=0;
  for(i=0;i<ROWS;i++) PT[i]=MX[i];
  for(i=0;i<KB;i++){ uint32_t bits=vp_u32(); bits&=(1u<<KB)-1; sub[i]=bits; for(j=0;j<KB;j++) MX[RP[i]][CP[j]/32] |= ((bits>>j)&1u)<<(CP[j]%32); }
#if IDENT
  { unsigned r=0,c=0,a,b; /* ones on a generalised diagonal of the remaining rows and columns */
    for(;;){ for(;r<ROWS;r++){ for(a=0;a<KB;a++) if(RP[a]==(int)r) break; if(a==KB) break; }
             for(;c<COLS;c++){ for(b=0;b<KB;b++) if(CP[b]==(int)c) break; if(b==KB) break; }
             if(r>=ROWS||c>=COLS) break; MX[r][c/32] |= 1u<<(c%32);
#if IDENT==2
             { uint32_t f=vp_u32(); unsigned q; for(q=0;q<KB;q++) if((f>>q)&1u) MX[r][CP[q]/32] |= 1u<<(CP[q]%32); } /* arbitrary entries beside it: rank unchanged (row r still independent, block rows zero in column c) */
#endif
             ident++; r++; c++; } }
#endif
#if COLS%32 && GARBAGE
  for(i=0;i<ROWS;i++) MX[i][WORDS-1] |= vp_u32() & ~((1u<<(COLS%32))-1);   /* bits beyond the last column */
#endif
  exp = ident + rank_ref(sub,KB,KB);
  got = binary_rank(PT,ROWS,COLS);
  VP_ASSERT(got==exp,"the rank of a bit matrix is the number of linearly independent rows");
  VP_WITNESS("end");
}
/* wider than one word: leading words concrete, the last one arbitrary.  Rows 2.. are
 * known combinations of rows 0 and 1 in the concrete part, so the rank is 2 plus the
 * rank of what is left of them in the last word. */
#ifdef WIDE
VP_ENTRY(h_rank_wide){
  static const unsigned comb[6]={1,2,1,3,2,0}; static const uint32_t W0[2]={0x00010004u,0x80000002u},W1[2]={0x20u,0x10u};
  uint32_t t[6]; row_t left[6]; unsigned i,nl=0,got;
  verbose=0;
  for(i=0;i<ROWS;i++){ PT[i]=MX[i]; t[i]=vp_u32() & ((1u<<(COLS%32))-1);
    MX[i][0]=((comb[i]&1)?W0[0]:0)^((comb[i]&2)?W0[1]:0);
#if COLS>64
    MX[i][1]=((comb[i]&1)?W1[0]:0)^((comb[i]&2)?W1[1]:0);
#endif
    MX[i][WORDS-1]=t[i];
    if(i>=2) left[nl++] = t[i] ^ ((comb[i]&1)?t[0]:0) ^ ((comb[i]&2)?t[1]:0); }
  got = binary_rank(PT,ROWS,COLS);
  VP_ASSERT(got==2+rank_ref(left,nl,32),"the rank of a bit matrix is the number of linearly independent rows");
  VP_WITNESS("end");
}
#endif
#endif
#ifdef H_RANKTEST
#define K_VTEST
#define MAXG (TS*MROWS+1)
#include "kern.h"
static unsigned nr; static int RK[TS]; static int mat_ok=1;
int binary_rank(uint **m,int mrows,int ncols){
  unsigned i; int r=vp_u8(); VP_ASSUME(r>=0 && r<=MROWS); 
  VP_ASSERT(mrows==MROWS && ncols==MCOLS,"matrix size");
  for(i=0;i<MROWS;i++) mat_ok &= (((m[i][0]^G[nr*MROWS+i]) & (MCOLS==32?0xffffffffu:((1u<<MCOLS)-1)))==0);
  VP_ASSERT(ng==(nr+1)*MROWS,"every matrix is made of fresh numbers");
  RK[nr++]=r; return r; }
static const double PROB[]={PROBS};   /* of the pooled lowest rank, then upwards */
VP_ENTRY(h_ranktest){
  Test **t=k_test(TS); unsigned i,k;
  TESTFN(t,IRUN);
  VP_ASSERT(nr==TS && mat_ok,"one matrix of consecutive numbers per sample");
  k_pvalues(1);
  for(k=0;k<ENV[0];k++){ unsigned c=0; for(i=0;i<TS;i++){ unsigned b = RK[i]<LOW?LOW:RK[i]; if(b==k) c++; }
    VP_ASSERT(EX[0][k]==(double)c,"every matrix is counted once, in the bin of its rank"); 
    VP_ASSERT(k<LOW ? EY[0][k]==0.0 : near(EY[0][k],TS*PROB[k-LOW],2e-6*TS),"expected counts follow the rank distribution of random bit matrices"); }
  VP_ASSERT(ENV[0]==MROWS+1 && EDOF[0]==0,"bins up to full rank");
  VP_WITNESS("end");
}
#endif
