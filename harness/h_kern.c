/* C22: statistical test kernels: fresh numbers, every sample counted once. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#ifndef SQRT
#define SQRT(a) (sq_arg=(a),sq_ret)
#endif
static double sq_arg,sq_ret=7.5;
double vp_sqrt(double a){ sq_arg=a; return sq_ret; }
static double ipow(double a,int n){ double r=1; int i; for(i=0;i<n;i++) r*=a; return r; }
double vp_pow(double a,double b){ return ipow(a,(int)b); }
#define K_VTEST
#define K_XTEST
#ifdef NGRAB
#define MAXG NGRAB
#endif
#include "kern.h"
static unsigned ones(uint32_t v){ unsigned n=0,i; for(i=0;i<32;i++) n+=(v>>i)&1; return n; }
#ifdef H_MONOBIT
VP_ENTRY(h_monobit){
  Test **t=k_test(TS); unsigned i,c=0; rmax_bits=WIDTH; rmax_mask=GMASK;
  sts_monobit(t,IRUN);
  VP_ASSERT(ng==TS,"one number per sample");
  for(i=0;i<TS;i++) c+=ones(G[i]);
  k_pvalues(1);
  VP_ASSERT(XX[0]==2.0*c-(double)WIDTH*TS && XY[0]==0.0,"the statistic is ones minus zeros over all bits drawn");
  VP_ASSERT(sq_arg==(double)WIDTH*TS && XS[0]==sq_ret,"its deviation is the root of the number of bits");
  VP_WITNESS("end");
}
#endif
#ifdef H_RUNS
VP_ENTRY(h_runs){
  Test **t=k_test(TS); unsigned i,c=0,o=0; double p; rmax_bits=32;
  sts_runs(t,IRUN);
  VP_ASSERT(ng==TS,"one number per sample");
  for(i=0;i<TS;i++) o+=ones(G[i]);
  for(i=0;i<32*TS;i++){ unsigned j=(i+1)%(32*TS); unsigned a=(G[i/32]>>(31-i%32))&1,b=(G[j/32]>>(31-j%32))&1; c+=a!=b; }
  k_pvalues(1);
  VP_ASSERT(XX[0]==(double)c,"the statistic is the number of changes around the ring of all bits");
  p=(double)o*(1.0/(32*TS));
  VP_ASSERT(XY[0]==64.0*TS*(p*(1.0-p)),"its expectation follows from the fraction of ones");
  VP_ASSERT(sq_arg==32.0*TS,"deviation from the number of bits");
  VP_WITNESS("end");
}
#endif
#ifdef H_LAG
VP_ENTRY(h_lag){
  Test **t=k_test(TS); unsigned i; double s=0; ntuple=LAG;
  rgb_lagged_sums(t,IRUN);
  VP_ASSERT(ng==TS*(LAG+1),"LAG numbers are skipped before each one used");
  for(i=0;i<TS;i++) s+=G[i*(LAG+1)+LAG]/4294967296.0;
  k_pvalues(1);
  VP_ASSERT(KTEST[0].ntuple==LAG,"the lag reported is the one used");
  VP_ASSERT(XX[0]==s && XY[0]==TS*0.5,"the statistic is the sum of the numbers used");
  VP_ASSERT(near(sq_arg,TS/12.0,1e-12) && XS[0]==sq_ret,"its deviation is that of a sum of uniforms");
  VP_WITNESS("end");
}
#endif
#ifdef H_PERM
double gsl_sf_fact(unsigned int n){ double r=1; unsigned i; for(i=2;i<=n;i++) r*=i; return r; }
gsl_permutation *gsl_permutation_alloc(const size_t n){ gsl_permutation *p=malloc(sizeof *p); p->size=n; p->data=malloc(n*sizeof(size_t)); return p; }
void gsl_permutation_init(gsl_permutation *p){ size_t i; for(i=0;i<p->size;i++) p->data[i]=i; }
int gsl_permutation_memcpy(gsl_permutation *d,const gsl_permutation *s){ size_t i; for(i=0;i<s->size;i++) d->data[i]=s->data[i]; return 0; }
void gsl_permutation_free(gsl_permutation *p){ free(p->data); free(p); }
int gsl_permutation_next(gsl_permutation *p){ size_t n=p->size,i=n-1,j,a,b,t; while(i>0 && p->data[i-1]>p->data[i]) i--; if(i==0) return -1;
  for(j=n-1;p->data[j]<p->data[i-1];j--); t=p->data[j]; p->data[j]=p->data[i-1]; p->data[i-1]=t;
  for(a=i,b=n-1;a<b;a++,b--){ t=p->data[a]; p->data[a]=p->data[b]; p->data[b]=t; } return 0; }
void gsl_sort_index(size_t *p,const double *d,const size_t stride,const size_t n){ size_t i,j; for(i=0;i<n;i++) p[i]=i;
  for(i=1;i<n;i++) for(j=i;j>0;j--) if(d[p[j-1]*stride]>d[p[j]*stride]){ size_t t=p[j]; p[j]=p[j-1]; p[j-1]=t; } }
int gsl_permutation_fprintf(FILE *f,const gsl_permutation *p,const char *s){ return 0; }
VP_ENTRY(h_perm){
  Test **t=k_test(TS); unsigned i,j,np=1,tie=0,same=1; double sum=0,sq=0; ntuple=NT;
  for(i=2;i<=KK;i++) np*=i;
  rgb_permutations(t,IRUN);
  VP_ASSERT(ng==TS*KK,"KK fresh numbers per sample");
  k_pvalues(1);
  VP_ASSERT(ENV[0]==np && KTEST[0].ntuple==KK,"one bin per ordering");
  for(i=0;i<np;i++){ VP_ASSERT(near(EY[0][i],(double)TS/np,1e-9),"all orderings are equally likely"); sum+=EX[0][i]; sq+=EX[0][i]*EX[0][i]; }
  VP_ASSERT(sum==(double)TS,"every sample is counted exactly once");
  for(i=0;i<KK;i++) for(j=0;j<i;j++){ tie |= G[i]==G[j] || G[KK+i]==G[KK+j]; same &= (G[i]<G[j])==(G[KK+i]<G[KK+j]); }
  if(!tie) VP_ASSERT(sq==(same?4.0:2.0),"two samples share a bin exactly when their orderings agree");
  VP_WITNESS("end");
}
#endif
#ifdef H_CRAPS
static unsigned R[64],nr;
unsigned long gsl_rng_uniform_int(const gsl_rng *r,unsigned long n){ unsigned v; VP_ASSERT(n==6,"dice have six faces"); 
#ifdef LONG_
  v = nr==0 ? 1 : nr==1 ? 1 : (nr<2+2*(LONG_-1)) ? ((nr&1)?2:1) : vp_u8()%6;     /* point 4, then LONG_-1 throws of 5 */
#else
  v=vp_u8()%6;
#endif
  VP_ASSUME(nr<MAXR); R[nr++]=v+1; return v; }
VP_ENTRY(h_craps){
  Test **t=k_test(TS); unsigned i,k=0,w=0,h[21]; double y,s;
  diehard_craps(t,IRUN);
  for(i=0;i<21;i++) h[i]=0;
  for(i=0;i<TS;i++){ unsigned p,n=0,d; p=R[k]+R[k+1]; k+=2; 
    if(p==7||p==11) w++; else if(!(p==2||p==3||p==12)) for(;;){ n++; d=R[k]+R[k+1]; k+=2; if(k>MAXR) break; if(d==7) break; if(d==p){ w++; break; } }
    h[n>20?20:n]++; }
  VP_ASSERT(k==nr,"every game is played with fresh throws, to its end");
  k_pvalues(2);
  VP_ASSERT(XX[0]==(double)w,"wins are counted by the rules of craps");
  VP_ASSERT(near(XY[0],TS*244.0/495.0,1e-9) && near(sq_arg,TS*244.0/495.0*251.0/495.0,1e-9) && XS[0]==sq_ret,"expected wins");
  VP_ASSERT(ENV[1]==21 && EDOF[1]==0 && ECUT[1]==5.0,"21 bins");
  s=0; for(i=0;i<21;i++){ y = i==0?1.0/3: i==20?1.0-s: (27.0*ipow(.75,i-1)+40.0*ipow(13.0/18,i-1)+55.0*ipow(25.0/36,i-1))/648.0; s+=y;
    VP_ASSERT(EX[1][i]==(double)h[i],"every game is counted once, by its number of throws");
    VP_ASSERT(near(EY[1][i],TS*y,1e-9),"expected game lengths"); }
  VP_WITNESS("end");
}
#endif
#ifdef H_GCD
VP_ENTRY(h_gcd){
  Test **t=k_test(TS); unsigned i,k=0,hk[41],hg[16]; sq_ret=5.5;
  marsaglia_tsang_gcd(t,IRUN);
  for(i=0;i<41;i++) hk[i]=0; for(i=0;i<16;i++) hg[i]=0;
  for(i=0;i<TS;i++){ unsigned u,v,n=0,w; do u=G[k++]; while(u==0 && k<MAXG); do v=G[k++]; while(v==0 && k<MAXG); if(v==0) return;
    for(;n<9;){ w=u%v; u=v; v=w; n++; if(v==0) break; }
    hk[n]++; hg[u>4?4:u]++; }
  VP_ASSERT(k==ng,"two fresh non-zero numbers per sample");
  k_pvalues(2);
  VP_ASSERT(ENV[0]==41 && ENV[1]==5,"table sizes");
  for(i=0;i<12;i++) VP_ASSERT(EX[0][i]==(double)hk[i],"every pair is counted once by its number of steps");
  for(i=0;i<5;i++) VP_ASSERT(EX[1][i]==(i<2?0.0:(double)hg[i]),"every pair is counted once by its greatest common divisor");
  for(i=2;i<4;i++) VP_ASSERT(near(EY[1][i],TS*0.6079271018540267/(i*i),1e-9),"expected divisors");
  VP_WITNESS("end");
}
#endif
#ifdef H_BITDIST
unsigned long gsl_rng_uniform_int(const gsl_rng *r,unsigned long n){ unsigned v=vp_u8(); VP_ASSERT(n==(1u<<NB),"one of the patterns is chosen"); v&=(1u<<NB)-1; set_to=v; return v; }
double gsl_ran_binomial_pdf(unsigned int k,double p,unsigned int n){ VP_ASSERT(p==1.0/(1<<NB) && n==BS,"binomial expectation"); return 0.125*(k+1); }
VP_ENTRY(h_bitdist){
  Test **t=k_test(TS); unsigned i,b,s,v; ntuple=NB;
  rgb_bitdist(t,IRUN);
  VP_ASSERT(n_eval==(1u<<NB),"one evaluation per pattern");
  VP_ASSERT(ng==(TS*BS*NB+31)/32,"exactly the bits needed are drawn");
  for(v=0;v<(1u<<NB);v++){ unsigned h[BS+1]; for(b=0;b<=BS;b++) h[b]=0;
    for(s=0;s<TS;s++){ unsigned c=0; for(i=0;i<BS;i++){ unsigned pos=(s*BS+i)*NB,x=(G[pos/32]>>(32-NB-pos%32))&((1u<<NB)-1); c+=x==v; } h[c]++; }
    for(b=0;b<=BS;b++){ VP_ASSERT(EX[v][b]==(double)h[b],"every sample is counted once per pattern, by how often the pattern occurs in it"); VP_ASSERT(EY[v][b]==TS*0.125*(b+1),"binomial expectation"); } }
  VP_ASSERT(KPV[0][IRUN]==PV[set_to] && KPV[0][0]==-7.0 && KPV[0][IRUN+1]==-7.0,"the p-value of the chosen pattern is stored in this run's slot");
  VP_WITNESS("end");
}
#endif
#ifdef H_SQUEEZE
#ifndef LIM
#define LIM 48
#endif
static double U[64]; static unsigned nu;
double gsl_rng_uniform(const gsl_rng *r){ double u; VP_ASSUME(nu<64);
  if(nu<FREE) { u=vp_range(0,15)/16.0; } else u=LATER; U[nu++]=u; return u; }
VP_ENTRY(h_squeeze){
  Test **t=k_test(1); unsigned i; long k=2147483647; unsigned j=0; double tot=0;
  diehard_squeeze(t,IRUN);
  while(k!=1 && j<LIM){ double x=k*U[j]; long c=(long)x; if((double)c<x) c++; k=c; j++; }
  VP_ASSERT(nu==j,"one number per step, until 1 is reached or 48 steps are done");
  k_pvalues(1);
  for(i=0;i<43;i++){ VP_ASSERT(EX[0][i]==((j<6?6:j)-6==i?1.0:0.0),"the sample is counted once, by its number of steps"); tot+=EY[0][i]; }
  VP_ASSERT(ENV[0]==43 && near(tot,1.0,1e-6),"bins cover all step numbers");
  VP_WITNESS("end");
}
#endif
#ifdef H_C1S
#define LET(b) (ones(b)<3?0:ones(b)>5?4:ones(b)-2)
VP_ENTRY(h_c1s){
  Test **t=k_test(TS); unsigned i,k,h1[5],h2[25],c=0; unsigned L[64];
  TESTFN(t,IRUN);
#ifdef BYTE_
  VP_ASSERT(ng==5*TS,"five fresh numbers per sample");
  for(i=0;i<TS;i++) for(k=0;k<5;k++) L[i*5+k]=LET((G[i*5+k]>>(i%32))&255);
#else
  VP_ASSERT(ng==1+(TS+3)/4,"every byte of every number is used");
  for(i=0;i<4+TS;i++) L[i]=LET((G[i/4]>>(8*(i%4)))&255);
#endif
  for(i=0;i<5;i++) h1[i]=0; for(i=0;i<25;i++) h2[i]=0;
  for(i=0;i<TS;i++){
#ifdef BYTE_
    unsigned a=L[i*5+4],b=L[i*5+3];
#else
    unsigned a=L[4+i],b=L[3+i];
#endif
    h1[a]++; h2[b*5+a]++; }
  VP_ASSERT(n_eval==3 && ENV[0]==5 && ENV[1]==25,"two word lengths");
  for(i=0;i<5;i++) VP_ASSERT(EX[0][i]==(double)h1[i],"every word is counted once (shorter words)");
  for(i=0;i<25;i++) VP_ASSERT(EX[1][i]==(double)h2[i],"every word is counted once (longer words)");
  VP_ASSERT(XY[2]==2500.0 && KPV[0][IRUN]==PV[2] && KPV[0][0]==-7.0 && KPV[0][IRUN+1]==-7.0,"the p-value of the difference is stored");
  VP_WITNESS("end");
}
#endif
