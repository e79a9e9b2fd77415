/* C14 run control (reseeding, stop rules), C15 p-value bookkeeping */
#include "dieharder.h"
#ifdef H_EXEC
/* observed life cycle of one test execution */
static Dtest D = {"n","s","d",0,0,NKPS,0,0};
static Test T1[NKPS], *TP[NKPS];
static unsigned created,destroyed,runs,outs,nset,nreset; static int order_ok=1;
static uint64_t set_to, rs; static unsigned nrs;
#ifndef UNIT
#define UNIT (1u<<12)
#endif
/* p-values and thresholds are multiples of 1/UNIT: every arithmetic way of
 * forming the distance to 0 or 1 is then exact, and the oracle is integer */
static uint32_t ct,cp,P[NKPS],iXfail,iXweak;
static int stop_expected;          /* what the rules say after the latest run */
static int seeded_before_create;
void reset_bit_buffers(void){ nreset++; }
unsigned long random_seed(void){ rs=vp_u32(); nrs++; return rs; }
static void t_set(void *s,unsigned long v){ nset++; set_to=v; }
static unsigned long t_get(void *s){ return 0; } static double t_dbl(void *s){ return 0; }
static const gsl_rng_type T = {"testgen",0xffffffffUL,0,8,t_set,t_get,t_dbl};
Test **create_test(Dtest *d,uint ts,uint ps){ unsigned i; order_ok &= (d==&D && created==0); created++; ct=ts; cp=ps; seeded_before_create = nset;
  for(i=0;i<NKPS;i++){ TP[i]=&T1[i]; T1[i].psamples=vp_u32(); T1[i].ks_pvalue=0; } return TP; }
static uint32_t PS;
void std_test(Dtest *d,Test **t){
  unsigned i; uint32_t ps=vp_u32();
  order_ok &= (d==&D && t==TP && created==1 && destroyed==0 && outs==runs);
  VP_ASSERT(!stop_expected || runs==0,"no further samples are taken once the stop rule is met");
  if(runs>=ROUNDS){ VP_ASSERT(0,"no further samples are taken once the stop rule is met"); VP_ASSUME(0); }
  runs++;
  for(i=0;i<NKPS;i++){ P[i]=vp_u32(); VP_ASSUME(P[i]<=UNIT); T1[i].ks_pvalue=P[i]*(1.0/UNIT); T1[i].psamples=ps; }
  /* what the documented rules say about this round */
  { int anyfail=0,anyweak=0,capped = ps>=Xoff;
    for(i=0;i<NKPS;i++){ uint32_t q = P[i]<=UNIT-P[i] ? P[i] : UNIT-P[i]; if(q<iXfail) anyfail=1; if(q<iXweak) anyweak=1; }
    if(Xtrategy==1) stop_expected = anyfail || !anyweak || capped;
    else if(Xtrategy==2) stop_expected = anyfail || capped;
    else stop_expected = 1;
    if(runs==ROUNDS) VP_ASSUME(stop_expected);
  }
}
void output(Dtest *d,Test **t){ order_ok &= (d==&D && t==TP && outs+1==runs && destroyed==0); outs++; }
void destroy_test(Dtest *d,Test **t){ order_ok &= (d==&D && t==TP && outs==runs && runs>0 && destroyed==0); destroyed++; }
void vp_exit(int c){ VP_ASSERT(0,"a known test is run, not refused");
#ifdef VP_NATIVE
 _Exit(0);
#else
 __CPROVER_assume(0); while(1);
#endif
}
VP_ENTRY(h_exec){
  unsigned long s0=vp_u32(); uint32_t ts=vp_u32(),ps=vp_u32();
  rng=gsl_rng_alloc(&T); nset=0; verbose=0;
  dh_test_types[5]=&D; dtest_num=5; tsamples=ts; psamples=ps;
  iXfail=vp_u32(); iXweak=vp_u32(); VP_ASSUME(iXfail>0 && iXfail<=iXweak && iXweak<UNIT/2); Xfail=iXfail*(1.0/UNIT); Xweak=iXweak*(1.0/UNIT);
  Xoff=vp_u32(); Xtrategy=XTRAT;
  strategy=STRAT; Seed=SEEDED?vp_u32():0; VP_ASSUME(!SEEDED||Seed!=0); seed=s0;
  run_test();
  VP_ASSERT(order_ok && created==1 && destroyed==1 && outs==runs && runs>=1,"each test is created, run, reported after every round, and released, in this order");
  VP_ASSERT(ct==ts && cp==ps,"the requested sample sizes reach the test");
  VP_ASSERT(stop_expected,"sampling continues until the stop rule is met");
  if(XTRAT==0) VP_ASSERT(runs==1,"without a multi-round mode a test is run once");
  if(STRAT){
    VP_ASSERT(nset==1 && seeded_before_create==1,"the generator is reseeded once, before the test");
    VP_ASSERT(nreset==1,"no bits of the old stream survive the reseeding");
    VP_ASSERT(SEEDED ? (set_to==Seed && nrs==0) : (nrs==1 && set_to==rs),"reseeding uses the given seed, else a fresh random seed");
    VP_ASSERT(seed==set_to,"the seed reported is the seed used");
  } else VP_ASSERT(nset==0 && nrs==0 && seed==s0,"without reseeding strategy the stream just continues");
  VP_WITNESS("end");
}
#endif

#ifdef H_STD
static unsigned ncalls,next_run; static int seq_ok=1; static Test **cur;
static double PVAL[NKPS][MAXP]; static unsigned total;
static int t_test(Test **t,int irun){
  unsigned k;
  seq_ok &= (t==cur && irun==(int)next_run); next_run++; ncalls++;
  VP_ASSERT(irun<MAXP,"run index in range");
  for(k=0;k<NKPS;k++){ PVAL[k][irun]=vp_double(); t[k]->pvalues[irun]=PVAL[k][irun]; }
  return 0;
}
static unsigned kcalls,kuip; static double KR[8]; static unsigned kstat[8];
static double record(double *pv,int n,int kuiper){
  unsigned k,j; static const double RV[4]={KRV}; static unsigned rc; double r=RV[rc++&3];
  VP_ASSERT(n==(int)total,"the final p-value is computed from all p-values accumulated so far");
  VP_ASSERT(kcalls<NKPS,"one final p-value per statistic and round");
  for(j=0;j<MAXP;j++) if(j<total){ uint64_t a,b; memcpy(&a,&pv[j],8); memcpy(&b,&PVAL[kcalls][j],8); VP_ASSERT(a==b,"no p-value is lost, altered or moved"); }
  KR[kcalls++]=r; kuip+=kuiper; return r;
}
double kstest(double *pv,int n){ return record(pv,n,0); }
double kstest_kuiper(double *pv,int n){ return record(pv,n,1); }
static Dtest D = {"n","s","d",PSTD,0,NKPS,t_test,0};
static unsigned cap(unsigned n){ return (XTRAT && n>XOFF) ? XOFF : n; }
VP_ENTRY(h_std){
  Test **t; unsigned k,round; uint32_t ts=vp_u32(),tstd=vp_u32(); unsigned n;
  verbose=0; D.tsamples_std=tstd; all=ALL; multiply_p=MULT; Xtrategy=XTRAT; Xoff=XOFF; Xstep=XSTEP; ks_test=vp_u32();
  tsamples=ts; psamples=PSAMP;
  t=create_test(&D,ts,PSAMP); cur=t;
  n = (ALL||PSAMP==0) ? (unsigned)(PSTD*MULT) : PSAMP; if(n<1) n=1;
  for(k=0;k<NKPS;k++){
    VP_ASSERT(t[k]->tsamples==((ALL||ts==0)?tstd:ts),"sample count: the standard one when running everything or when none is given");
    VP_ASSERT(t[k]->psamples==n,"p-value count: the standard one times the multiplier (at least 1) when running everything or when none is given");
    VP_ASSERT(t[k]->ks_pvalue==0.0 && t[k]->ntuple==0,"a new test starts clean");
  }
  total=0;
  for(round=0;round<ROUNDS;round++){
    unsigned old=total; total = cap(total + (round==0?n:XSTEP)); kcalls=0; kuip=0;
    std_test(&D,t);
    VP_ASSERT(seq_ok && ncalls==total,"every repetition runs exactly once, in order, into its own slot");
    VP_ASSERT(kcalls==NKPS,"every statistic gets a final p-value");
    VP_ASSERT(kuip==(ks_test>=3?NKPS:0),"the requested kind of final test is used");
    for(k=0;k<NKPS;k++){ VP_ASSERT(t[k]->ks_pvalue==KR[k],"the final p-value is the one computed for this statistic"); VP_ASSERT(t[k]->psamples==total,"the count reported is the number of p-values used"); }
    (void)old;
  }
  destroy_test(&D,t);
  VP_WITNESS("end");
}
#endif
