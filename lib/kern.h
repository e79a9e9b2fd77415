/* Fixture for statistical test kernels: scripted symbolic generator, recorded
 * evaluation calls (chi-square vector, normal statistic, KS ...).           */
#ifndef KERN_H
#define KERN_H
#include <dieharder/libdieharder.h>
#ifndef MAXG
#define MAXG 256
#endif
#ifndef MAXV
#define MAXV 64
#endif
static uint32_t G[MAXG]; static unsigned ng;
#ifndef GMASK
#define GMASK 0xffffffffu
#endif
static int k_replay; static unsigned k_rp;
static unsigned long k_get(void *s){
  if(k_replay) return G[k_rp++];      /* second pass over the numbers drawn */
  {
  uint32_t v = vp_u32();
#ifdef K_ASSUME
  K_ASSUME(v,ng);
#endif
  v &= GMASK;
#ifdef K_MASK
  v &= K_MASK(ng);
#endif
#ifndef K_NOLIMIT
  VP_ASSERT(ng<MAXG,"the test draws no more numbers than its samples need");
#endif
  VP_ASSUME(ng<MAXG);
  G[ng++] = v; return v;
  }
}
static unsigned nset; static unsigned long set_to;
static void k_set(void *s,unsigned long v){ nset++; set_to=v; }
#ifndef K_UNIFORM
#define K_UNIFORM(v) ((v)/4294967296.0)
#endif
static double k_dbl(void *s){ return K_UNIFORM(k_get(s)); }
static const gsl_rng_type KT = {"kern",GMASK,0,8,k_set,k_get,k_dbl};
static gsl_rng KR = {&KT,0};
/* recorded evaluations */
static unsigned n_eval; static double PV[16];
static double EX[8][MAXV],EY[8][MAXV]; static unsigned ENV[8],EDOF[8]; static double ECUT[8];
static double XX[8],XY[8],XS[8]; static unsigned XN[8];
static double k_pv(void){ double p=vp_double(); VP_ASSUME(p>=0.0 && p<=1.0); PV[n_eval]=p; n_eval++; return p; }
#ifdef K_VTEST
void Vtest_create(Vtest *v,unsigned int n){ unsigned i; v->x=malloc(n*sizeof(double)); v->y=malloc(n*sizeof(double)); for(i=0;i<n;i++){ v->x[i]=0.0; v->y[i]=0.0; }
  v->nvec=n; v->ndof=0; v->chisq=0.0; v->pvalue=0.0; v->cutoff=5; }
void Vtest_destroy(Vtest *v){ free(v->x); free(v->y); }
void Vtest_eval(Vtest *v){ unsigned i; VP_ASSERT(n_eval<8 && v->nvec<=MAXV,"harness capacity"); 
  for(i=0;i<v->nvec;i++){ EX[n_eval][i]=v->x[i]; EY[n_eval][i]=v->y[i]; }
  ENV[n_eval]=v->nvec; EDOF[n_eval]=v->ndof; ECUT[n_eval]=v->cutoff; v->pvalue=k_pv(); }
#endif
#ifdef K_XTEST
void Xtest_eval(Xtest *x){ VP_ASSERT(n_eval<8,"harness capacity"); XX[n_eval]=x->x; XY[n_eval]=x->y; XS[n_eval]=x->sigma; XN[n_eval]=x->npts; x->pvalue=k_pv(); }
#endif
#ifndef NKPS
#define NKPS 1
#endif
#ifndef IRUN
#define IRUN 1
#endif
static Test KTEST[NKPS],*KTP[NKPS]; static double KPV[NKPS][IRUN+2];
static Test **k_test(unsigned tsamples){
  unsigned i; for(i=0;i<NKPS;i++){ KTP[i]=&KTEST[i]; KTEST[i].tsamples=tsamples; KTEST[i].psamples=IRUN+2; KTEST[i].pvalues=KPV[i]; KTEST[i].ntuple=0; KPV[i][0]=-7.0; KPV[i][IRUN]=-7.0; KPV[i][IRUN+1]=-7.0; }
  rng=&KR; rmax_bits=32; rmax_mask=0xffffffffu; verbose=0; ng=0; n_eval=0;
  return KTP; }
static void k_pvalues(unsigned n){ unsigned i; VP_ASSERT(n_eval==n,"one evaluation per statistic");
  for(i=0;i<NKPS && i<n;i++) VP_ASSERT(KPV[i][IRUN]==PV[i] && KPV[i][0]==-7.0 && KPV[i][IRUN+1]==-7.0,"the p-value evaluated is stored in this run's slot, no other is touched"); }
static int near(double a,double b,double tol){ double d=a-b; if(d<0) d=-d; return d<=tol; }
#endif
