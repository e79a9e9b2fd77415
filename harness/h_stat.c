/* C16/C17: the statistics behind the p-values.  The distribution functions
 * themselves (GSL, Kolmogorov) are recording stand-ins. */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "vp.h"
#include <dieharder/libdieharder.h>
static int close_(double a,double b){ double d; if(a==b) return 1; d=a-b; if(d<0) d=-d; return d<=1e-9; }
double vp_sqrt(double a){ unsigned i; if(a==3.0) return 1.7320508075688772; if(a==7.0) return 2.6457513110645907; for(i=0;i<=100;i++) if(a==(double)i*i) return i; return vp_double(); }
static unsigned nq; static double qa,qx,qp;
double gsl_sf_gamma_inc_Q(const double a,const double x){ nq++; qa=a; qx=x; qp=vp_double(); VP_ASSUME(qp>=0.0 && qp<=1.0); return qp; }
double gsl_sf_gamma_inc_P(const double a,const double x){ return 1.0-gsl_sf_gamma_inc_Q(a,x); }
double gsl_cdf_chisq_Q(const double x,const double nu){ return gsl_sf_gamma_inc_Q(nu/2,x/2); }
static unsigned ngs; static double ga,gs,gp;
double gsl_cdf_gaussian_P(const double a,const double s){ ngs++; ga=a; gs=s; gp=vp_double(); VP_ASSUME(gp>=0.0 && gp<=1.0); return gp; }
double gsl_cdf_gaussian_Q(const double a,const double s){ return gsl_cdf_gaussian_P(-a,s); }
#ifdef H_VTEST
/* expected counts YV (powers of two), cutoff CUT; every observed count below 2^XB */
static const double Y[]={YV};
#define NB ((int)(sizeof(Y)/sizeof(Y[0])))
VP_ENTRY(h_vtest){
  Vtest v; int i,cnt=0; unsigned given; long xs[16]; long X=0; double T=0; long acc=0; /* chi-square times 2*YMAX */
  verbose=0;
  Vtest_create(&v,NB);
  VP_ASSERT(v.nvec==NB && v.ndof==0 && v.cutoff==5.0,"a new test has the documented defaults");
  for(i=0;i<NB;i++) VP_ASSERT(v.x[i]==0.0 && v.y[i]==0.0,"a new test starts from zero counts");
  given = vp_bool() ? vp_range(1,50) : 0;
  v.cutoff=CUT; v.ndof=given;
  for(i=0;i<NB;i++){ xs[i]=vp_u8() & ((1<<XB)-1); v.x[i]=(double)xs[i]; v.y[i]=Y[i]; }
  for(i=0;i<NB;i++) if(Y[i]>=CUT){ long d=xs[i]-(long)Y[i]; acc+=d*d*(long)(YMAX/Y[i]); cnt++; } else { X+=xs[i]; T+=Y[i]; }
  if(T>=CUT && T>0){ long d=X-(long)T; acc+=d*d*(long)(YMAX/T); cnt++; }
  Vtest_eval(&v);
  VP_ASSERT(v.chisq==(double)acc*(1.0/YMAX),"chi-square is the sum over the counted bins and the pooled tail of (x-y)^2/y");
  VP_ASSERT(v.ndof==(given?given:(unsigned)(cnt-1)),"degrees of freedom are those given, else one less than the number of bins counted");
  VP_ASSERT(nq==1 && v.pvalue==qp,"the p-value is the incomplete gamma function's");
  VP_ASSERT(qa==(double)v.ndof/2.0 && qx==v.chisq*0.5,"p = Q(ndof/2, chi-square/2)");
  Vtest_destroy(&v);
  VP_WITNESS("end");
}
#endif
#ifdef H_XTEST
VP_ENTRY(h_xtest){
  Xtest x; double a=vp_double(),b=vp_double(),s=vp_double();
  VP_ASSUME(a>=-1e12 && a<=1e12 && b>=-1e12 && b<=1e12 && s>0 && s<=1e12);
  verbose=0; x.npts=1; x.p=0; x.x=a; x.y=b; x.sigma=s; x.pvalue=-1;
  Xtest_eval(&x);
  VP_ASSERT(ngs==1 && x.pvalue==gp,"the p-value is the normal distribution's");
  VP_ASSERT(ga==b-a && gs==s,"p = P(expected - observed; sigma)");
  VP_ASSERT(x.x==a && x.y==b && x.sigma==s,"the statistic is left alone");
  VP_WITNESS("end");
}
#endif
#ifdef H_CHISQ
double chisq_geometric(unsigned int *observed,double prob,int kmax,unsigned int nsamp);
static const double PD[]={PDF};        /* powers of two */
#define NB ((int)(sizeof(PD)/sizeof(PD[0])))
static double want_par; static int pdf_ok=1; static unsigned want_n;
double gsl_ran_poisson_pdf(unsigned int k,double mu){ pdf_ok &= mu==want_par && k<NB; return PD[k<NB?k:0]; }
double gsl_ran_geometric_pdf(unsigned int k,double p){ pdf_ok &= p==want_par && k>=1 && k<=NB; return PD[(k>=1 && k<=NB)?k-1:0]; }
double gsl_ran_binomial_pdf(unsigned int k,double p,unsigned int n){ pdf_ok &= p==want_par && n==want_n && k<NB; return PD[k<NB?k:0]; }
VP_ENTRY(h_chisq){
  int i,cnt=0; unsigned o[16]; double od[16],ed[16]; long acc=0; double p;
  verbose=0;
  want_par=vp_double(); VP_ASSUME(want_par>0 && want_par<100);
  want_n=NB-1;
  for(i=0;i<NB;i++){ o[i]=vp_u8() & ((1<<XB)-1); od[i]=o[i]; ed[i]=NS*PD[i]; }
  for(i=0;i<NB;i++){ long d=(long)o[i]-(long)ed[i];
#if KIND==3
    if(o[i]<=10) continue;
#endif
    acc+=d*d*(long)(YMAX/ed[i]); cnt++; }
#if KIND==0
  p=chisq_poisson(o,want_par,NB,NS);
#elif KIND==1
  p=chisq_geometric(o,want_par,NB,NS);
#elif KIND==2
  p=chisq_pearson(od,ed,NB);
#else
  VP_ASSUME(cnt>1);
  p=chisq_binomial(od,want_par,NB-1,NS);
#endif
  VP_ASSERT(pdf_ok,"expected counts come from the distribution and parameter given");
  VP_ASSERT(nq==1 && p==qp,"the p-value is the incomplete gamma function's");
  VP_ASSERT(qx==(double)acc*(0.5/YMAX),"chi-square is the sum of (x-y)^2/y over the bins");
  VP_ASSERT(qa==(cnt-1)/2.0,"one degree of freedom less than bins");
  VP_WITNESS("end");
}
#endif
#ifdef H_KS
void gsl_sort(double *d,const size_t stride,const size_t n){
  size_t i,j; for(i=1;i<n;i++) for(j=i;j>0;j--) if(d[(j-1)*stride]>d[j*stride]){ double t=d[j*stride]; d[j*stride]=d[(j-1)*stride]; d[(j-1)*stride]=t; } }
static unsigned n_new,n_q,n_k; static int kn; static double kd,kp;
double p_ks_new(int n,double d){ n_new++; kn=n; kd=d; kp=vp_double(); VP_ASSUME(kp>=0.0 && kp<=1.0); return kp; }
double q_ks(double x){ n_q++; kd=x; kp=vp_double(); VP_ASSUME(kp>=0.0 && kp<=1.0); return kp; }
double q_ks_kuiper(double x,int count){ n_k++; kn=count; kd=x; kp=vp_double(); VP_ASSUME(kp>=0.0 && kp<=1.0); return kp; }
static double SV[16],PV[16];
static void mk(void){ int i,j; verbose=0;
#ifdef GRID     /* p-values on a grid: all sums are exact */
  for(i=0;i<NP;i++) PV[i]=(double)vp_range(0,GRID)*(1.0/GRID);
#else
  for(i=0;i<NP;i++){ double p=vp_double(); VP_ASSUME(p>=0.0 && p<=1.0); PV[i]=p; }
#endif
#ifdef UNSORTED   /* which arrangement: any */
#else
  for(i=1;i<NP;i++) VP_ASSUME(PV[i-1]<=PV[i]);
#endif
  for(i=0;i<NP;i++) SV[i]=PV[i];
  for(i=1;i<NP;i++) for(j=i;j>0;j--) if(SV[j-1]>SV[j]){ double t=SV[j]; SV[j]=SV[j-1]; SV[j-1]=t; } }
VP_ENTRY(h_ks){
  double p,d=0.0; int i; mk(); 
  ks_test=vp_range(0,2);
  p=kstest(PV,NP);
#if NP==0
  VP_ASSERT(p==-1.0,"no p-values: no verdict");
#elif NP==1
  VP_ASSERT(p==SV[0],"a single p-value is its own verdict");
#else
  for(i=1;i<=NP;i++){ double e=fabs(SV[i-1]-i/(NP+1.0)); if(e>d) d=e; }
  VP_ASSERT(n_new+n_q==1 && p==kp,"the Kolmogorov distribution is evaluated once and returned");
  if(n_q){ VP_ASSERT(ks_test==0 && NP>KMAX,"the asymptotic form is used for large samples only, and not when precision was asked for");
    VP_ASSERT(close_(kd,(vp_sqrt(NP)+0.12+0.11/vp_sqrt(NP))*d),"the asymptotic form gets the scaled statistic"); }
  else { VP_ASSERT(ks_test!=0 || NP<=KMAX,"the exact form is used for small samples and when precision was asked for");
    VP_ASSERT(kn==NP && close_(kd,d),"the statistic is the largest distance of the sorted p-values from i/(n+1)"); }
#endif
  VP_WITNESS("end");
}
VP_ENTRY(h_kuiper){
  double p,hi=0.0,lo=0.0; int i; mk();
  p=kstest_kuiper(PV,NP);
#if NP==1
  VP_ASSERT(p==SV[0],"a single p-value is its own verdict");
#else
  for(i=0;i<NP;i++){ double e=SV[i]-(double)i/NP; if(e>hi) hi=e; else if(e<lo) lo=e; }
  VP_ASSERT(n_k==1 && p==kp && kn==NP,"Kuiper's distribution is evaluated once and returned");
  VP_ASSERT(close_(kd,(vp_sqrt(NP)+0.155+0.24/vp_sqrt(NP))*(fabs(hi)+fabs(lo))),"Kuiper's distribution gets the scaled range of the distances");
#endif
  VP_WITNESS("end");
}
#endif
