/* C25: missing-word, spacing, distance, byte and serial tests. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
static double sq_arg,sq_ret=7.5,ex_arg; static unsigned n_exp;
static double ipow(double a,int n){ double r=1; int i; for(i=0;i<n;i++) r*=a; return r; }
double vp_pow(double a,double b){ if(a==2.0 && b>=0 && b<63) return (double)(1ull<<(int)b); return ipow(a,(int)b); }
#ifdef SQTAB
/* exact roots of the few squared distances the grid allows: i*(QS*QS) */
static const double SQT[]={0.0,1.0,1.4142135623730951,1.7320508075688772,2.0,2.23606797749979,2.449489742783178,0,2.8284271247461903,3.0,3.1622776601683795,3.3166247903554,3.4641016151377544};
double vp_sqrt(double a){ unsigned i; for(i=0;i<13;i++) if(a==i*(QS*QS)) return QS*SQT[i]; VP_ASSUME(0); return 0; }
#else
double vp_sqrt(double a){ sq_arg=a; return sq_ret; }
#endif
#define K_VTEST
#define K_XTEST
#include "kern.h"
static unsigned ones(uint32_t v){ unsigned n=0,i; for(i=0;i<32;i++) n+=(v>>i)&1; return n; }
#ifdef H_OPSO
VP_ENTRY(h_opso){
  Test **t=k_test(TS); unsigned i,a,b,n=0; unsigned char used[4][4];
  diehard_opso(t,IRUN);
  VP_ASSERT(ng==TS+(TS&1),"two fresh numbers for every two words");
  for(a=0;a<4;a++) for(b=0;b<4;b++) used[a][b]=0;
  for(i=0;i<TS;i++){ unsigned s=(i&1)?10:0; used[(G[i&~1u]>>s)&3][(G[i|1]>>s)&3]=1; }
  for(a=0;a<4;a++) for(b=0;b<4;b++) n+=!used[a][b];
  k_pvalues(1);
  VP_ASSERT(XX[0]==(double)n,"the statistic is the number of words that never occurred");
  VP_ASSERT(near(XY[0],141909.3299550069,1e-6) && near(XS[0],290.4622634038,1e-6),"documented mean and deviation");
  VP_WITNESS("end");
}
#endif
#ifdef H_OQSO
VP_ENTRY(h_oqso){
  Test **t=k_test(TS); unsigned i,k,n=0; unsigned char used[16];
  diehard_oqso(t,IRUN);
  VP_ASSERT(ng==4*((TS+5)/6),"four fresh numbers for every six words");
  for(i=0;i<16;i++) used[i]=0;
  for(i=0;i<TS;i++){ unsigned c=0; for(k=0;k<4;k++) c=2*c+((G[4*(i/6)+k]>>(5*(i%6)))&1); used[c]=1; }
  for(i=0;i<16;i++) n+=!used[i];
  k_pvalues(1);
  VP_ASSERT(XX[0]==(double)n,"the statistic is the number of words that never occurred");
  VP_ASSERT(near(XY[0],141909.6005321316,1e-6) && near(XS[0],294.6558723658,1e-6),"documented mean and deviation");
  VP_WITNESS("end");
}
#endif
#ifdef H_OPSO2
VP_ENTRY(h_opso2){
  Test **t=k_test(100); unsigned i,n1=0,n2=0; uint32_t w1=0,w2=0; rmax_bits=RB;
  dab_opso2(t,IRUN);
#if RB<24
  VP_ASSERT(ng==0 && n_eval==0 && KPV[0][IRUN]==0.5 && KPV[1][IRUN]==0.5,"generators that are too narrow are not judged");
#else
  VP_ASSERT(ng==4 && KTEST[0].tsamples==4,"one number per sample");
  for(i=0;i<4;i++){ unsigned s=(i&1)?2:0,k=(((G[i&~1u]>>s)&3)<<2)|((G[i|1]>>s)&3); w1|=1u<<(G[i]%32); w2|=1u<<k; }
  for(i=0;i<32;i++){ n1+=!((w1>>i)&1); n2+=!((w2>>i)&1); }
  k_pvalues(2);
  VP_ASSERT(XX[0]==(double)n1,"patterns within words that never occurred");
  VP_ASSERT(XX[1]==(double)n2,"patterns in pairs of words that never occurred");
  for(i=0;i<2;i++) VP_ASSERT(near(XY[i],307285.393182468,1e-6) && near(XS[i],528.341514924662,1e-9),"documented mean and deviation");
#endif
  VP_WITNESS("end");
}
#endif
#ifdef H_BSTREAM
VP_ENTRY(h_bstream){
  Test **t=k_test(TS); unsigned i,n=0; unsigned char used[16];
  diehard_bitstream(t,IRUN);
  for(i=0;i<16;i++) used[i]=0;
  /* overlapping windows: the stream is the numbers' bits, first bit first; the first byte is skipped */
  for(i=0;i<TS;i++){ unsigned k,c=0,p; for(k=0;k<4;k++){ p=8+i+k; c=2*c+((G[p/32]>>(31-p%32))&1); } used[c]=1; }
  for(i=0;i<16;i++) n+=!used[i];
  k_pvalues(1);
  VP_ASSERT(XX[0]==(double)n,"the statistic is the number of words that never occurred");
  VP_ASSERT(XY[0]==141909.0 && XS[0]==428.0,"documented mean and deviation");
  VP_WITNESS("end");
}
#endif
#ifdef H_DNA
VP_ENTRY(h_dna){
  Test **t=k_test(TS);
  diehard_dna(t,IRUN);
  VP_ASSERT(ng>=10*(TS/32) && ng<=10*((TS+31)/32)+11,"ten fresh numbers for every 32 words");
  k_pvalues(1);
  VP_ASSERT(XX[0]==0.0,"a word that occurred is not counted as missing");
  VP_ASSERT(near(XY[0],141910.4026047629,1e-6) && near(XS[0],337.2901506904,1e-6),"documented mean and deviation");
  VP_WITNESS("end");
}
#endif
#ifdef H_BDAY
#define HB (KM+2)
/* own sort and distributions */
void gsl_sort_uint(unsigned int *d,const size_t st,const size_t n){ size_t i,j; for(i=1;i<n;i++) for(j=i;j>0;j--) if(d[(j-1)*st]>d[j*st]){ unsigned x=d[j*st]; d[j*st]=d[(j-1)*st]; d[(j-1)*st]=x; } }
static double pl; double gsl_ran_poisson_pdf(unsigned int k,double mu){ pl=mu; return k<KM?6.0:0.0; }
static unsigned CN[HB]; static double CL; static int CK,CNS; static unsigned ncall;
double chisq_poisson(unsigned int *obs,double lam,int kmax,unsigned int ns){ int i; VP_ASSERT(kmax<=HB,"harness capacity"); for(i=0;i<HB;i++) CN[i]= i<kmax?obs[i]:0; CL=lam; CK=kmax; CNS=ns; ncall++; return k_pv(); }
VP_ENTRY(h_bday){
  Test **t=k_test(TS); unsigned i,j,k,h[HB]; uint32_t v[TS][NM]; rmax_bits=RB; rmax_mask=RB==32?0xffffffffu:(1u<<RB)-1;
#ifdef DAB
  ntuple=NM; dab_birthdays1(t,IRUN);
  VP_ASSERT(ng==TS*NM,"one fresh number per birthday");
  for(i=0;i<TS;i++) for(j=0;j<NM;j++) v[i][j]=G[i*NM+j];
  k=RB;
#else
  reset_bit_buffers(); diehard_birthdays(t,IRUN);
  k=RB<24?RB:24;
  /* the birthdays are the successive nbits-bit pieces of the stream */
  reset_bit_buffers(); k_replay=1;
  for(i=0;i<TS;i++) for(j=0;j<NM;j++){ v[i][j]=0; get_rand_bits(&v[i][j],sizeof(uint),k,rng); }
  VP_ASSERT(k_rp==ng,"no more numbers are drawn than the birthdays have bits");
#endif
  for(i=0;i<HB;i++) h[i]=0;
  for(i=0;i<TS;i++){ unsigned rep=0,a; uint32_t d[NM]; gsl_sort_uint(v[i],1,NM);
    for(j=0;j<NM;j++) d[j]=v[i][j]-(j?v[i][j-1]:0);
    for(j=0;j<NM;j++){ unsigned before=0,after=0; for(a=0;a<NM;a++) if(a!=j && d[a]==d[j]){ if(a<j) before=1; else after=1; } rep+=after && !before; }
#ifdef ATMOST1
    VP_ASSUME(rep<=1);
#endif
    if(rep<KM+1) h[rep]++; }
  VP_ASSERT(ncall==1 && CK==KM+1 && CNS==TS,"the histogram and the number of samples are evaluated once");
  VP_ASSERT(near(CL,NM*NM*NM/(double)(1ull<<(k+2)),1e-12) && pl==CL,"the expected number of repeated spacings");
  for(i=0;i<HB;i++) VP_ASSERT(CN[i]==h[i],"every sample is counted once, by the number of spacings that occur more than once");
  VP_ASSERT(KPV[0][IRUN]==PV[0] && KPV[0][0]==-7.0 && KPV[0][IRUN+1]==-7.0,"the p-value is stored in this run's slot");
  VP_WITNESS("end");
}
#endif
#ifdef H_SERIAL
static double GP,GS,QA[8],QX[8]; static unsigned nq,ngp;
double gsl_cdf_gaussian_P(const double x,const double s){ GP=x; GS=s; ngp++; return 0.25; }
double gsl_sf_gamma_inc_Q(const double a,const double x){ VP_ASSERT(nq<8,"harness capacity"); QA[nq]=a; QX[nq]=x; nq++; return nq*0.0625; }
VP_ENTRY(h_serial){
  Test **t=k_test(TS); unsigned i,m,n=32*TS; double psi[4]; unsigned f[4][8];
  sts_serial(t,IRUN);
  VP_ASSERT(ng==TS,"one number per sample");
  psi[0]=0;
  for(m=1;m<=3;m++){ double s=0; for(i=0;i<8;i++) f[m][i]=0;
    for(i=0;i<n;i++){ unsigned k,c=0; for(k=0;k<m;k++){ unsigned p=(i+k)%n; c=2*c+((G[p/32]>>(31-p%32))&1); } f[m][c]++; }
    for(i=0;i<(1u<<m);i++) s+=(double)f[m][i]*f[m][i];
    psi[m]=(1<<m)*s/n-n; }
  VP_ASSERT(ngp==1 && nq==3,"one evaluation per statistic");
  VP_ASSERT(GP==2.0*f[1][0]-n && sq_arg==(double)n && GS==sq_ret,"single bits: zeros minus ones in units of the root of the number of bits");
  VP_ASSERT(QA[0]==1.0 && QX[0]==(psi[2]-psi[1])/2,"pairs around the ring of all bits: first difference");
  VP_ASSERT(QA[1]==2.0 && QX[1]==(psi[3]-psi[2])/2,"triples: first difference");
  VP_ASSERT(QA[2]==1.0 && QX[2]==(psi[3]-2*psi[2]+psi[1])/2,"triples: second difference");
  for(i=0;i<4;i++) VP_ASSERT(KPV[i][IRUN]==(i?i*0.0625:0.25) && KPV[i][0]==-7.0 && KPV[i][IRUN+1]==-7.0,"every p-value is stored in this run's slot of its own statistic");
  VP_WITNESS("end");
}
#endif
#ifdef H_MONO2
static double MC[4][130]; static unsigned MN[4],MS[4]; static double MP[4]; static unsigned nm;
double chisq_binomial(double *obs,double p,unsigned int kmax,unsigned int ns){ unsigned i; VP_ASSERT(nm<4 && kmax<130,"harness capacity"); for(i=0;i<=kmax;i++) MC[nm][i]=obs[i]; MN[nm]=kmax; MS[nm]=ns; MP[nm]=p; return ++nm*0.125; }
static double EP[4]; static unsigned EN;
double evalMostExtreme(double *pv,unsigned int n){ unsigned i; EN=n; for(i=0;i<n&&i<4;i++) EP[i]=pv[i]; return 0.75; }
VP_ENTRY(h_mono2){
  Test **t=k_test(TS); unsigned i,j,k; rmax_bits=RB; rmax_mask=GMASK; ntuple=NT;
  dab_monobit2(t,IRUN);
  VP_ASSERT(ng==TS,"one number per sample");
  VP_ASSERT(nm==NT && EN==NT && KTEST[0].ntuple==NT,"one evaluation per block size");
  for(j=0;j<NT;j++){ unsigned bl=2u<<j,h[130]; for(i=0;i<130;i++) h[i]=0;
    for(i=0;i+bl<=TS;i+=bl){ unsigned c=0; for(k=0;k<bl;k++) c+=ones(G[i+k]); h[c]++; }
    VP_ASSERT(MN[j]==RB*bl && MS[j]==TS/bl && MP[j]==0.5 && EP[j]==(j+1)*0.125,"binomial over the bits of a block");
    for(i=0;i<=RB*bl;i++) VP_ASSERT(MC[j][i]==(double)h[i],"every block is counted once, by its number of ones"); }
  VP_ASSERT(KPV[0][IRUN]==0.75 && KPV[0][0]==-7.0 && KPV[0][IRUN+1]==-7.0,"the p-value is stored in this run's slot");
  VP_WITNESS("end");
}
#endif
#ifdef H_BYTED
VP_ENTRY(h_byted){
  Test **t=k_test(TS); unsigned i,j,v,s; double tot=0,row; rmax_bits=RB;
  dab_bytedistrib(t,IRUN);
  VP_ASSERT(ng==3*TS,"three fresh numbers per sample");
  k_pvalues(1);
  VP_ASSERT(ENV[0]==36 && EDOF[0]==27,"bins and degrees of freedom");
  for(i=0;i<3;i++) for(j=0;j<3;j++) for(v=0;v<4;v++){ unsigned c=0,sh=j==0?0:j==1?(RB-8)/2:RB-8; for(s=0;s<TS;s++) c+=((G[3*s+i]>>sh)&3)==v;
    VP_ASSERT(EX[0][v*9+i*3+j]==(double)c,"the lowest, middle and highest byte of every number are counted once in their own table"); }
  for(i=0;i<36;i++) VP_ASSERT(EY[0][i]==TS/4.0,"all byte values are equally likely");
  VP_WITNESS("end");
}
#endif
#ifdef H_KST
static double KV[8]; static int KC,kk; double KR_[2];
double kstest(double *p,int n){ int i; kk+=1; KC=n; for(i=0;i<n&&i<8;i++) KV[i]=p[i]; return 0.25; }
double kstest_kuiper(double *p,int n){ int i; kk+=16; KC=n; for(i=0;i<n&&i<8;i++) KV[i]=p[i]; return 0.75; }
VP_ENTRY(h_kst){
  Test **t=k_test(TS); unsigned i; ks_test=KSM;
  rgb_kstest_test(t,IRUN);
  VP_ASSERT(ng==TS && KC==TS,"one fresh uniform per sample");
  for(i=0;i<TS;i++) VP_ASSERT(KV[i]==G[i]/4294967296.0,"every uniform drawn is used");
  VP_ASSERT(kk==(KSM>=3?16:1) && KPV[0][IRUN]==(KSM>=3?0.75:0.25) && KPV[0][0]==-7.0 && KPV[0][IRUN+1]==-7.0,"the selected evaluation is stored in this run's slot");
  VP_WITNESS("end");
}
#endif
#ifdef H_PARK
VP_ENTRY(h_park){
  Test **t=k_test(5); unsigned i,j,k=0; double x[NC],y[NC];
  diehard_parking_lot(t,IRUN);
  VP_ASSERT(ng==2*NC,"two fresh coordinates per attempt");
  for(i=0;i<NC;i++){ double a=100.0*K_UNIFORM(G[2*i]),b=100.0*K_UNIFORM(G[2*i+1]); int crash=0;
    for(j=0;j<k;j++){ double p=a-x[j],q=b-y[j]; if(p<0) p=-p; if(q<0) q=-q; crash|= p<=1.0 && q<=1.0; }
    if(!crash){ x[k]=a; y[k]=b; k++; } }
  k_pvalues(1);
  VP_ASSERT(XX[0]==(double)k,"the statistic is the number of cars parked without hitting a parked one");
  VP_ASSERT(XY[0]==3523.0 && near(XS[0],21.9,1e-9),"documented mean and deviation");
  VP_WITNESS("end");
}
#endif
#ifdef H_DIST
double vp_exp(double a){ ex_arg=a; n_exp++; return 0.5; }
double gsl_sf_fact(unsigned int n){ return ipow(1,0)*(n<2?1:n==2?2:6); }
double gsl_sf_doublefact(unsigned int n){ return n<2?1:n==2?2:n==3?3:n==4?8:15; }
void gsl_heapsort(void *a,size_t n,size_t sz,gsl_comparison_fn_t cmp){ char *b=a,tmp[64]; size_t i,j; for(i=1;i<n;i++) for(j=i;j>0;j--) if(cmp(b+(j-1)*sz,b+j*sz)>0){ memcpy(tmp,b+j*sz,sz); memcpy(b+j*sz,b+(j-1)*sz,sz); memcpy(b+(j-1)*sz,tmp,sz); } }
VP_ENTRY(h_dist){
  Test **t=k_test(NPT); unsigned i,j,d,m=1000; double r,e; ntuple=DIM;
  TESTFN(t,IRUN);
  VP_ASSERT(ng==NPT*DIM,"fresh coordinates for every point");
  for(i=0;i<NPT;i++) for(j=0;j<i;j++){ unsigned s=0; for(d=0;d<DIM;d++){ int q=(int)G[i*DIM+d]-(int)G[j*DIM+d]; s+=q*q; } if(s<m) m=s; }
  r=QS*SQT[m];
  VP_ASSERT(n_exp==1 && KTEST[0].ntuple==DIM,"one evaluation");
#if KIND==3
  e=-r*r*r/30.0; 
  VP_ASSERT(KPV[0][IRUN]==0.5,"p-value of the distance");
#elif KIND==2
  e=-r*r/0.995;
  VP_ASSERT(KPV[0][IRUN]==0.5,"p-value of the distance");
#else
  { double v= DIM==2?3.14159265358979323846*r*r:4.0/3*3.14159265358979323846*r*r*r, q=1.0+(2.0+(DIM==2?0.4135:0.5312))/6.0*NPT*NPT*NPT*v*v; e=-0.5*NPT*(NPT-1)*v;
    VP_ASSERT(near(KPV[0][IRUN],1.0-0.5*q,1e-9*(1+q)),"p-value with the correction for finite samples"); }
#endif
  VP_ASSERT(near(ex_arg,e,1e-9*(1-e)),"the p-value is that of the smallest distance between any two points");
  VP_ASSERT(KPV[0][0]==-7.0 && KPV[0][IRUN+1]==-7.0,"only this run's slot is written");
  VP_WITNESS("end");
}
#endif
