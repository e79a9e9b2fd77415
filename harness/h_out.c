/* C07 exported number streams, C13 report table */
#include "dieharder.h"
#include "sink.h"
static sink_t got, want;
static unsigned long seeds[4]; static unsigned nseeds;
static uint32_t G[16]; static double U[16]; static unsigned ng,nu;
static void t_set(void *s,unsigned long v){ if(nseeds<4) seeds[nseeds]=v; nseeds++; }
static unsigned long t_get(void *s){ uint32_t v=vp_u32(); VP_ASSERT(ng<16,"draws"); G[ng++]=v; return v; }
static double t_dbl(void *s){ double v=vp_double(); VP_ASSUME(v>=0.0 && v<=1.0); VP_ASSERT(nu<16,"draws"); U[nu++]=v; return v; }
static const gsl_rng_type T = {"testgen",0xffffffffUL,0,8,t_set,t_get,t_dbl};
static uint64_t rs; static unsigned nrs;
unsigned long random_seed(void){ rs=vp_u32(); nrs++; return rs; }
#ifdef H_OUTRNDS
static void ck(void){ VP_ASSERT(sink_same(&got,&want),"exported stream has exactly the documented header and the generator's numbers in order"); }
static int inf; 
void sink_fwrite_hook(void){
  if(inf && got.n==4*5){                  /* endless binary export: check a prefix, then stop */
    unsigned i,b; for(i=0;i<5;i++) for(b=0;b<4;b++) VP_ASSERT(got.val[4*i+b]==((G[i]>>(8*b))&0xff),"endless export writes the generator's numbers in order");
#if FMT==0 && NS==0
    VP_WITNESS("prefix");
#endif
#ifdef VP_NATIVE
    _Exit(0);
#else
    __CPROVER_assume(0);
#endif
  }
}
VP_ENTRY(h_export){
  unsigned i,b; unsigned long S=SEEDED;
  rng=gsl_rng_alloc(&T); nseeds=0; verbose=0;
  Seed = SEEDED ? (S=vp_u32()) : 0; if(SEEDED) VP_ASSUME(Seed!=0);
  output_format=FMT; tsamples=NS; inf = (FMT==0 && NS==0);
  if(TOFILE){ filename[0]='o'; filename[1]='u'; filename[2]='t'; sink_file=&got; }
  else { if(TOFILE==0 && DASH) filename[0]='-'; sink_out=&got; }
  output_rnds();
  VP_ASSERT(!inf,"endless export does not end by itself");
  VP_ASSERT(nseeds==1,"the generator is seeded once, before the first number");
  VP_ASSERT(SEEDED ? (seed==S && nrs==0) : (seed==rs && nrs==1),"the given seed, or else one fresh random seed, is used");
  VP_ASSERT(seeds[0]==seed,"the generator is seeded with the seed reported");
  if(TOFILE) VP_ASSERT(sink_file_open && sink_file_closed && sink_file_name==filename,"the named file is written and closed");
  if(FMT){
    sink_print(&want,"#==================================================================\n");
    sink_print(&want,"# generator %s  seed = %lu\n","testgen",seed);
    sink_print(&want,"#==================================================================\n");
    sink_print(&want,"type: %c\ncount: %lu\nnumbit: 32\n",FMT==1?'d':'f',(unsigned long)NS);
  }
  for(i=0;i<NS;i++){
    if(FMT==0) for(b=0;b<4;b++) sink_byte(&want,(G[i]>>(8*b))&0xff);
    if(FMT==1) sink_print(&want,"%10u\n",G[i]);
    if(FMT==2) sink_print(&want,"%0.10f\n",U[i]);
  }
  VP_ASSERT(FMT==2 ? (nu==NS && ng==0) : (ng==NS && nu==0),"exactly the requested count of numbers is drawn");
  ck();
#if !(FMT==0 && NS==0)
  VP_WITNESS("end");
#endif
}
#endif

#ifdef H_REPORT
uint file_rewinds; off_t file_rtot;
uint file_input_get_rewind_cnt(gsl_rng *r){ return file_rewinds; }
off_t file_input_get_rtot(gsl_rng *r){ return file_rtot; }
static void rule(void){ sink_print(&want,"#=============================================================================#\n"); }
static unsigned field; static void sep(void){ if(field) sink_print(&want,"%c",table_separator); field++; }
static void spec_line_header(void){
  int nw = !!(tflag & TNO_WHITE);
  field=0;
  if(tflag & THEADER) rule();
  if(tflag & TPREFIX){ sep(); sink_print(&want,"0"); }
  if(tflag & TTEST_NAME){ sep(); sink_print(&want,nw?"test_name":"        test_name   "); }
  if(tflag & TNUM){ sep(); sink_print(&want,"num"); }
  if(tflag & TNTUPLE){ sep(); sink_print(&want,"ntup"); }
  if(tflag & TTSAMPLES){ sep(); sink_print(&want,nw?"tsamples":" tsamples "); }
  if(tflag & TPSAMPLES){ sep(); sink_print(&want,"psamples"); }
  if(tflag & TPVALUES){ sep(); sink_print(&want,nw?"p-value":"  p-value "); }
  if(tflag & TASSESSMENT){ sep(); sink_print(&want,"Assessment"); }
  if((tflag & TSEED) && strategy){ sep(); sink_print(&want,nw?"Seed":"    Seed  "); }
  sink_print(&want,"\n");
  if(tflag & THEADER) rule();
}
static void spec_rng_info(void){
  int nw = !!(tflag & TNO_WHITE);
  if(tflag & TLINE_HEADER){
    if(tflag & TPREFIX) sink_print(&want,"0%c",table_separator);
    sink_print(&want,nw?"rng_name%c":"   rng_name    %c",table_separator);
    if(tflag & TNUM) sink_print(&want,"num%c",table_separator);
    if(fromfile) sink_print(&want,nw?"filename%c":"           filename             %c",table_separator);
    if(tflag & TRATE) sink_print(&want,"rands/second%c",table_separator);
    if((tflag & TSEED) && strategy==0 && !fromfile) sink_print(&want,nw?"Seed%c":"   Seed   %c",table_separator);
    sink_print(&want,"\n");
  }
  if(tflag & TPREFIX) sink_print(&want,"1%c",table_separator);
  sink_print(&want,nw?"%s%c":"%15s%c",gsl_rng_name(rng),table_separator);
  if(tflag & TNUM) sink_print(&want,nw?"%d%c":"%3d%c",generator,table_separator);
  if(fromfile) sink_print(&want,nw?"%s%c":"%32s%c",filename,table_separator);
  if(tflag & TRATE) sink_print(&want,nw?"%.2e%c":"%10.2e  %c",rng_rands_per_second,table_separator);
  if((tflag & TSEED) && strategy==0 && !fromfile) sink_print(&want,nw?"%lu%c":"%10lu%c",seed,table_separator);
  sink_print(&want,"\n");
}
static void spec_result(Dtest *d,Test **t,unsigned i){
  int nw = !!(tflag & TNO_WHITE); double p=t[i]->ks_pvalue; unsigned k;
  field=0;
  if(tflag & TPREFIX){ sep(); sink_print(&want,"2"); }
  if(tflag & TTEST_NAME){ sep(); sink_print(&want,nw?"%s":"%20.20s",d->sname); }
  if(tflag & TNUM){ sep(); sink_print(&want,nw?"%d":"%3d",dtest_num); }
  if(tflag & TNTUPLE){ sep(); sink_print(&want,nw?"%u":"%4u",t[i]->ntuple); }
  if(tflag & TTSAMPLES){ sep(); sink_print(&want,nw?"%u":"%10u",t[i]->tsamples); }
  if(tflag & TPSAMPLES){ sep(); sink_print(&want,nw?"%u":"%8u",t[i]->psamples); }
  if(tflag & TPVALUES){ sep(); sink_print(&want,"%10.8f",p); }
  if(tflag & TASSESSMENT){
    int failed = p < Xfail || p > 1.0-Xfail, weak = p < Xweak || p > 1.0-Xweak;
    sep();
    if(failed) sink_print(&want,nw?"FAILED":"  FAILED  ");
    else if(weak) sink_print(&want,nw?"WEAK":"   WEAK   ");
    else sink_print(&want,nw?"PASSED":"  PASSED  ");
  }
  if((tflag & TSEED) && strategy){ sep(); sink_print(&want,nw?"%lu":"%10lu",seed); }
  if(tflag & TPSAMPLE_VALS){
    sink_print(&want,"\n"); rule(); sink_print(&want,"#                          Values of test p-values                            #\n"); rule();
    for(k=0;k<t[i]->psamples;k++) sink_print(&want,"%c%10.8f%c\n",table_separator,t[i]->pvalues[k],table_separator);
    rule();
  }
  sink_print(&want,"\n");
}
static const unsigned MASKS[] = { MASKLIST };
static Dtest D = {"long name","a_test_name","descr\n",0,0,NKPS,0,0};
static Test T1[NKPS], *TP[NKPS]; static double PV[NKPS][2];
VP_ENTRY(h_report){
  unsigned m,i;
  rng=gsl_rng_alloc(&T); verbose=0; sink_out=&got; fromfile=0;
  Xweak=vp_double(); Xfail=vp_double(); VP_ASSUME(Xfail>=0.0 && Xfail<=1.0 && Xweak>=0.0 && Xweak<=1.0);
  seed=vp_u32(); dtest_num=vp_range(0,999); generator=vp_range(0,999); table_separator=SEPC; strategy=STRAT; rng_rands_per_second=vp_double();
  if(FROMFILE){ fromfile=1; filename[0]='f'; filename[1]='n'; }
  { uint32_t nt=vp_range(0,1000), ts=vp_u32();
  for(i=0;i<NKPS;i++){
    T1[i].nkps=NKPS; T1[i].ntuple=nt; T1[i].tsamples=ts; T1[i].psamples=2; T1[i].pvalues=PV[i]; TP[i]=&T1[i];
    T1[i].ks_pvalue=vp_double(); VP_ASSUME(T1[i].ks_pvalue>=0.0 && T1[i].ks_pvalue<=1.0);
    PV[i][0]=vp_double(); PV[i][1]=vp_double(); } }
  for(m=0;m<sizeof MASKS/sizeof MASKS[0];m++){
    tflag=MASKS[m];
    sink_reset(&got); sink_reset(&want);
    output(&D,TP);
    if(m==0){
      if(tflag & TSHOW_RNG) spec_rng_info();
      if(tflag & TLINE_HEADER) spec_line_header();
    }
    if(tflag & TDESCRIPTION) sink_print(&want,"descr\n");
    for(i=0;i<NKPS;i++) spec_result(&D,TP,i);
    VP_ASSERT(sink_same(&got,&want),"each statistic is reported on one line with exactly the requested columns, its own values and the verdict its p-value implies");
  }
  VP_WITNESS("end");
}
/* the histogram shows every p-value once, in its bin */
VP_ENTRY(h_histo){
  static double v[3]; unsigned i,j,bin[10],mx=0; unsigned vs=1;
  for(i=0;i<10;i++) bin[i]=0;
  for(i=0;i<3;i++){ /* any value at least 1e-9 away from an inner bin edge */
    v[i]=vp_double(); VP_ASSUME(v[i]>=0.0 && v[i]<=1.0);
    for(j=1;j<10;j++) VP_ASSUME(v[i]<j*0.1-1e-9 || v[i]>j*0.1+1e-9);
    for(j=0;j<10;j++) bin[j] += (j==0 || v[i]>j*0.1) && (j==9 || v[i]<(j+1)*0.1); }
  verbose=0; sink_out=&got; psamples=100;
  output_histogram(v,"x",3,0.0,1.0,10,"p");
  rule(); sink_print(&want,"#                         Histogram of test p-values                          #\n"); rule();
  sink_print(&want,"# Bin scale = %f\n",0.1);
  for(i=20;i>0;i--){
    if(i%2==0) sink_print(&want,"#  %5d|",i); else sink_print(&want,"#       |");
    for(j=0;j<10;j++) if(bin[j]>=i) sink_print(&want,"****|"); else sink_print(&want,"    |");
    sink_print(&want,"\n");
  }
  sink_print(&want,"#       |--------------------------------------------------\n#       |");
  for(i=0;i<10;i++) sink_print(&want,"%4.1f|",(i+1)*0.1);
  sink_print(&want,"\n"); rule();
  VP_ASSERT(sink_same(&got,&want),"the histogram shows every p-value exactly once, in the bin it falls into");
  VP_WITNESS("end");
}
/* default thresholds: a p-value in the middle passes, beyond the documented limits it is flagged */
VP_ENTRY(h_defaults){
  double p=vp_double(); static sink_t s; int v;
  VP_ASSUME(p>=0.0 && p<=1.0);
  rng=gsl_rng_alloc(&T);
  set_globals();
  VP_ASSERT(Xweak==0.005 && Xfail==0.000001,"documented default thresholds");
  VP_WITNESS("end");
}
#endif
