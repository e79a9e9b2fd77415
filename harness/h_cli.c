/* C18: the command line sets exactly the named run parameters */
#include "dieharder.h"
#undef exit
/* ---- model of getopt (POSIX, short options, separate or attached arguments) ---- */
char *vp_optarg; int vp_optind=1,vp_opterr=1,vp_optopt; static int pos;
int vp_getopt(int argc,char *const *argv,const char *opts){
  const char *a; int c; unsigned i;
  if(pos==0){ if(vp_optind>=argc) return -1; a=argv[vp_optind]; if(a[0]!='-' || a[1]==0) return -1; pos=1; }
  a=argv[vp_optind]; c=a[pos++];
  for(i=0;opts[i]!=0 && !(opts[i]==c && c!=':');i++);
  vp_optarg=0;
  if(opts[i]==0){ vp_optopt=c; if(a[pos]==0){ vp_optind++; pos=0; } return '?'; }
  if(opts[i+1]==':'){
    if(a[pos]!=0) vp_optarg=(char*)a+pos; else { vp_optind++; if(vp_optind>=argc){ pos=0; vp_optopt=c; return '?'; } vp_optarg=argv[vp_optind]; }
    vp_optind++; pos=0; return c; }
  if(a[pos]==0){ vp_optind++; pos=0; }
  return c;
}
/* whole numbers: an argument written as # in the query stands for any number; its text is 9000ii
 * and its value the arbitrary NV[ii] (the digit conversion itself is libc's) */
static long NV[32];
long vp_strtol(const char *s,char **e,int base){
  unsigned i=0,d0; long v=0; int neg=0;
  if(s[i]=='-'){ neg=1; i++; } else if(s[i]=='+') i++;
  for(d0=i;s[i]>='0' && s[i]<='9';i++) v=v*10+(s[i]-'0');
  if(i==d0) i=0;
  if(e) *e=(char*)s+i;
  if(v/100==9000) v=NV[(v%100)&31];
  return neg?-v:v;
}
/* decimal fractions: the conversion is libc's, its result here an arbitrary number per argument */
static double DV[4]; 
double vp_strtod(const char *s,char **e){ unsigned i=0,k=3; while(s[i]!=0){ if(i==0 && s[0]>='A' && s[0]<='C') k=s[0]-'A'; i++; } if(e) *e=(char*)s+i; return DV[k]; }
static int ended,usage_,vers,lt,lr,fl; 
static char *AV[]={ARGS,0};
#define AC ((int)(sizeof(AV)/sizeof(AV[0]))-1)
#ifndef ARGW
#define ARGW 24
#endif
static char FLAT[AC*ARGW];
#define BUF_(i) (FLAT+(i)*ARGW)
typedef struct { unsigned all,fromfile,ks_test,output_file,output_format,gvcount,help_flag,iterations,list,ntuple,overlap,psamples,Seed,tflag,verbose,Xtrategy,Xstep,Xoff; off_t tsamples; int dtest_num; double multiply_p,strategy,Xweak,Xfail,x_user,y_user,z_user; char sep; } st_t;
static void snap(st_t *s){
#define G(f) s->f=f;
#define ALLF G(all) G(fromfile) G(ks_test) G(output_file) G(output_format) G(gvcount) G(help_flag) G(iterations) G(list) G(ntuple) G(overlap) G(psamples) G(Seed) G(tflag) G(verbose) G(Xtrategy) G(Xstep) G(Xoff) G(tsamples) G(dtest_num) G(multiply_p) G(strategy) G(Xweak) G(Xfail) G(x_user) G(y_user) G(z_user)
  ALLF s->sep=table_separator; }
#undef G
static st_t e,g; static const char *e_dname="",*e_fname="",*e_gname[4]={"","","",""}; static unsigned e_gnum[4]; static int e_gn[4];
static long num(int i){ return vp_strtol(BUF_(i),0,10); }
static int same(const char *a,const char *b){ unsigned i; for(i=0;a[i]!=0 && a[i]==b[i];i++); return a[i]==b[i]; }
static void expect(void){ EXPECT; }
static int want_stop;
static void stop(const char *why){
  ended=1;
  VP_ASSERT(want_stop,"a legal command line is accepted");
#ifdef STOP_
  VP_WITNESS("stopped");
#endif
#ifdef VP_NATIVE
  exit(0);
#else
  __CPROVER_assume(0);
#endif
}
void vp_exit(int c){ stop("exit"); }
void Exit(int c){ stop("Exit"); }
void Usage(void){ usage_=1; stop("usage"); }
void dh_version(void){ vers=1; } void list_tests(void){ lt=1; } void list_rngs(void){ lr=1; } void dh_header(void){} void help(void){ stop("help"); }
VP_ENTRY(h_cli){
  int i; unsigned j; static char *argv[AC+1];
  for(i=0;i<4;i++){ DV[i]=vp_double(); VP_ASSUME(DV[i]>=0.0 && DV[i]<=1e6); }
  for(i=0;i<AC;i++){ unsigned o=0; for(j=0;AV[i][j]!=0;j++){ char c=AV[i][j];
      if(c=='#'){ NV[i]=vp_u32();
#ifdef LIMIT
        VP_ASSUME(NV[i]<=LIMIT);
#else
        VP_ASSUME(NV[i]<=2147483647);
#endif
        FLAT[i*ARGW+o++]='9'; FLAT[i*ARGW+o++]='0'; FLAT[i*ARGW+o++]='0'; FLAT[i*ARGW+o++]='0'; FLAT[i*ARGW+o++]='0'+i/10; FLAT[i*ARGW+o++]='0'+i%10; }
      else FLAT[i*ARGW+o++]=c; }
    FLAT[i*ARGW+o]=0; argv[i]=BUF_(i); }
  set_globals(); generator=0; snap(&e);
  /* defaults every run relies on */
  VP_ASSERT(e.all==0 && e.dtest_num==-1 && e.fromfile==0 && e.ks_test==0 && e.output_file==0 && e.output_format==1 && e.multiply_p==1.0 && e.gvcount==0 && e.help_flag==0 && e.list==0 && e.ntuple==0 && e.overlap==1 && e.psamples==0 && e.Seed==0 && e.tsamples==0 && e.verbose==0 && e.Xtrategy==0 && e.Xstep==100 && e.Xoff==100000 && e.Xweak==0.005 && e.Xfail==0.000001 && e.strategy==0 && e.x_user==0 && e.y_user==0 && e.z_user==0 && e.sep=='|',"documented defaults");
  VP_ASSERT(gnumbs[0]==13 && gnames[0][0]==0 && dtest_name[0]==0 && filename[0]==0,"documented defaults");
  VP_ASSERT(tflag_default==(THEADER|TSHOW_RNG|TLINE_HEADER|TTEST_NAME|TNTUPLE|TPSAMPLES|TTSAMPLES|TPVALUES|TASSESSMENT|TRATE|TSEED),"default output flags");
  e.tflag=tflag_default; e_gnum[0]=13;
#ifdef STOP_
  want_stop=1;
#endif
  expect();
  parsecl(AC,argv);
#ifdef STOP_
  VP_ASSERT(0,"an ill-formed command line is refused");
#else
  snap(&g);
#define G(f) VP_ASSERT(g.f==e.f,"the option sets " #f " and nothing else changes it");
  ALLF
#undef G
  VP_ASSERT(g.sep==e.sep,"table separator");
  VP_ASSERT(same(dtest_name,e_dname),"test name"); VP_ASSERT(same(filename,e_fname),"file name");
  for(i=0;i<4;i++){ VP_ASSERT(same(gnames[i],e_gname[i]),"generator names in order"); if(e_gn[i] || i==0) VP_ASSERT(gnumbs[i]==e_gnum[i],"generator numbers in order"); }
  VP_WITNESS("end");
#endif
}

#ifdef DN
/* every output flag name selects its own flag */
static const char *const DNAME[]={"header","show_rng","line_header","test_name","ntuple","tsamples","psamples","pvalues","assessment","prefix","description","histogram","seed","rate","show_num","no_whitespace","psample_values","file_rng_stat"};
static const unsigned DFLAG[]={THEADER,TSHOW_RNG,TLINE_HEADER,TTEST_NAME,TNTUPLE,TTSAMPLES,TPSAMPLES,TPVALUES,TASSESSMENT,TPREFIX,TDESCRIPTION,THISTOGRAM,TSEED,TRATE,TNUM,TNO_WHITE,TPSAMPLE_VALS,TFILE_RNG_STAT};
VP_ENTRY(h_dnames){
  int k; char a0[4]="dh",a1[4]="-D",a2[24]; char *argv[4]; unsigned j;
  argv[0]=a0; argv[1]=a1; argv[2]=a2; argv[3]=0;
  for(k=DN;k<DN+6;k++){ for(j=0;DNAME[k][j]!=0;j++) a2[j]=DNAME[k][j]; a2[j]=0;
    vp_optind=1; pos=0; set_globals(); generator=0; parsecl(3,argv);
    VP_ASSERT(tflag==DFLAG[k],"the named output flag is selected, and only it");
    VP_ASSERT(DFLAG[k]==1u<<k,"documented flag number"); }
  VP_WITNESS("end");
}
#endif
