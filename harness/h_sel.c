/* C19: generator selection and registration */
#include "dieharder.h"
#undef exit
#ifdef H_SEL
int select_rng(int,char *,unsigned int);
/* registered generators: their seeding is logged */
typedef struct { unsigned long s; } gs_t;
static const void *cur; static unsigned long lastseed; static unsigned nset,ndraw,clk,t_lastset;
static void g_set(void *s,unsigned long v){ cur=s; lastseed=v; nset++; t_lastset=++clk; }
static unsigned long g_get(void *s){ ndraw++; clk++; return vp_u32(); }
static double g_dbl(void *s){ ndraw++; clk++; return 0.25; }
#define T(n,nm) static gsl_rng_type TY##n={nm,0,0,sizeof(gs_t),g_set,g_get,g_dbl};
T(0,"borosh13") T(1,"mt19937") T(2,"file_input_raw") T(3,"file_input") T(4,"XOR (supergenerator)") T(5,"mt19937_1999") T(6,"/dev/urandom") T(7,"")
static const int IDX[8]={0,13,201,202,207,14,500,600};
static gsl_rng_type *TV[8]={&TY0,&TY1,&TY2,&TY3,&TY4,&TY5,&TY6,&TY7};
const gsl_rng_type *gsl_rng_XOR=&TY4;
static unsigned nreset,nrseed,ntime,nlist,nout,t_time; static unsigned long RS; static int done_; static int old_freed;
void reset_bit_buffers(void){ nreset++; clk++; }
unsigned long random_seed(void){ nrseed++; return RS; }
void time_rng(void){ ntime++; t_time=++clk; VP_ASSERT(rng!=0,"the generator exists when it is timed"); }
void list_rngs(void){ nlist++; }
static int want_exit;
void output_rnds(void){ nout++; }
static void check_selected(int k,unsigned S);
static int EK; static unsigned ES;
void Exit(int c){
  if(EK<0) VP_ASSERT(nlist==1,"an unknown generator is answered with the list of generators");
  else { VP_ASSERT(output_file && nout==1,"the program ends here only after an export"); check_selected(EK,ES); }
  VP_WITNESS("exit");
#ifdef VP_NATIVE
  exit(0);
#else
  __CPROVER_assume(0);
#endif
}
static gsl_rng OLD; 
void gsl_rng_free(gsl_rng *r){ if(r==&OLD) old_freed++; }
gsl_rng *gsl_rng_alloc(const gsl_rng_type *t){ gsl_rng *r=malloc(sizeof(gsl_rng)); r->type=t; r->state=calloc(1,sizeof(gs_t)); t->set(r->state,0); return r; }
void gsl_rng_set(const gsl_rng *r,unsigned long s){ r->type->set(r->state,s); }
unsigned long gsl_rng_max(const gsl_rng *r){ return r->type->max; }
unsigned long gsl_rng_min(const gsl_rng *r){ return r->type->min; }
unsigned long gsl_rng_get(const gsl_rng *r){ return r->type->get(r->state); }
const char *gsl_rng_name(const gsl_rng *r){ return r->type->name; }
static void check_selected(int k,unsigned S){
  uint32_t m; unsigned b=0;
  VP_ASSERT(rng!=0 && rng!=&OLD && rng->type==TV[k],"the generator selected is the one asked for");
  VP_ASSERT(cur==rng->state && lastseed==(S?S:RS),"it is seeded last with the given seed, or a fresh one if none is given");
  VP_ASSERT(seed==lastseed,"the seed reported is the seed used");
  VP_ASSERT(nrseed==(S?0u:1u),"a fresh seed is drawn once, only when none is given");
  VP_ASSERT(ndraw==0,"no number is drawn after seeding");
  m=TV[k]->max; 
  VP_ASSERT(random_max==m,"declared maximum");
  while(m){ b++; m>>=1; }
  VP_ASSERT(rmax_bits==b,"number of significant bits of the generator"); VP_ASSERT(rmax_mask==(b==32?0xffffffffu:(1u<<b)-1),"mask of the significant bits");
  VP_ASSERT((tflag&TRATE)?(ntime==1 && t_time<t_lastset):ntime==0,"timed only on request, and seeded after the timing");
#ifdef HAVE_OLD
  VP_ASSERT(old_freed==1 && nreset>=1,"the previous generator and its buffered bits are discarded");
#endif
}
static int same(const char *a,const char *b){ unsigned i; for(i=0;a[i]!=0 && a[i]==b[i];i++); return a[i]==b[i]; }
VP_ENTRY(h_sel){
  unsigned i,k; int r; uint32_t n;
  for(i=0;i<8;i++){ dh_rng_types[IDX[i]]=TV[i]; }
  verbose=0; gvcount=1; Seed=vp_u32(); RS=vp_u32(); tflag=vp_u32(); fromfile=vp_bool();
#ifdef HAVE_OLD
  rng=&OLD; OLD.type=TV[0]; OLD.state=malloc(8);
#endif
#ifdef NAME
  strcpy(gnames[0],NAME); n=gnumbs[0]=vp_range(0,999); EK=-1;
  for(i=0;i<7;i++) if(same(NAME,TV[i]->name)) EK=i;
#else
#ifdef NUM
  n=gnumbs[0]=NUM;
#else
  n=gnumbs[0]=vp_u32();
#endif
  EK=-1;
  for(i=0;i<7;i++) if(n==IDX[i]) EK=i;
#endif
  for(i=0;i<8;i++){ uint32_t m=vp_u32(); VP_ASSUME(m>0); TV[i]->max=m; }
  if((EK==2||EK==3) && !fromfile) EK=-1;
  if(EK==4) EK=-1;   /* the XOR generator needs components */
#ifdef XORSEL
  /* components by number and by name */
  gvcount=XORSEL; gnumbs[0]=207; EK=4; gnumbs[1]=vp_u32(); strcpy(gnames[2],XNAME2); 
#if XORSEL==1
  EK=-1;
#endif
#if XORSEL>=2
  { int ok=0; for(i=0;i<8;i++) if(gnumbs[1]==IDX[i] && i!=4) ok=1; if(!ok) EK=-1; }
#endif
  { int ok=0; for(i=0;i<7;i++) if(same(XNAME2,TV[i]->name) && i!=4) ok=IDX[i]+1; if(XORSEL>=3 && !ok) EK=-1;
#endif
  ES=Seed; output_file=0;
#ifdef CHOOSE
  output_file=vp_bool(); nset=0; choose_rng();
  VP_ASSERT(EK>=0 && !output_file && nlist==0 && nout==0,"the run continues only with a valid generator and no export");
  check_selected(EK,ES);
#else
  r=select_rng(generator,generator_name,Seed);
  VP_ASSERT((r==0)==(EK>=0),"a registered generator is accepted, anything else refused");
  if(r!=0){ VP_ASSERT(r<0,"refusal is reported by a negative result");
#ifdef HAVE_OLD
    VP_ASSERT(rng==&OLD && old_freed==0,"a refused selection leaves the current generator alone");
#else
    VP_ASSERT(rng==0,"a refused selection leaves the current generator alone");
#endif
  } else { check_selected(EK,ES); 
#ifdef XORSEL
    if(XORSEL>=3) VP_ASSERT(gnumbs[2]==ok-1,"components given by name are found by name");
#endif
  }
#endif
#ifdef XORSEL
  }
#endif
#ifndef NOEND
  VP_WITNESS("end");
#endif
}
#endif
#ifdef H_REG
/* registry */
static int OPENOK[3]; static unsigned nopen,nclose;
FILE *vp_fopen(const char *n,const char *m){ int k=-1; nopen++; if(strcmp(n,"/dev/random")==0) k=0; if(strcmp(n,"/dev/urandom")==0) k=1; if(strcmp(n,"/dev/arandom")==0) k=2;
  VP_ASSERT(k>=0,"only the entropy devices are probed"); return k>=0 && OPENOK[k] ? (FILE*)&OPENOK[k] : 0; }
int vp_fclose(FILE *f){ nclose++; return 0; }
int vp_access(const char *n,int m){ int k=-1; if(strcmp(n,"/dev/random")==0) k=0; if(strcmp(n,"/dev/urandom")==0) k=1; if(strcmp(n,"/dev/arandom")==0) k=2; return k>=0 && OPENOK[k] ? 0 : -1; }
static gsl_rng_type TT[25]; static const gsl_rng_type *GT[5]={&TT[19],&TT[20],&TT[21],&TT[22],0};
const gsl_rng_type **gsl_rng_types_setup(void){ return GT; }
#define N(i,n) const gsl_rng_type *n=&TT[i];
N(0,gsl_rng_stdin_input_raw) N(1,gsl_rng_file_input_raw) N(2,gsl_rng_file_input) N(3,gsl_rng_ca) N(4,gsl_rng_uvag) N(5,gsl_rng_aes) N(6,gsl_rng_threefish) N(7,gsl_rng_XOR) N(8,gsl_rng_kiss) N(9,gsl_rng_superkiss)
N(10,gsl_rng_r_wichmann_hill) N(11,gsl_rng_r_marsaglia_mc) N(12,gsl_rng_r_super_duper) N(13,gsl_rng_r_mersenne_twister) N(14,gsl_rng_r_knuth_taocp) N(15,gsl_rng_r_knuth_taocp2) N(16,gsl_rng_dev_random) N(17,gsl_rng_dev_urandom) N(18,gsl_rng_dev_arandom)
VP_ENTRY(h_reg){
  unsigned i,h=0; const gsl_rng_type *e[600];
  for(i=0;i<3;i++) OPENOK[i]=vp_bool();
  dh_rng_types[17]=dh_rng_types[210]=dh_rng_types[501]=dh_rng_types[503]=dh_rng_types[999]=&TT[24];
  for(i=0;i<2;i++){ /* also when called again by a user interface */
    dieharder_rng_types(); }
  for(i=0;i<4;i++) VP_ASSERT(dh_rng_types[i]==GT[i],"GSL generators keep their GSL numbers");
  for(i=0;i<10;i++) VP_ASSERT(dh_rng_types[200+i]==&TT[i],"documented numbers of the dieharder generators");
  for(i=0;i<6;i++) VP_ASSERT(dh_rng_types[400+i]==&TT[10+i],"documented numbers of the R generators");
  for(i=0;i<3;i++) if(OPENOK[i]){ VP_ASSERT(dh_rng_types[500+h]==&TT[16+i],"existing entropy devices are numbered from 500"); h++; }
  for(i=0;i<1000;i++) if(!(i<4 || (i>=200&&i<210) || (i>=400&&i<406) || (i>=500&&i<500+h))) VP_ASSERT(dh_rng_types[i]==0,"no other number is a generator");
  VP_ASSERT(dh_num_gsl_rngs==4 && dh_num_dieharder_rngs==10 && dh_num_R_rngs==6 && dh_num_hardware_rngs==h && dh_num_rngs==20+h,"generators are counted correctly");
  VP_ASSERT(nopen==0 || nclose==2*h,"probed devices are closed");
  VP_WITNESS("end");
}
#endif
