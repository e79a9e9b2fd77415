/* C09/C03/C08/C11: generators inside libdieharder, observed through their
 * gsl_rng_type interface.  The seeding generator dh_rng_types[14] and the
 * components of XOR are symbolic generators with recorded calls. */
#include <dieharder/libdieharder.h>
#ifndef NF
#define NF 16
#endif
/* deterministic seeder: the i-th output after being seeded is F[i] */
static uint32_t F[NF]; static unsigned fi,nseeds; static unsigned long f_seed;
static void f_set(void *s,unsigned long v){ fi=0; f_seed=v; nseeds++; }
static unsigned long f_get(void *s){ VP_ASSERT(fi<NF,"seeding draws no more numbers than needed"); VP_ASSUME(fi<NF); return F[fi++]; }
static double f_dbl(void *s){ return f_get(s)/4294967296.0; }
static const gsl_rng_type FT={"seeder",0xffffffffu,0,8,f_set,f_get,f_dbl};

#ifdef H_XOR
/* components: logged symbolic outputs, each with its own draw log */
#define MAXD 4
static uint32_t CV[8][MAXD]; static unsigned cd[8]; static unsigned long cseed[8]; static unsigned cns[8];
#define COMP(n) static void c_set##n(void *s,unsigned long v){ cseed[n]=v; cns[n]++; cd[n]=0; } \
 static unsigned long c_get##n(void *s){ VP_ASSERT(cd[n]<MAXD,"one draw per component and output"); VP_ASSUME(cd[n]<MAXD); return CV[n][cd[n]++]; } \
 static double c_dbl##n(void *s){ return c_get##n(s)/4294967296.0; } \
 static const gsl_rng_type CT##n={"comp",0xffffffffu,0,8,c_set##n,c_get##n,c_dbl##n};
COMP(1) COMP(2) COMP(3) COMP(4) COMP(5) COMP(6)
static const gsl_rng_type *CTV[8]={0,&CT1,&CT2,&CT3,&CT4,&CT5,&CT6,0};
VP_ENTRY(h_xor){
  uint32_t s; unsigned i,j; gsl_rng *r;
  static const int num[7]={0,21,3,205,60,7,900};
  for(i=0;i<NF;i++) F[i]=vp_u32();
  for(i=1;i<7;i++) for(j=0;j<MAXD;j++) CV[i][j]=vp_u32();
  dh_rng_types[14]=&FT;
  gvcount=NC+1; gnumbs[0]=207;
  for(i=1;i<=NC;i++){ gnumbs[i]=num[i]; dh_rng_types[num[i]]=CTV[i]; }
  r=gsl_rng_alloc(gsl_rng_XOR);
  s=vp_u32(); gsl_rng_set(r,s);
  VP_ASSERT(f_seed==s,"the seed given decides the seeds of the components");
  VP_ASSERT(gsl_rng_min(r)==0 && gsl_rng_max(r)==0xffffffffu,"declared range");
  for(i=1;i<=NC;i++) VP_ASSERT(cns[i]>0 && cseed[i]==F[i-1],"each component gets its own seed, in order");
  for(j=0;j<3;j++){
    uint32_t e=0; unsigned long v; double u;
    for(i=1;i<=NC;i++) e^=CV[i][j];
    if(j<2){ v=gsl_rng_get(r); VP_ASSERT(v==e,"the output is the XOR of one fresh number of every component"); }
    else { u=gsl_rng_uniform(r); VP_ASSERT(u==e/4294967295.0 || u==e/4294967296.0,"the uniform is the same XOR scaled to [0,1]"); }
    for(i=1;i<=NC;i++) VP_ASSERT(cd[i]==j+1,"exactly one draw per component and output");
  }
  /* reseeding restarts every component with the same seeds */
  { unsigned before[7]; for(i=1;i<=NC;i++) before[i]=cns[i];
    gsl_rng_set(r,s);
    for(i=1;i<=NC;i++){ VP_ASSERT(cns[i]>before[i] && cseed[i]==F[i-1],"reseeding reseeds every component"); }
    { uint32_t e=0; for(i=1;i<=NC;i++) e^=CV[i][0]; VP_ASSERT(gsl_rng_get(r)==e,"reseeding restarts the combined stream"); } }
  VP_WITNESS("end");
}
#endif

#ifdef H_XORDUP
/* the same generator selected more than once: the instances are told apart by their state */
#define MAXD 3
typedef struct { unsigned id; unsigned d; } inst_t;
static uint32_t CV[NC+1][MAXD]; static unsigned ninst; static unsigned long iseed[NC+1]; static int extra;
static void c_set(void *s,unsigned long v){ inst_t *p=s; if(p->id==0){ if(ninst<NC) p->id=++ninst; else { extra=1; p->id=NC; } } p->d=0; iseed[p->id]=v; }
static unsigned long c_get(void *s){ inst_t *p=s; VP_ASSERT(p->d<MAXD,"one draw per component and output"); VP_ASSUME(p->d<MAXD); return CV[p->id][p->d++]; }
static double c_dbl(void *s){ return c_get(s)/4294967296.0; }
static const gsl_rng_type CT={"comp",0xffffffffu,0,sizeof(inst_t),c_set,c_get,c_dbl};
VP_ENTRY(h_xordup){
  uint32_t s,i,j; gsl_rng *r;
  for(i=0;i<NF;i++) F[i]=vp_u32();
  for(i=1;i<=NC;i++) for(j=0;j<MAXD;j++) CV[i][j]=vp_u32();
  dh_rng_types[14]=&FT; dh_rng_types[208]=&CT; gvcount=NC+1; gnumbs[0]=207; for(i=1;i<=NC;i++) gnumbs[i]=208;
  r=gsl_rng_alloc(gsl_rng_XOR); ninst=0; s=vp_u32(); gsl_rng_set(r,s);
  VP_ASSERT(ninst==NC || ninst==0,"every component is a generator of its own"); VP_ASSERT(!extra,"no generator but the selected ones");
  for(i=1;i<=NC;i++) VP_ASSERT(iseed[i]==F[i-1],"each component gets its own seed, in order");
  for(j=0;j<2;j++){ uint32_t e=0; for(i=1;i<=NC;i++) e^=CV[i][j]; VP_ASSERT(gsl_rng_get(r)==e,"the output is the XOR of one fresh number of every component"); }
  VP_WITNESS("end");
}
#endif

#ifdef H_SEED
/* same seed, same stream: a fresh generator against one with an arbitrary past */
extern const gsl_rng_type *TYPE;
#ifdef BITPAST
static void p_set(void *s,unsigned long v){}
static unsigned long p_get(void *s){ return vp_u32() & PASTMASK; }
static double p_dbl(void *s){ return 0.5; }
static const gsl_rng_type PT0={"past",PASTMASK,0,8,p_set,p_get,p_dbl};
#endif
VP_ENTRY(h_seed){
  uint32_t s,other; unsigned i; unsigned long a[ND],b[ND]; gsl_rng *r,*q; double ua,ub; uint seed_before,rmb;
  for(i=0;i<NF;i++){ F[i]=0x9E3779B9u*(i+1)^(i<<7); }   /* the seeder's stream is a fixed function of the seed */
  dh_rng_types[14]=&FT; verbose=0;
  s=vp_u32(); other=vp_u32(); seed=vp_u32(); seed_before=seed;
#ifdef SCONST
  s=SCONST;
#endif
#ifdef OCONST
  other=OCONST;
#endif
#ifdef NOALLOCSET
  static gsl_rng r0; static long st0[8]; r=&r0; r0.type=TYPE; r0.state=st0;
#else
  r=gsl_rng_alloc(TYPE);
#endif
  gsl_rng_set(r,s);
  for(i=0;i<ND;i++) a[i]=gsl_rng_get(r); ua=gsl_rng_uniform(r);
#ifdef NOALLOCSET
  q=r; for(i=0;i<TYPE->size;i++) ((unsigned char*)q->state)[i]=vp_u8();
#elif defined DIRTY
  q=gsl_rng_alloc(TYPE);
  for(i=0;i<TYPE->size;i++) ((unsigned char*)q->state)[i]=vp_u8();
#else
  q=r;
#endif
#ifdef BITPAST
  { static gsl_rng pr; uint32_t b[4]; pr.type=&PT0; for(i=0;i<BITPAST;i++){ get_rand_bits(b,sizeof(uint32_t),5+7*i,&pr); (void)get_uint_rand(&pr); } }
#endif
#ifdef OTHER
  gsl_rng_set(q,other); for(i=0;i<PRE;i++) (void)gsl_rng_get(q);
#endif
  gsl_rng_set(q,s);
  for(i=0;i<ND;i++){ b[i]=gsl_rng_get(q); VP_ASSERT(a[i]==b[i],"the same seed gives the same stream, whatever was done before"); 
    VP_ASSERT(b[i]>=TYPE->min && b[i]<=TYPE->max,"every output lies in the declared range"); }
  ub=gsl_rng_uniform(q); VP_ASSERT(ua==ub && ub>=0.0 && ub<=1.0,"uniform deviates lie in [0,1]");
  VP_ASSERT(seed==seed_before,"seeding a generator leaves the program's seed alone");
  VP_WITNESS("end");
}
#endif
#ifdef H_KISS
VP_ENTRY(h_kiss){
  uint32_t s,x,y,z,c,xx; unsigned i,k; uint64_t t; gsl_rng *r; unsigned long v;
  for(i=0;i<NF;i++) F[i]=vp_u32();
  F[0]=0x12345678+0x01000193u*ZS; 
#if SYM!=0
  F[0]=0x2545F491u;
#endif
#if SYM!=1
  for(i=1;i<=ZS;i++) F[i]=0; F[ZS+1]=0xdeadbeefu;
#else
  for(i=1;i<=ZS;i++) F[i]=0; VP_ASSUME(F[ZS+1]!=0);
#endif
#if SYM!=2
  F[ZS+2]=0x9E3779B9u; 
#endif
#if SYM!=3
  F[ZS+3]=0x7fffffffu;
#else
  F[ZS+3]&=0xffffu;
#endif
#if SYM==0
  F[0]=vp_u32();
#endif
  dh_rng_types[14]=&FT; verbose=0; s=vp_u32();
  r=gsl_rng_alloc(gsl_rng_kiss); gsl_rng_set(r,s);
  VP_ASSERT(f_seed==s,"seeded with the seed given");
  x=F[0]; y=F[ZS+1]; z=F[ZS+2]; c=F[ZS+3]%698769068u+1u;
  for(i=0;i<ND;i++){
    x=314527869u*x+1234567u; y^=y<<5; y^=y>>7; y^=y<<22; t=4294584393ull*z+c; c=t>>32; z=(uint32_t)t;
    v=gsl_rng_get(r); VP_ASSERT(v==(uint32_t)(x+y+z),"KISS: congruential + xorshift + multiply-with-carry");
  }
  VP_WITNESS("end");
}
#endif
#ifdef H_SKISS
/* table length reduced to QM */
VP_ENTRY(h_skiss){
  uint32_t Qr[QM],carry=362436u,xcng=1236789u,xs=521288629u,s,e; unsigned i,j,indx=QM; gsl_rng *r; uint64_t t; unsigned long v;
  for(i=0;i<NF;i++) F[i]=0x9E3779B9u*(i+1);
  F[SYM]=vp_u32();
  dh_rng_types[14]=&FT; verbose=0; s=vp_u32();
  r=gsl_rng_alloc(gsl_rng_superkiss); gsl_rng_set(r,s);
  VP_ASSERT(f_seed==s && fi==QM,"seeded with the seed given");
  for(i=0;i<QM;i++) Qr[i]=F[i];
  for(j=0;j<ND;j++){
    if(indx>=QM){ for(i=0;i<QM;i++){ t=7010176ull*Qr[i]+carry; carry=t>>32; Qr[i]=~(uint32_t)t; } indx=0; }
    xcng=69069u*xcng+123u; xs^=xs<<13; xs^=xs>>17; xs^=xs>>5;
    e=Qr[indx++]+xcng+xs;
    v=gsl_rng_get(r); VP_ASSERT(v==e,"SuperKISS: multiply-with-carry table + congruential + xorshift");
  }
  VP_WITNESS("end");
}
#endif
#ifdef H_CA
extern unsigned int rule[511];
VP_ENTRY(h_ca_rule){ unsigned i=vp_range(0,510),j=vp_range(0,255),k=vp_range(0,255);
  VP_ASSERT(rule[i]<256,"cell states are bytes"); VP_ASSERT(i<256 || rule[i]==rule[i-256],"the rule depends on the sum modulo 256");
  VP_ASSERT(j==k || rule[j]!=rule[k],"the rule is a permutation of the states");
  VP_WITNESS("end"); }
/* automaton of CW cells (width reduced): right to left, each cell becomes rule[left neighbour + itself], the leftmost rule[itself] */
VP_ENTRY(h_ca){
  unsigned char c[CW]; uint32_t s,s2,e; int i; unsigned n,pos=CW; gsl_rng r; long st[4]; unsigned long v;
  s=SBASE ^ (vp_u32()&SMASK); verbose=0; seed=vp_u32();
  r.type=gsl_rng_ca; r.state=st; gsl_rng_set(&r,s);
  for(i=0;i<CW;i++) c[i]=0;
  c[CW-1]=(unsigned char)s; s2=s==0xffffffffu?s:s+1; for(i=0;i<CW-4;i++) c[i]=(unsigned char)(s2>>(i%32));
  for(n=0;n<CW*CW/4+ND;n++){
    for(i=(int)pos-1;i>=(int)pos-4;i--) c[i]=(unsigned char)rule[i==0? c[0] : c[i-1]+c[i]];
    pos-=4; e=c[pos]|c[pos+1]<<8|c[pos+2]<<16|(uint32_t)c[pos+3]<<24; if(pos==0) pos=CW;
    if(n>=CW*CW/4){ v=gsl_rng_get(&r); VP_ASSERT(v==e,"cellular automaton: four cells per output, right to left"); }
  }
  VP_WITNESS("end");
}
#endif
#ifdef H_UVAG
extern unsigned char sindex,svec[259]; extern uint rndint;
VP_ENTRY(h_uvag){
  unsigned char m[259],ix; uint32_t acc,w; unsigned i,n,o; gsl_rng r; long st[4]; unsigned long v;
  for(i=0;i<259;i++) m[i]=svec[i]=vp_u8();
  ix=sindex=vp_u8(); acc=rndint=vp_u32(); r.type=gsl_rng_uvag; r.state=st;
  for(n=0;n<ND;n++){
    ix=(unsigned char)(ix+1); o=m[ix];
    w=m[o]|m[o+1]<<8|m[o+2]<<16|(uint32_t)m[o+3]<<24;
    w+=acc; acc+=w; m[o]=w; m[o+1]=w>>8; m[o+2]=w>>16; m[o+3]=w>>24;
    v=gsl_rng_get(&r); VP_ASSERT(v==acc,"UVAG: the addressed overlapping word and the accumulator are added into each other");
  }
  VP_WITNESS("end");
}
#endif
