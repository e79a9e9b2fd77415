/* C10: the cipher based generators are output-feedback streams of AES-128 and Threefish-512 */
#include <dieharder/libdieharder.h>
#include <dieharder/rijndael-alg-fst.h>
#include <dieharder/skein.h>
#ifdef H_AESGEN
static uint8_t CH[4][16]; static unsigned nb; static int key_ok=1,chain_ok=1; static uint32_t s; static unsigned nkey; static u32 RKM[44]; static int rk_ok=1;
int rijndaelKeySetupEnc(u32 rk[],const u8 key[],int bits){ int i; nkey++; nb=0;
  for(i=0;i<16;i++) key_ok &= key[i]==(u8)(112+i+(s>>((5*i)%26)));
  key_ok &= bits==128; for(i=0;i<44;i++) rk[i]=RKM[i]; return 10; }
void rijndaelEncrypt(const u32 rk[],int Nr,const u8 pt[16],u8 ct[16]){ int i; u8 in[16];
  for(i=0;i<16;i++) in[i]=pt[i]; for(i=0;i<44;i++) rk_ok &= rk[i]==RKM[i];
  chain_ok &= Nr==10; for(i=0;i<16;i++) chain_ok &= in[i]==(nb==0?0:CH[nb-1][i]);
  VP_ASSERT(nb<4,"one block per four numbers"); VP_ASSUME(nb<4);
  for(i=0;i<16;i++) ct[i]=CH[nb][i]; nb++; }
VP_ENTRY(h_aesgen){
  gsl_rng *r; unsigned i,j; unsigned long v;
  for(i=0;i<44;i++) RKM[i]=vp_u32(); for(j=0;j<4;j++) for(i=0;i<16;i++) CH[j][i]=vp_u8();
  r=gsl_rng_alloc(gsl_rng_aes); key_ok=chain_ok=rk_ok=1; nkey=0;
#ifdef DIRTYGEN
  for(i=0;i<r->type->size;i++) ((unsigned char*)r->state)[i]=vp_u8();
#endif
  s=vp_u32(); gsl_rng_set(r,s);
  VP_ASSERT(key_ok && nkey==1,"the key holds every bit of the seed");
  VP_ASSERT(gsl_rng_min(r)==0 && gsl_rng_max(r)==0xffffffffu,"declared range");
  for(i=0;i<14;i++){ const uint8_t *c=CH[i/4]+4*(i%4); uint32_t e=c[0]|c[1]<<8|c[2]<<16|(uint32_t)c[3]<<24;
    if(i==13){ double u=gsl_rng_uniform(r); VP_ASSERT(u==e/4294967295.0 || u==e/4294967296.0,"uniform is the same word scaled"); }
    else { v=gsl_rng_get(r); VP_ASSERT(v==e,"the numbers are the words of the successive cipher blocks, each once, in order"); }
    VP_ASSERT(nb==i/4+1,"a new block is made exactly when the old one is used up"); }
  VP_ASSERT(chain_ok && rk_ok,"every block is the encryption of the previous block under the same key");
  VP_WITNESS("end");
}
#endif
#ifdef H_TFGEN
static uint8_t CH[3][64]; static unsigned nb; static int key_ok=1,chain_ok=1; static uint32_t s; static u64b_t T0,T1,K0[8];
void Threefish_512_Process_Blocks64(Threefish_512_Ctxt_t *ctx,const u08b_t *in,void *out,size_t n){ unsigned i;
  chain_ok &= n==1;
  for(i=0;i<64;i++) chain_ok &= in[i]==(nb==0 ? (i<4 ? (u08b_t)(s>>(8*i)) : 0) : CH[nb-1][i]);
  if(nb==0) for(i=0;i<8;i++) K0[i]=ctx->Key[i]; else for(i=0;i<8;i++) chain_ok &= ctx->Key[i]==K0[i];
  if(nb==1){ T0=ctx->T[0]; T1=ctx->T[1]; } if(nb>1) chain_ok &= ctx->T[0]==T0 && ctx->T[1]==T1;
  VP_ASSERT(nb<3,"one block per sixteen numbers"); VP_ASSUME(nb<3);
  for(i=0;i<64;i++) ((u08b_t*)out)[i]=CH[nb][i]; nb++; }
VP_ENTRY(h_tfgen){
  gsl_rng *r; unsigned i,j; unsigned long v;
  for(j=0;j<3;j++) for(i=0;i<64;i++) CH[j][i]=vp_u8();
  r=gsl_rng_alloc(gsl_rng_threefish); nb=0; key_ok=chain_ok=1;
  for(i=0;i<r->type->size;i++) ((unsigned char*)r->state)[i]=vp_u8();
  s=vp_u32(); gsl_rng_set(r,s);
  VP_ASSERT(nb==1,"the first block is made when seeding");
  VP_ASSERT(gsl_rng_min(r)==0 && gsl_rng_max(r)==0xffffffffu,"declared range");
  for(i=0;i<36;i++){ const uint8_t *c=CH[i/16]+4*(i%16); uint32_t e=c[0]|c[1]<<8|c[2]<<16|(uint32_t)c[3]<<24;
    if(i==35){ double u=gsl_rng_uniform(r); VP_ASSERT(u==e/4294967295.0 || u==e/4294967296.0,"uniform is the same word scaled"); }
    else { v=gsl_rng_get(r); VP_ASSERT(v==e,"the numbers are the words of the successive cipher blocks, each once, in order"); }
    VP_ASSERT(nb==i/16+1,"a new block is made exactly when the old one is used up"); }
  VP_ASSERT(chain_ok,"the first block encrypts the seed, every later block the previous one under the same key");
  VP_WITNESS("end");
}
#endif
#ifdef H_AES
#include "aes_sbox.h"
static uint8_t xt(uint8_t a){ return (uint8_t)((a<<1)^((a>>7)*0x1b)); }
VP_ENTRY(h_aeskey){
  u8 key[16]; u32 rk[44]; unsigned i; uint8_t rc=1; int n;
  for(i=0;i<16;i++) key[i]=vp_u8();
  n=rijndaelKeySetupEnc(rk,key,128);
  VP_ASSERT(n==10,"ten rounds");
  for(i=0;i<4;i++) VP_ASSERT(rk[i]==((u32)key[4*i]<<24|(u32)key[4*i+1]<<16|(u32)key[4*i+2]<<8|key[4*i+3]),"the first round key is the key");
  for(i=4;i<44;i++){ u32 t=rk[i-1]; if(i%4==0){ t=t<<8|t>>24; t=(u32)SBOX[t>>24]<<24|(u32)SBOX[t>>16&255]<<16|(u32)SBOX[t>>8&255]<<8|SBOX[t&255]; t^=(u32)rc<<24; rc=xt(rc); }
    VP_ASSERT(rk[i]==(rk[i-4]^t),"AES-128 key expansion (FIPS 197)"); }
  VP_WITNESS("end");
}
VP_ENTRY(h_aesenc){
  u32 rk[44]; u8 st[16],ct[16],pt[16],t[16]; unsigned i,r,c;
  for(i=0;i<44;i++) rk[i]=0x9E3779B9u*(i+3)^(i<<20);
#ifdef SYMKEY
  rk[4]=vp_u32();
#endif
  for(i=0;i<16;i++) pt[i]=(u8)(0x3c*i+7);
  for(i=0;i<16;i++) if((SYMB>>i)&1) pt[i]=vp_u8();
  for(i=0;i<16;i++) st[i]=pt[i]^(u8)(rk[i/4]>>(24-8*(i%4)));
  for(r=1;r<=RNDS;r++){
    for(i=0;i<16;i++) t[i]=SBOX[st[(i+4*(i%4))%16]];   /* SubBytes, ShiftRows (column major) */
    if(r<RNDS) for(c=0;c<4;c++){ u8 *a=t+4*c,x=a[0]^a[1]^a[2]^a[3],a0=a[0];
      a[0]^=x^xt(a[0]^a[1]); a[1]^=x^xt(a[1]^a[2]); a[2]^=x^xt(a[2]^a[3]); a[3]^=x^xt(a[3]^a0); }
    for(i=0;i<16;i++) st[i]=t[i]^(u8)(rk[4*r+i/4]>>(24-8*(i%4)));
  }
  rijndaelEncrypt(rk,RNDS,pt,ct);
  for(i=0;i<16;i++) VP_ASSERT(ct[i]==st[i],"AES rounds (FIPS 197)");
  VP_WITNESS("end");
}
#endif
#ifdef H_TF
static uint64_t rotl(uint64_t x,unsigned n){ return (x<<n)|(x>>(64-n)); }
VP_ENTRY(h_tf){
  static const unsigned R[8][4]={{38,30,50,53},{48,20,43,31},{34,14,15,27},{26,12,58,7},{33,49,8,42},{39,27,41,14},{29,26,11,9},{33,51,39,35}};
  static const unsigned P[8]={2,1,4,7,6,5,0,3};
  Threefish_512_Ctxt_t ctx; u64b_t in[8*NBLK],out[8*NBLK]; uint64_t k[9],t[3],v[8],w[8]; unsigned i,d,b;
  k[8]=0x5555555555555555ull;
  for(i=0;i<8;i++){ ctx.Key[i]=k[i]=vp_u64(); k[8]^=k[i]; }
  for(i=0;i<2;i++) ctx.T[i]=t[i]=vp_u64(); t[2]=t[0]^t[1];
  for(i=0;i<8*NBLK;i++) in[i]=vp_u64();
  Threefish_512_Process_Blocks64(&ctx,(u08b_t*)in,out,NBLK);
  for(b=0;b<NBLK;b++){
  for(i=0;i<8;i++) v[i]=in[8*b+i];
  for(d=0;d<=72;d++){
    if(d%4==0){ unsigned s=d/4; for(i=0;i<8;i++) v[i]+=k[(s+i)%9]; v[5]+=t[s%3]; v[6]+=t[(s+1)%3]; v[7]+=s; }
    if(d==72) break;
    for(i=0;i<4;i++){ uint64_t x=v[2*i]+v[2*i+1],y=rotl(v[2*i+1],R[d%8][i])^x; v[2*i]=x; v[2*i+1]=y; }
    for(i=0;i<8;i++) w[i]=v[P[i]]; for(i=0;i<8;i++) v[i]=w[i];
  }
  for(i=0;i<8;i++) VP_ASSERT(out[8*b+i]==v[i],"Threefish-512 with 72 rounds"); }
  VP_WITNESS("end");
}
#endif
