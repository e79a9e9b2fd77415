/* C01/C02: bit stream delivery and bit-window helpers of libdieharder/bits.c */
#include <dieharder/libdieharder.h>
#ifndef MAXG
#define MAXG 80
#endif
static uint32_t G[MAXG]; static unsigned ng;
/* abstract generator: every draw is an arbitrary value of rmax_bits bits */
unsigned long gsl_rng_get(const gsl_rng *r){
  uint32_t v = vp_u32();
  VP_ASSUME((v & ~rmax_mask)==0);
  VP_ASSERT(ng < MAXG,"draws stay within the harness log");
  G[ng++] = v;
  return v;
}
static void set_width(unsigned w){ rmax_bits = w; rmax_mask = (w==32)?0xffffffffu:((1u<<w)-1); verbose = 0; }
/* bit p of the concatenated stream: outputs in order, least significant first */
static unsigned stream_bit(unsigned p){ return (G[p/rmax_bits] >> (p%rmax_bits)) & 1u; }

#ifdef W
VP_ENTRY(h_uint_rand){
  gsl_rng *r = 0; unsigned k,b;
  set_width(W);
  reset_bit_buffers();
  for(k=0;k<NWORDS;k++){
    uint32_t v = get_uint_rand(r);
    for(b=0;b<32;b++)
      VP_ASSERT(((v>>b)&1u)==stream_bit(32*k+b),"k-th 32-bit word is bits 32k..32k+31 of the generator's significant-bit stream");
  }
  VP_WITNESS("end");
}
#endif

#ifdef H_RANDBITS
/* up to 32 consecutive stream bits, first one least significant */
static uint32_t stream_word(unsigned p,unsigned n){
  uint32_t r = 0; unsigned i;
  for(i=0;i<n;i++) r |= ((G[(p+i)/HW] >> ((p+i)%HW)) & 1u) << i;
  return r;
}
static const unsigned char SEQV[] = { SEQ };     /* request sizes; 0 = start over (reset) */
/* a concrete schedule of request sizes over arbitrary generator output; the
 * schedules of all queries together cover the (buffer position, size) pairs
 * stated in the bound */
VP_ENTRY(h_rand_bits){
  gsl_rng *r = 0; unsigned k,b,p = 0,base = 0;
  uint32_t res[4];
  set_width(HW);
  reset_bit_buffers();
  for(k=0;k<sizeof SEQV;k++){
    unsigned nb = SEQV[k], words = (nb+31)/32;
    if(nb==0){ reset_bit_buffers(); ng = 0; p = 0; continue; }
    if(k%3==1) words = 4;                          /* result larger than needed */
    res[0]=res[1]=res[2]=res[3]=0xdeadbeef;
    get_rand_bits(res,words*4,nb,r);
    for(b=0;b<words;b++){
      unsigned have = nb > 32*b ? (nb-32*b > 32 ? 32 : nb-32*b) : 0;
      VP_ASSERT(res[words-1-b] == stream_word(p+32*b,have),"a request returns exactly the next undelivered bits of the generator stream, right-justified");
    }
    for(b=words;b<4;b++) VP_ASSERT(res[b]==0xdeadbeef,"nothing is written outside the result");
    p += nb;
  }
  VP_WITNESS("end");
}
/* requests the buffer or the result cannot hold are refused: zeroed result, stream not advanced */
VP_ENTRY(h_rand_bits_refuse){
  gsl_rng *r = 0; uint32_t res[9], v; unsigned nb, words, b, first = 5, p = 0;
  static const unsigned NBS[] = {0,33,64,65,96,97,128,129,130,159,160,161,191,192,193,255,256,0x7fffffff,0xffffffff};
  set_width(HW);
  reset_bit_buffers();
  get_rand_bits(&v,4,first,r); p = first;
  for(nb=0;nb<sizeof NBS/sizeof NBS[0];nb++) for(words=1;words<=8;words++){
    unsigned n = NBS[nb];
    if(n && n <= 32*words && n <= 128) continue;
    for(b=0;b<9;b++) res[b] = 0xdeadbeef;
    get_rand_bits(res,words*4,n,r);
    for(b=0;b<9;b++) VP_ASSERT(res[b]==(b<words?0:0xdeadbeef),"a refused request delivers no bits");
  }
  get_rand_bits(&v,4,32,r);
  VP_ASSERT(v == stream_word(p,32),"a refused request consumes no bits");
  VP_WITNESS("end");
}
/* after a reset only fresh generator output is delivered, whatever came before */
VP_ENTRY(h_reset_forgets){
  gsl_rng *r = 0; uint32_t v,buf[4]; unsigned k;
  set_width(HW);
  for(k=0;k<sizeof SEQV;k++){
    unsigned nb = SEQV[k], base;
    if(k&1) (void)get_uint_rand(r);
    get_rand_bits(buf,16,nb,r);
    reset_bit_buffers(); ng = 0;
    if(k&2){ v = get_uint_rand(r); VP_ASSERT(v==stream_word(0,32),"after a reset only fresh generator bits are delivered"); }
    else { unsigned n2 = 1+nb%32; get_rand_bits(&v,4,n2,r); VP_ASSERT(v==stream_word(0,n2),"after a reset only fresh generator bits are delivered"); }
    reset_bit_buffers(); ng = 0;
  }
  VP_WITNESS("end");
}
#endif

#ifdef H_STATIC
#include "static_get_bits.c"
static const unsigned char SEQV[] = { SEQ };
static uint32_t queue_bits(unsigned p,unsigned n){        /* outputs in order, most significant bit first */
  uint32_t r = 0; unsigned i;
  for(i=0;i<n;i++){ unsigned q = p+i; r = (r<<1) | ((G[(q/HW)%MAXG] >> (HW-1-q%HW)) & 1u); }
  return r;
}
VP_ENTRY(h_static_bits){
  gsl_rng *r = 0; unsigned k,p=0;
  set_width(HW);
  for(k=0;k<sizeof SEQV;k++){
    unsigned nb = SEQV[k]; uint32_t mask,v;
    mask = (k&1) ? 0 : (nb==32 ? 0xffffffffu : (1u<<nb)-1);
    if(ng > MAXG-40){ /* recycle the log: keep only the partly used output */
      unsigned used = p/HW, j, rest = ng-used; VP_ASSERT(rest<=1,"draws only what is needed");
      if(rest) G[0] = G[used]; ng = rest; p -= used*HW; }
    v = get_rand_bits_uint(nb,mask,r);
    VP_ASSERT(v == queue_bits(p,nb),"request returns the next nb bits of the generator stream, in order");
    p += nb;
    VP_ASSERT(ng == (p+HW-1)/HW,"draws exactly as many outputs as the delivered bits need");
  }
  VP_WITNESS("end");
}
/* a request of exactly the generator's width is one whole output */
VP_ENTRY(h_static_whole){
  gsl_rng *r = 0; unsigned k; uint32_t v;
  set_width(HW);
  for(k=0;k<3;k++){ v = get_rand_bits_uint(HW,vp_bool()?0:rmax_mask,r); VP_ASSERT(v==G[k] && ng==k+1,"width-sized request is one output"); }
  VP_WITNESS("end");
}
/* cyclic n-tuples out of one value of the generator's width / of a full uint */
VP_ENTRY(h_static_ntuple){
  uint32_t v = vp_u32(), got; unsigned w = vp_range(1,32), nb = vp_range(1,32), off = vp_range(0,31), i, mask;
  set_width(w); VP_ASSUME((v & ~rmax_mask)==0); VP_ASSUME(nb<=w);
  mask = nb==32 ? 0xffffffffu : (1u<<nb)-1;
  got = get_bit_ntuple_from_uint(v,nb,mask,off);
  i = vp_range(0,31); VP_ASSUME(i<nb);
  VP_ASSERT(((got>>i)&1u) == ((v >> ((off+i)%w))&1u),"cyclic n-tuple of the significant bits");
  VP_ASSERT((got & ~mask)==0,"no bits beyond the n-tuple");
  v = vp_u32();
  got = get_bit_ntuple_from_whole_uint(v,nb,mask,off);
  VP_ASSERT(((got>>i)&1u) == ((v >> ((off+i)%32))&1u),"cyclic n-tuple of a whole word");
  VP_ASSERT((got & ~mask)==0,"no bits beyond the n-tuple");
  VP_WITNESS("end");
}
#endif

#ifdef H_HELPERS
static uint32_t rbit(uint32_t v,unsigned left){ return (v >> (31-left)) & 1u; }  /* bit numbered from the left */
VP_ENTRY(h_window){
  uint32_t in = vp_u32(); unsigned s = vp_range(0,31), e = vp_range(0,31), o = vp_range(0,31), i;
  set_width(32);
  VP_ASSUME(s<=e); VP_ASSUME(o + (e-s) <= 31);
  i = vp_range(0,31);
  { uint32_t m = b_umask(s,e), w = b_window(in,s,e,o);
    VP_ASSERT(rbit(m,i) == (i>=s && i<=e),"mask selects exactly bits s..e");
    VP_ASSERT(rbit(w,i) == ((i>=o && i<=o+(e-s)) ? rbit(in,s+(i-o)) : 0),"window moves bits s..e to offset o and nothing else"); }
  { unsigned sh = vp_range(0,31);
    uint32_t rr = b_rotate_right(in,sh);
    VP_ASSERT(rbit(rr,i) == rbit(in,(i+32-sh)%32),"rotate right");
    if(sh>0){ uint32_t rl = b_rotate_left(in,sh); VP_ASSERT(rbit(rl,i) == rbit(in,(i+sh)%32),"rotate left"); } }
  VP_WITNESS("end");
}
/* all window lengths NLO..NHI and all offsets congruent to OFF0 mod OFFSTEP, arbitrary contents */
VP_ENTRY(h_cyclic){
  uint32_t in[ILEN],out[JLEN+1]; unsigned k,n,off,i;
  set_width(32);
  for(k=0;k<ILEN;k++) in[k] = vp_u32();
  for(n=NLO;n<=NHI;n++) for(off=OFF0;off<32*ILEN;off+=OFFSTEP){
    out[JLEN] = 0xdeadbeef;
    get_ntuple_cyclic(in,ILEN,out,JLEN,n,off);
    for(k=0;k<JLEN;k++){
      uint32_t want = 0;
      for(i=0;i<32;i++) if(32*k+i<n){ unsigned src = (off + n - 1 - (32*k+i)) % (32*ILEN); want |= rbit(in[src/32],src%32) << i; }
      VP_ASSERT(out[JLEN-1-k] == want,"n-tuple is the cyclic window [off,off+n) of the input, right-justified, zero elsewhere");
    }
    VP_ASSERT(out[JLEN]==0xdeadbeef,"nothing is written outside the output");
  }
  VP_WITNESS("end");
}
VP_ENTRY(h_ntuple_w){
  uint32_t a[BSLEN]; unsigned k,w = vp_range(1,32), blen = vp_range(1,40), off = vp_u32(), i;
  set_width(w);
  for(k=0;k<BSLEN;k++){ a[k] = vp_u32(); VP_ASSUME((a[k] & ~rmax_mask)==0); }
  VP_ASSUME(off < w*BSLEN);
  { uint32_t got = get_bit_ntuple(a,BSLEN,blen,off); unsigned src;
    i = vp_range(0,31);
    /* the string is the array read right to left, each element's significant bits, cyclic */
    src = (off+i) % (w*BSLEN);
    if(i<blen) VP_ASSERT(((got>>i)&1u) == ((a[BSLEN-1-src/w] >> (src%w))&1u),"n-tuple starts at the bit offset and wraps around the string");
    else VP_ASSERT(((got>>i)&1u)==0,"no bits beyond the n-tuple"); }
  VP_WITNESS("end");
}
VP_ENTRY(h_single){
  uint32_t a[4], v = vp_u32(); unsigned w = vp_range(1,32), n = vp_u32(), k; char s[32]; uint32_t want = 0; unsigned len = vp_range(0,32);
  set_width(w);
  for(k=0;k<4;k++) a[k] = vp_u32();
  VP_ASSUME(n < 4*w);
  VP_ASSERT(get_bit(a,n) == (int)((a[n/w] >> (w-1-n%w)) & 1u),"n-th bit counted from the most significant valid bit");
  n = vp_range(0,31);
  { extern int get_int_bit(unsigned,unsigned); VP_ASSERT(get_int_bit(v,n) == (int)((v>>n)&1u),"n-th bit of an integer"); }
  for(k=0;k<32;k++){ s[k] = '0' + (vp_u8()&1); if(k<len) want = (want<<1) | (uint32_t)(s[k]-'0'); }
  VP_ASSERT(bit2uint(s,len) == want,"binary string to integer");
  { uint32_t c = v; unsigned nb = vp_range(1,32); uint32_t m = nb==32?0xffffffffu:(1u<<nb)-1, x = v & m;
    cycle(&c,nb);
    VP_ASSERT(c == (((x>>1) | ((x&1u)<<(nb-1))) & m),"one-bit right rotation of the low n bits"); }
  VP_WITNESS("end");
}
VP_ENTRY(h_fill){
  uint32_t d[3]; unsigned k, w = vp_range(16,32);
  set_width(w);
  fill_uint_buffer(d,3);
  for(k=0;k<3;k++){
    unsigned dl = 32-w; uint32_t m = (dl==0)?0:((1u<<dl)-1);
    VP_ASSERT(d[k] == ((G[2*k]<<dl) | (G[2*k+1]&m)),"full-width word from two outputs");
  }
  VP_WITNESS("end");
}
#endif
