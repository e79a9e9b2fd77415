/* C04/C05/C06: random numbers taken from raw files, text files, stdin, devices */
#include <dieharder/libdieharder.h>
#include <sys/stat.h>
#include <errno.h>
#include "vfs.h"
static int exit_ok;                       /* may the program terminate here? */
static void at_exit(void);
void vp_exit(int code){
  VP_ASSERT(exit_ok,"the program must not terminate here");
  at_exit();
#ifdef VP_NATIVE
  _Exit(0);
#else
  __CPROVER_assume(0); while(1);
#endif
}
static vfs_t file;
#if defined(H_RAW)
static uint8_t data[NW*4+TR+1];
static int symbolic_size; static off_t ssize; static mode_t smode = S_IFREG|0644;
int vp_stat(const char *n,struct stat *sb){ sb->st_mode = smode; sb->st_size = symbolic_size ? ssize : (off_t)file.len; return 0; }
static uint32_t word(unsigned i){ return data[4*i]|(uint32_t)data[4*i+1]<<8|(uint32_t)data[4*i+2]<<16|(uint32_t)data[4*i+3]<<24; }
static uint64_t abs_pos[8]; static uint8_t abs_val[8]; static unsigned abs_n;
uint8_t vfs_byte(vfs_t *f,uint64_t p){ uint8_t v=vp_u8(); VP_ASSERT(abs_n<8,"one number takes one word"); abs_pos[abs_n]=p; abs_val[abs_n++]=v; return v; }
static void at_exit(void){
#ifdef EXITW
  VP_WITNESS("exit");
#endif
}
static void setup(void){ unsigned i; for(i=0;i<sizeof data;i++) data[i]=vp_u8(); file.data=data; file.len=NW*4+TR; vfs_file=&file; filename[0]='f'; filename[1]=0; verbose=0; }
VP_ENTRY(h_raw_cycle){
  gsl_rng *r; unsigned i,k; uint32_t s=vp_u32();
  VP_ASSUME(s!=0);
  setup();
  r = gsl_rng_alloc(gsl_rng_file_input_raw);
  VP_ASSERT(filecount==NW,"the number of words in the file is its length in bytes divided by 4");
  for(k=0;k<2;k++){
    gsl_rng_set(r,s);
    VP_ASSERT(file_input_get_rtot(r)==0 && file_input_get_rewind_cnt(r)==0,"seeding starts the stream over with clean counters");
    for(i=0;i<(k?NW/2:2*NW+3);i++){
      unsigned long v = gsl_rng_get(r);
      VP_ASSERT(v==word(i%NW),"the i-th number is word i (modulo the file length) of the file");
      VP_ASSERT(file_input_get_rtot(r)==i+1,"numbers handed out are counted");
      VP_ASSERT(file_input_get_rewind_cnt(r)==i/NW,"wrap-arounds are counted");
    }
  }
  VP_WITNESS("end");
}
VP_ENTRY(h_raw_double){
  gsl_rng *r; unsigned i;
  setup();
  r = gsl_rng_alloc(gsl_rng_file_input_raw);
  gsl_rng_set(r,1);
  for(i=0;i<NW-1;i++) (void)gsl_rng_get(r);
  { double u = gsl_rng_uniform(r);
    VP_ASSERT(u==word(NW-1)/(double)UINT_MAX,"the i-th uniform is word i scaled by 2^32-1");
    VP_ASSERT(gsl_rng_get(r)==word(0),"a uniform consumes exactly one word");
  }
  VP_WITNESS("end");
}
/* one draw from an arbitrary point of an arbitrarily large file */
VP_ENTRY(h_raw_step){
  gsl_rng *r; file_input_state_t *st; uint64_t n=vp_u64(),p=vp_u64(),tot=vp_u64(); uint32_t rc=vp_u32(); unsigned long v;
  VP_ASSUME(n>=16 && n<((uint64_t)1<<60) && p<n && tot<((uint64_t)1<<62) && rc<0xffffffffu);
  setup(); file.data=0; file.len=4*n+vp_range(0,3); symbolic_size=1; ssize=file.len;
  r = gsl_rng_alloc(gsl_rng_file_input_raw);
  gsl_rng_set(r,1);
  st = r->state;
  VP_ASSERT((uint64_t)st->flen==n && (uint64_t)filecount==n,"the number of words is exact for files of any size");
  st->rptr=p; st->rtot=tot; st->rewind_cnt=rc; file.pos=4*p;
  v = gsl_rng_get(r);
  VP_ASSERT(abs_n==4 && abs_pos[0]==4*p && abs_pos[1]==4*p+1 && abs_pos[2]==4*p+2 && abs_pos[3]==4*p+3,"exactly the next word is consumed");
  VP_ASSERT(v==(abs_val[0]|(uint32_t)abs_val[1]<<8|(uint32_t)abs_val[2]<<16|(uint32_t)abs_val[3]<<24),"the number returned is that word");
  VP_ASSERT((uint64_t)file_input_get_rtot(r)==tot+1,"numbers handed out are counted (64 bit)");
  VP_ASSERT(file.pos==(p+1==n?0:4*(p+1)),"the stream continues with the next word, or wraps after the last");
  VP_ASSERT(st->rewind_cnt==rc+(p+1==n),"a wrap-around is counted when and only when it happens");
  file_input_set_rtot(r,7);
  VP_ASSERT(file_input_get_rtot(r)==7,"the counter can be set");
  VP_WITNESS("end");
}
/* files too small to be useful are refused */
VP_ENTRY(h_raw_small){
  gsl_rng *r;
  setup(); exit_ok=1; symbolic_size=1; ssize=vp_range(0,63);
  r = gsl_rng_alloc(gsl_rng_file_input_raw);
  VP_ASSERT(0,"a raw file of fewer than 16 words is refused");
}
/* a stream that is not a regular file is read to its end, never rewound, nothing made up */
VP_ENTRY(h_raw_stream){
  gsl_rng *r; unsigned i; static const mode_t MODES[4]={S_IFIFO,S_IFCHR,S_IFSOCK,S_IFBLK};
  setup(); smode=MODES[vp_range(0,3)]|0644;
  r = gsl_rng_alloc(gsl_rng_file_input_raw);
  gsl_rng_set(r,vp_u32());
  for(i=0;i<NW;i++){ unsigned long v=gsl_rng_get(r); VP_ASSERT(v==word(i),"words are delivered in order"); }
  exit_ok=1;
  (void)gsl_rng_get(r);
  VP_ASSERT(0,"no number is returned after the end of the stream");
}
VP_ENTRY(h_raw_dir){
  setup(); smode=S_IFDIR|0755; exit_ok=1;
  (void)gsl_rng_alloc(gsl_rng_file_input_raw);
  VP_ASSERT(0,"a directory is refused");
}
#endif

#if defined(H_TXT)
#ifndef HAVE
#define HAVE 0
#endif
/* TXT: layout; in data lines '9' = any decimal digit, '7' any octal, '1' (type b) any bit, '@' any hex digit */
static const char TMPL[] = TXT;
static uint8_t data[sizeof TMPL];
static unsigned line_at[NV+1];
int vp_stat(const char *n,struct stat *sb){ sb->st_mode=S_IFREG|0644; sb->st_size=sizeof TMPL-1; return 0; }
uint8_t vfs_byte(vfs_t *f,uint64_t p){ return 0; }
static void at_exit(void){
#ifdef EXITW
  VP_WITNESS("exit");
#endif
}
static unsigned hexd(uint8_t c){ return c<='9'?c-'0':c<='F'?c-'A'+10:c-'a'+10; }
static void setup(void){
  unsigned i,l=0,d=0; int body=0;
  for(i=0;i<sizeof TMPL;i++){
    uint8_t c=TMPL[i];
    if(i>=BODY && c!='\n' && c!=0){
      uint8_t v=vp_u8();
      if(c=='9'){ VP_ASSUME(v>='0'&&v<='9'); c=v; }
      else if(c=='7'){ VP_ASSUME(v>='0'&&v<='7'); c=v; }
      else if(c=='1'){ VP_ASSUME(v=='0'||v=='1'); c=v; }
      else if(c=='@'){ VP_ASSUME((v>='0'&&v<='9')||(v>='a'&&v<='f')||(v>='A'&&v<='F')); c=v; }
    }
    data[i]=c;
    if(i>=BODY && (i==BODY||TMPL[i-1]=='\n') && d<=NV) line_at[d++]=i;
  }
  file.data=data; file.tmpl=TMPL; file.len=sizeof TMPL-1; vfs_file=&file; filename[0]='f'; filename[1]=0; verbose=0;
}
static uint64_t lineval(unsigned k,unsigned base){ uint64_t v=0; unsigned i; for(i=line_at[k];TMPL[i]!='\n';i++) if(TMPL[i]!=' ') v=v*base+hexd(data[i]); return v; }
VP_ENTRY(h_txt){
  gsl_rng *r; unsigned i,k; 
  setup();
  r = gsl_rng_alloc(gsl_rng_file_input);
  for(k=0;k<2;k++){
    gsl_rng_set(r,1+k);
    VP_ASSERT(filecount==NV,"the header's count is honoured");
    VP_ASSERT(filetype==TYPE,"the header's type is honoured");
    VP_ASSERT(filenumbits==NBIT,"the header's width is honoured");
    VP_ASSERT(file_input_get_rtot(r)==0 && file_input_get_rewind_cnt(r)==0,"seeding starts the stream over with clean counters");
    for(i=0;i<(k?1:2*NV+1);i++){
      unsigned long v=gsl_rng_get(r);
#if BASE
      VP_ASSERT(v==(uint32_t)lineval(i%NV,BASE),"the i-th number is the value on data line i (modulo the count)");
#else
      { /* fraction 0.ddd : scaled to 32 bits */
        uint64_t m=0,sc=1; unsigned q; for(q=line_at[i%NV]+2;TMPL[q]!='\n';q++){ m=m*10+(data[q]-'0'); sc*=10; }
        VP_ASSERT(v*sc<=m*4294967295ull && m*4294967295ull<v*sc+2*sc,"the i-th number is the fraction on data line i scaled to 32 bits");
      }
#endif
      VP_ASSERT(file_input_get_rtot(r)==i+1,"numbers handed out are counted");
      VP_ASSERT(file_input_get_rewind_cnt(r)==i/NV,"wrap-arounds are counted");
    }
  }
  VP_WITNESS("end");
}
/* too few data lines, blank or unconvertible lines: never a made-up number */
VP_ENTRY(h_txt_short){
  gsl_rng *r; unsigned i;
  setup();
  r = gsl_rng_alloc(gsl_rng_file_input);
  gsl_rng_set(r,1);
  for(i=0;i<HAVE;i++){ unsigned long v=gsl_rng_get(r); VP_ASSERT(v==(uint32_t)lineval(i,BASE),"valid lines are delivered"); }
  exit_ok=1;
  (void)gsl_rng_get(r);
  VP_ASSERT(0,"no number is made up for a missing or unreadable line");
}
VP_ENTRY(h_txt_badheader){
  gsl_rng *r;
  setup(); exit_ok=1;
  r = gsl_rng_alloc(gsl_rng_file_input);
  VP_ASSERT(0,"a file without a complete header is refused");
}
#endif

#if defined(H_DEV)
#define NB 26
static uint8_t data[NB]; static unsigned len;
int vp_stat(const char *n,struct stat *sb){ return -1; }
uint8_t vfs_byte(vfs_t *f,uint64_t p){ return 0; }
static unsigned done;
static void at_exit(void){ VP_ASSERT(done==len/4,"everything available is delivered before giving up"); VP_WITNESS("exit"); }
extern const gsl_rng_type *DEVT;
VP_ENTRY(h_dev){
  gsl_rng *r; unsigned i; int dbl=DBL;
  for(i=0;i<NB;i++) data[i]=vp_u8();
  len=LEN; 
  file.data=data; file.len=len; file.name=PATH; verbose=0;
  if(IS_STDIN){ file.open=1; vfs_stdin=&file; } else vfs_file=&file;
  r=gsl_rng_alloc(DEVT);
  if(IS_STDIN) gsl_rng_set(r,vp_u32());       /* reseeding does not disturb a pipe */
  for(i=0;i<=NB/4;i++){
    uint32_t w;
    exit_ok = 4*i+4>len;
    if(IS_STDIN && i==2) gsl_rng_set(r,vp_u32());
    if(dbl){ double u=gsl_rng_uniform(r); w=data[4*i]|(uint32_t)data[4*i+1]<<8|(uint32_t)data[4*i+2]<<16|(uint32_t)data[4*i+3]<<24;
      VP_ASSERT(4*i+4<=len,"no number is made up after the end of the stream");
      VP_ASSERT(u==w/(double)UINT_MAX,"the i-th uniform is word i scaled"); }
    else { unsigned long v=gsl_rng_get(r);
      VP_ASSERT(4*i+4<=len,"no number is made up after the end of the stream");
      w=data[4*i]|(uint32_t)data[4*i+1]<<8|(uint32_t)data[4*i+2]<<16|(uint32_t)data[4*i+3]<<24;
      VP_ASSERT(v==w,"the i-th number is word i of the stream"); }
    done++;
  }
}
/* a device that cannot be opened is refused */
VP_ENTRY(h_dev_missing){
  vfs_file=0; exit_ok=1; len=0;
  (void)gsl_rng_alloc(DEVT);
  VP_ASSERT(0,"a device that cannot be opened is refused");
}
#endif
