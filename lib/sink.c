#include <string.h>
#include "sink.h"
extern FILE *vp_stdout,*vp_stderr;
sink_t *sink_out,*sink_err,*sink_file; const char *sink_file_name; int sink_file_open,sink_file_closed;
static long file_tok;
#ifdef VP_NATIVE
#define VA_CHAR int
#else
#define VA_CHAR char       /* CBMC hands variadic chars over unpromoted */
#endif
void sink_reset(sink_t *s){ s->n=0; s->h=0; }
static void ch(sink_t *s,char c){ uint64_t k=((unsigned char)c+1)*0x9E3779B97F4A7C15ull; k^=k>>29; k*=0xBF58476D1CE4E5B9ull; k^=k>>32; s->h = ((s->h<<23)|(s->h>>41)) ^ k; }
static void rec(sink_t *s,uint32_t spec,uint64_t v){
  VP_ASSERT(s->n<SINK_MAX,"output fits the recorder");
  s->H[s->n]=s->h; s->spec[s->n]=spec; s->val[s->n]=v; s->n++; s->h=0;
}
void sink_byte(sink_t *s,uint8_t b){ rec(s,0x7000000u,b); }
static void vprint(sink_t *s,const char *f,va_list ap){
  while(*f){
    uint32_t minus=0,zero=0,w=0,prec=0xff,l=0; char c;
    if(*f!='%'){ ch(s,*f++); continue; }
    f++;
    if(*f=='%'){ ch(s,'%'); f++; continue; }
    for(;*f=='-'||*f=='0';f++) if(*f=='-') minus=1; else zero=1;
    while(*f>='0'&&*f<='9') w=w*10+(*f++-'0');
    if(*f=='.'){ f++; prec=0; while(*f>='0'&&*f<='9') prec=prec*10+(*f++-'0'); }
    while(*f=='l'||*f=='z'||*f=='h'){ if(*f!='h') l++; f++; }
    c=*f++;
    if(c=='c'){ ch(s,(char)va_arg(ap,VA_CHAR)); }
    else if(c=='s'){
      const char *t=va_arg(ap,const char*); unsigned n=0,i;
      while(n<prec && t[n]) n++;
      if(!minus) for(i=n;i<w;i++) ch(s,' ');
      for(i=0;i<n;i++) ch(s,t[i]);
      if(minus) for(i=n;i<w;i++) ch(s,' ');
    }
    else if(c=='d'||c=='i'){ int64_t v = l ? va_arg(ap,long) : (int64_t)va_arg(ap,int);
      rec(s,0x1000000u|(v<0)<<20|minus<<19|zero<<18|w<<8|(prec&0xff),(uint64_t)v); }
    else if(c=='u'){ uint64_t v = l ? va_arg(ap,unsigned long) : (uint64_t)va_arg(ap,unsigned int);
      rec(s,0x1000000u|minus<<19|zero<<18|w<<8|(prec&0xff),v); }
    else if(c=='x'||c=='X'||c=='o'){ uint64_t v = l ? va_arg(ap,unsigned long) : (uint64_t)va_arg(ap,unsigned int);
      rec(s,(c=='x'?0x2000000u:c=='X'?0x3000000u:0x4000000u)|minus<<19|zero<<18|w<<8|(prec&0xff),v); }
    else if(c=='f'||c=='e'||c=='g'||c=='E'||c=='F'||c=='G'){ double d=va_arg(ap,double); uint64_t v; memcpy(&v,&d,8);
      rec(s,(c=='f'||c=='F'?0x5000000u:c=='g'||c=='G'?0x8000000u:0x6000000u)|minus<<19|w<<8|(prec&0xff),v); }
    else if(c=='p'){ (void)va_arg(ap,void*); rec(s,0x9000000u,0); }
    else VP_ASSERT(0,"conversion known to the recorder");
  }
}
void sink_print(sink_t *s,const char *fmt,...){ va_list ap; va_start(ap,fmt); vprint(s,fmt,ap); va_end(ap); }
static sink_t *of(FILE *f){
  if(f==vp_stdout) return sink_out;
  if(f==vp_stderr) return sink_err;
  VP_ASSERT(f==(FILE*)&file_tok && sink_file_open && !sink_file_closed,"output goes to an open stream");
  return sink_file;
}
int vp_printf(const char *fmt,...){ va_list ap; if(!sink_out) return 0; va_start(ap,fmt); vprint(sink_out,fmt,ap); va_end(ap); return 1; }
int vp_fprintf(FILE *f,const char *fmt,...){ va_list ap; sink_t *s=of(f); if(!s) return 0; va_start(ap,fmt); vprint(s,fmt,ap); va_end(ap); return 1; }
int vp_fflush(FILE *f){ return 0; }
int vp_putc(int c,FILE *f){ sink_t *s=of(f); if(s) ch(s,(char)c); return c; }
int vp_fputs(const char *t,FILE *f){ sink_t *s=of(f); if(s) while(*t) ch(s,*t++); return 1; }
int vp_puts(const char *t){ if(sink_out){ while(*t) ch(sink_out,*t++); ch(sink_out,'\n'); } return 1; }
#ifdef SINK_FWRITE_HOOK
void sink_fwrite_hook(void);
#endif
size_t vp_fwrite(const void *p,size_t sz,size_t n,FILE *f){
  sink_t *s=of(f); size_t i; const uint8_t *b=p;
  if(s) for(i=0;i<sz*n;i++) sink_byte(s,b[i]);
#ifdef SINK_FWRITE_HOOK
  sink_fwrite_hook();
#endif
  return n;
}
FILE *vp_fopen(const char *name,const char *mode){
  VP_ASSERT(mode[0]=='w',"output files are opened for writing");
  sink_file_name=name; sink_file_open=1; return (FILE*)&file_tok;
}
int vp_fclose(FILE *f){ if(f==(FILE*)&file_tok) sink_file_closed=1; return 0; }
int sink_same(const sink_t *a,const sink_t *b){
  unsigned i; int ok = a->n==b->n && a->h==b->h;
  for(i=0;i<SINK_MAX;i++) if(i<a->n && i<b->n) ok = ok && a->H[i]==b->H[i] && a->spec[i]==b->spec[i] && a->val[i]==b->val[i];
  return ok;
}
