/* Default environment models. */
#include <stdio.h>
#include <stdlib.h>
static long vp_std_tok[3];
FILE *vp_stdin=(FILE*)&vp_std_tok[0],*vp_stdout=(FILE*)&vp_std_tok[1],*vp_stderr=(FILE*)&vp_std_tok[2];
int vp_parse_verbose;   /* parse.c declares `verbose' with another type than its definition */
/* Diagnostics are not the subject here: swallowed. */
#ifndef VP_OWN_PRINTF
int vp_printf(const char *fmt,...){ return 0; }
int vp_fprintf(FILE *f,const char *fmt,...){ return 0; }
int vp_fflush(FILE *f){ return 0; }
#endif
/* exit(): the harness may observe it; the path then ends. */
#ifndef VP_OWN_EXIT
void vp_exit(int code){
#ifdef VP_EXIT_IS_BUG
  VP_ASSERT(0,"the program must not terminate here");
#endif
#ifdef VP_NATIVE
  _Exit(0);
#else
  __CPROVER_assume(0);
#endif
}
#endif
/* pow: exact for base 2 and small non-negative integer exponents (every use
 * that sizes or indexes something); otherwise an arbitrary value. */
#ifndef VP_OWN_POW
double vp_pow(double a,double b){
  if(b==0.0) return 1.0;
  if(b==1.0) return a;
  if(a==2.0 && b>0.0 && b<=64.0 && b==(double)(int)b){
    unsigned n=(unsigned)b; double r=1.0; unsigned i;
    if(n<64) return (double)(1ull<<n);
    return 18446744073709551616.0;
  }
  return vp_double();
}
#endif
#ifndef VP_OWN_SQRT
double vp_sqrt(double a){ double r=vp_double(); VP_ASSUME(r>=0.0); return r; }
#endif
#ifndef VP_OWN_EXP
double vp_exp(double a){ double r=vp_double(); VP_ASSUME(r>=0.0); return r; }
#endif
double vp_log(double a){ return vp_double(); }
double vp_cos(double a){ double r=vp_double(); VP_ASSUME(r>=-1.0 && r<=1.0); return r; }

#ifndef VP_NATIVE
/* libc string functions CBMC has no body for. */
#include <string.h>
static int vp_in(char c,const char *d){ for(;*d;d++) if(*d==c) return 1; return 0; }
size_t strspn(const char *s,const char *d){ size_t n=0; while(s[n] && vp_in(s[n],d)) n++; return n; }
size_t strcspn(const char *s,const char *d){ size_t n=0; while(s[n] && !vp_in(s[n],d)) n++; return n; }
char *strpbrk(const char *s,const char *d){ while(*s && !vp_in(*s,d)) s++; return *s ? (char*)s : 0; }
char *strtok_r(char *s,const char *d,char **t){
  char *r; if(s) *t=s; if(!*t) return 0;
  *t+=strspn(*t,d); if(!**t){ *t=0; return 0; }
  r=*t; *t+=strcspn(*t,d);
  if(**t){ **t=0; (*t)++; } else *t=0;
  return r;
}
static char *vp_tok_state;
char *strtok(char *s,const char *d){ return strtok_r(s,d,&vp_tok_state); }
char *strsep(char **t,const char *d){
  char *r=*t; if(!r) return 0;
  *t+=strcspn(*t,d); if(**t){ **t=0; (*t)++; } else *t=0;
  return r;
}
size_t strnlen(const char *s,size_t m){ size_t n=0; while(n<m && s[n]) n++; return n; }
#endif
