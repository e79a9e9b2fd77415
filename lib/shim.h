/* Force-included before every /repo source: environment calls are redirected
 * to the models in /verif/lib (same models under CBMC and in native replay).
 * No line of /repo is edited.                                              */
#ifndef VP_SHIM_H
#define VP_SHIM_H
#define _FILE_OFFSET_BITS 64
#define __NO_CTYPE 1   /* is*()/to*() as functions, which have models */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <math.h>
#include <limits.h>
#ifdef __cplusplus
#error C only
#endif
extern FILE *vp_stdin,*vp_stdout,*vp_stderr;
#undef stdin
#undef stdout
#undef stderr
#define stdin vp_stdin
#define stdout vp_stdout
#define stderr vp_stderr
void vp_exit(int code) __attribute__((noreturn));
#define exit(c) vp_exit(c)
int vp_printf(const char *fmt,...);
int vp_fprintf(FILE *f,const char *fmt,...);
#define printf vp_printf
#define fprintf vp_fprintf
int vp_fflush(FILE *f);
#define fflush vp_fflush
double vp_pow(double a,double b);
#define pow vp_pow
#ifndef VP_NO_SQRT
double vp_sqrt(double a);
#define sqrt vp_sqrt
#endif
double vp_exp(double a);
#define exp vp_exp
double vp_log(double a);
#define log vp_log
double vp_cos(double a);
#define cos vp_cos
#ifdef VP_SHIM_EXTRA
#include VP_SHIM_EXTRA
#endif
#endif
