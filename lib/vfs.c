/* Input stream model shared by solver run and native replay. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include "vfs.h"
extern FILE *vp_stdin;
vfs_t *vfs_file, *vfs_stdin; const char *vfs_opened;
static vfs_t *F(FILE *f){ if(f==vp_stdin) return vfs_stdin; VP_ASSERT(f!=0 && (vfs_t*)f==vfs_file,"stream operations are applied to an open stream only"); return vfs_file; }
FILE *vp_fopen(const char *name,const char *mode){
  vfs_opened = name;
  if(!vfs_file) return 0;
  if(vfs_file->name){ unsigned i; for(i=0;vfs_file->name[i];i++) if(vfs_file->name[i]!=name[i]) return 0; if(name[i]) return 0; }
  vfs_file->open=1; vfs_file->pos=0; vfs_file->eof=0; vfs_file->opens++;
  return (FILE*)vfs_file;
}
int vp_fclose(FILE *f){ vfs_t *v=F(f); v->open=0; v->closes++; return 0; }
size_t vp_fread(void *p,size_t sz,size_t n,FILE *f){
  vfs_t *v=F(f); uint8_t *o=p; size_t want=sz*n,i;
  VP_ASSERT(v->open,"no read from a closed stream");
  for(i=0;i<want;i++){
    if(v->pos>=v->len){ v->eof=1; return i/sz; }
    o[i] = v->data ? v->data[v->pos] : vfs_byte(v,v->pos);
    v->pos++;
  }
  return n;
}
int vp_getc(FILE *f){ uint8_t c; return vp_fread(&c,1,1,f)==1 ? c : EOF; }
static const char *last_buf,*last_tmpl;       /* layout of the line most recently read */
char *vp_fgets(char *s,int n,FILE *f){
  vfs_t *v=F(f); int i=0;
  last_buf=s; last_tmpl=v->tmpl?v->tmpl+v->pos:0;
  VP_ASSERT(v->open,"no read from a closed stream");
  if(v->pos>=v->len){ v->eof=1; return 0; }
  while(i<n-1 && v->pos<v->len){
    uint64_t p=v->pos++;
    s[i++]=v->data[p];
    if(v->tmpl[p]=='\n') break;
  }
  s[i]=0; return s;
}
int vp_feof(FILE *f){ return F(f)->eof; }
int vp_ferror(FILE *f){ return 0; }
void vp_rewind(FILE *f){ vfs_t *v=F(f); v->pos=0; v->eof=0; v->rewinds++; }
int vp_fseek(FILE *f,long off,int wh){ vfs_t *v=F(f); v->pos = wh==SEEK_SET?off:wh==SEEK_CUR?v->pos+off:v->len+off; v->eof=0; return 0; }
long vp_ftell(FILE *f){ return F(f)->pos; }
/* --- text conversions (as libc, C locale) --- */
static int is_sp(char c){ return c==' '||(c>=9&&c<=13); }
static int digit(char c){ if(c>='0'&&c<='9') return c-'0'; if(c>='a'&&c<='z') return c-'a'+10; if(c>='A'&&c<='Z') return c-'A'+10; return 99; }
#ifndef VFS_MAXDIG
#define VFS_MAXDIG 34
#endif
/* s: the text; t: its layout (same positions; equal to s when unknown) -- all
 * control decisions are taken on the layout, all values from the text */
static int scan_int(const char *s,const char *t,int base,int64_t *out,const char **e){
  uint64_t v=0; int neg=0,any=0,i,k=0;
  while(is_sp(t[k])) k++;
  if(t[k]=='-'||t[k]=='+'){ neg = t[k]=='-'; k++; }
  if(base==16 && t[k]=='0' && (t[k+1]=='x'||t[k+1]=='X') && digit(t[k+2])<16) k+=2;
  for(i=0;i<VFS_MAXDIG;i++){
    int d;
    if(s==t){ d=digit(s[k]); if(d>=base) break; }
    else { if(t[k]!='@' && digit(t[k])>=base) break; d=digit(s[k]); VP_ASSUME(d<base); }
    v=v*base+d; any=1; k++; }
  *out = neg ? (int64_t)(0-v) : (int64_t)v; *e=s+k; return any;
}
int vp_atoi(const char *s){ int64_t v; const char *e; scan_int(s,s,10,&v,&e); return (int)v; }
long long vp_atoll(const char *s){ int64_t v; const char *e; scan_int(s,s,10,&v,&e); return v; }
long vp_strtol(const char *s,char **e,int base){ int64_t v; const char *x; int a=scan_int(s,s,base?base:10,&v,&x); if(e) *e=(char*)(a?x:s); return a?v:0; }
unsigned long vp_strtoul(const char *s,char **e,int base){ return vp_strtol(s,e,base); }
#ifndef VFS_NO_SSCANF
int vp_sscanf(const char *s,const char *fmt,...){
  va_list ap; void *p; int64_t v; const char *e; char c; const char *t=s; int lng=0,k=0;
  va_start(ap,fmt); p=va_arg(ap,void*); va_end(ap);
  if(s==last_buf && last_tmpl) t=last_tmpl;
  while(is_sp(t[k]) && t[k]!='\n') k++;
  if(t[k]==0 || t[k]=='\n') return EOF;
  VP_ASSERT(fmt[0]=='%',"harness: conversion understood by the model");
  if(fmt[1]=='l'){ lng=1; c=fmt[2]; } else c=fmt[1];
  if(c=='g'||c=='f'||c=='e'||c=='E'){
    double m=0,sc=1; int i,any=0; uint64_t mant=0;
    for(i=0;i<VFS_MAXDIG;i++){ if(digit(t[k])>9) break; mant=mant*10+digit(s[k]); any=1; k++; }
    if(t[k]=='.'){ k++; for(i=0;i<VFS_MAXDIG;i++){ if(digit(t[k])>9) break; mant=mant*10+digit(s[k]); sc*=10; any=1; k++; } }
    if(!any) return 0;
    m=(double)mant/sc;
    if(lng) *(double*)p=m; else *(float*)p=(float)m;
    return 1;
  }
  if(!scan_int(s,t,c=='o'?8:(c=='x'||c=='X')?16:10,&v,&e)) return 0;
  if(lng) *(unsigned long*)p=v; else *(unsigned int*)p=(unsigned int)v;
  return 1;
}
#endif
static char *tk;
static int in_set(char c,const char *d){ for(;*d;d++) if(*d==c) return 1; return 0; }
char *vp_strtok(char *s,const char *d){
  char *r; if(s) tk=s; if(!tk) return 0;
  while(*tk && in_set(*tk,d)) tk++;
  if(!*tk){ tk=0; return 0; }
  r=tk;
  while(*tk && !in_set(*tk,d)) tk++;
  if(*tk){ *tk=0; tk++; } else tk=0;
  return r;
}
#ifdef VP_SMALL_SPLIT
char splitbuf[8][16];
#endif
