/* C21: split(), parse(), chop() of parse.c for every short string. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include <dieharder/parse.h>
extern unsigned int verbose;
char splitbuf[PK][PBUF];
#ifndef LEN
#define LEN 4
#endif
static int isd(char c){ return c==' '||c=='\t'||c==','||c=='\n'||c=='\r'||c==':'; }
/* reference: field f of s (start,len) */
static int fields(const char *s,int *st,int *ln,int max){
  int n=0,i=0;
  while(s[i]){
    if(isd(s[i])){ i++; continue; }
    if(n<max){ st[n]=i; ln[n]=0; }
    while(s[i] && !isd(s[i])){ if(n<max) ln[n]++; i++; }
    n++;
  }
  return n;
}
#ifdef H_SPLIT
/* a line of LEN arbitrary characters; the shared table has PK rows of PBUF bytes */
VP_ENTRY(h_split){
  char s[LEN+1],t[LEN+3];
  int i,k,n,w,c,st[16],ln[16];
  for(i=0;i<LEN;i++) t[i+1]=s[i]=(char)vp_u8();
  s[LEN]=t[LEN+1]=0; t[0]='G'; t[LEN+2]='G';
  verbose=0;
  for(k=0;k<PK;k++) for(i=0;i<PBUF;i++) splitbuf[k][i]='o';
  w=fields(s,st,ln,8); c=w<PK-1?w:PK-1;
  n=split(t+1);
  VP_ASSERT(n==c,"split returns the number of fields on the line");
  for(k=0;k<PK;k++) if(k<c){
    int m=ln[k]>PBUF-1?PBUF-1:ln[k];
    for(i=0;i<PBUF-1;i++) if(i<m) VP_ASSERT(splitbuf[k][i]==s[st[k]+i],"every field holds exactly the characters between its separators");
    VP_ASSERT(splitbuf[k][m]==0,"every field is terminated");
  }
  if(w>0) VP_ASSERT(splitbuf[c][0]==0,"the field after the last one is empty");
  VP_ASSERT(t[0]=='G' && t[LEN+2]=='G',"split changes nothing outside its line");
  VP_WITNESS("split ran");
}
#endif
#ifdef H_PARSE
#define MF MAXFIELDS
#define FL FIELDLEN
VP_ENTRY(h_parse){
  static char s[LEN+1],t[LEN+1]; static char buf[MF*(FL+1)+1]; char *out[MF+1];
  int i,k,n,w,c,st[16],ln[16];
  for(i=0;i<LEN;i++){ s[i]=(char)vp_u8(); t[i]=s[i]; }
  s[LEN]=t[LEN]=0;
  verbose=0;
  for(k=0;k<MF;k++) for(i=0;i<FL+1;i++) buf[k*(FL+1)+i]='G';
  buf[MF*(FL+1)]='G';
  for(k=0;k<MF;k++) out[k]=buf+1+k*(FL+1);
  out[MF]=0;
  w=fields(s,st,ln,8); c=w<MF-1?w:MF-1;
  n=parse(t,out,MF,FL);
  VP_ASSERT(n==c,"parse returns the number of fields stored");
  for(k=0;k<MF;k++) if(k<c){
    int m=ln[k]>FL-1?FL-1:ln[k];
    for(i=0;i<FL-1;i++) if(i<m) VP_ASSERT(out[k][i]==s[st[k]+i],"every field holds the characters between its separators, up to the field length");
    VP_ASSERT(out[k][m]==0,"every field is terminated inside its buffer");
  }
  if(w>0) VP_ASSERT(out[c][0]==0,"the field after the last one is empty");
  for(k=0;k<=MF;k++) VP_ASSERT(buf[k*(FL+1)]=='G',"parse writes inside the field buffers only");
  VP_WITNESS("parse ran");
}
#endif
#ifdef H_CHOP
VP_ENTRY(h_chop){
  char s[LEN+2],t[LEN+2]; int i,n=0;
  for(i=0;i<LEN+2;i++){ s[i]=(char)vp_u8(); t[i]=s[i]; }
  s[LEN]=t[LEN]=0;          /* t[LEN+1] and what precedes t+1 are guards */
  while(s[1+n]) n++;
  chop(t+1);
  for(i=0;i<LEN+2;i++)
    if(n>0 && i==n) VP_ASSERT(t[i]==0,"chop removes the last character");
    else VP_ASSERT(t[i]==s[i],"chop changes nothing but the last character");
  VP_WITNESS("chop ran");
}
#endif
