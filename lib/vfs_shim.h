/* extra shim: stdio input / stat calls of /repo sources go to lib/vfs.c */
#include <errno.h>
FILE *vp_fopen(const char *name,const char *mode);
int vp_fclose(FILE *f);
size_t vp_fread(void *p,size_t sz,size_t n,FILE *f);
char *vp_fgets(char *s,int n,FILE *f);
int vp_feof(FILE *f);
int vp_ferror(FILE *f);
int vp_getc(FILE *f);
void vp_rewind(FILE *f);
int vp_fseek(FILE *f,long off,int wh);
long vp_ftell(FILE *f);
int vp_stat(const char *name,struct stat *sb);
int vp_sscanf(const char *s,const char *fmt,...);
char *vp_strtok(char *s,const char *d);
int vp_atoi(const char *s);
long long vp_atoll(const char *s);
long vp_strtol(const char *s,char **e,int base);
unsigned long vp_strtoul(const char *s,char **e,int base);
#define fopen vp_fopen
#define fclose vp_fclose
#define fread vp_fread
#define fgets vp_fgets
#define feof vp_feof
#define ferror vp_ferror
#undef getc
#define getc vp_getc
#define fgetc vp_getc
#define rewind vp_rewind
#define fseek vp_fseek
#define fseeko vp_fseek
#define ftell vp_ftell
#define stat(a,b) vp_stat(a,b)
#define sscanf vp_sscanf
#define strtok vp_strtok
#define atoi vp_atoi
#define atol vp_atoll
#define atoll vp_atoll
#define strtol vp_strtol
#define strtoll vp_strtol
#define strtoul vp_strtoul
#define strtoull vp_strtoul
