FILE *vp_fopen(const char *n,const char *m);
int vp_fclose(FILE *f);
int vp_access(const char *n,int m);
#define fopen vp_fopen
#define fclose vp_fclose
#define access vp_access
