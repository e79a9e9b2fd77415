int vp_putc(int c,FILE *f); int vp_fputs(const char *t,FILE *f); int vp_puts(const char *t);
size_t vp_fwrite(const void *p,size_t sz,size_t n,FILE *f); FILE *vp_fopen(const char *name,const char *mode); int vp_fclose(FILE *f);
#undef putc
#define putc vp_putc
#define fputc vp_putc
#undef putchar
#define putchar(c) vp_putc(c,vp_stdout)
#define fputs vp_fputs
#define puts vp_puts
#define fwrite vp_fwrite
#define fopen vp_fopen
#define fclose vp_fclose
