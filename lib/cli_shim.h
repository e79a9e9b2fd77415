/* command line environment: getopt and number conversions are modelled (real semantics) */
#include <getopt.h>
int vp_getopt(int argc,char *const *argv,const char *opts);
extern char *vp_optarg; extern int vp_optind,vp_opterr,vp_optopt;
#define getopt vp_getopt
#define optarg vp_optarg
#define optind vp_optind
#define opterr vp_opterr
#define optopt vp_optopt
long vp_strtol(const char *s,char **e,int base);
#define strtol vp_strtol
#define strtoll vp_strtol
#define strtoul (unsigned long)vp_strtol
#define strtoull (unsigned long)vp_strtol
#define atoi(s) ((int)vp_strtol(s,(char**)0,10))
#define atol(s) vp_strtol(s,(char**)0,10)
#define atoll(s) vp_strtol(s,(char**)0,10)
double vp_strtod(const char *s,char **e);
#define strtod vp_strtod
#define atof(s) vp_strtod(s,(char**)0)
