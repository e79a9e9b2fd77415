/* Model of GSL's generator front end, as documented (gsl_rng.h). */
#include <stdlib.h>
#include <gsl/gsl_rng.h>
gsl_rng *gsl_rng_alloc(const gsl_rng_type *T){
  gsl_rng *r = malloc(sizeof(gsl_rng));
  r->state = calloc(1,T->size);
  r->type = T;
  r->type->set(r->state,0);
  return r;
}
void gsl_rng_set(const gsl_rng *r,unsigned long seed){ r->type->set(r->state,seed); }
unsigned long gsl_rng_get(const gsl_rng *r){ return r->type->get(r->state); }
double gsl_rng_uniform(const gsl_rng *r){ return r->type->get_double(r->state); }
double gsl_rng_uniform_pos(const gsl_rng *r){ double x; do { x = r->type->get_double(r->state); } while(x==0); return x; }
unsigned long gsl_rng_uniform_int(const gsl_rng *r,unsigned long n){
  unsigned long offset = r->type->min, range = r->type->max - offset, scale, k;
  scale = range/n;
  do { k = (((r->type->get)(r->state)) - offset)/scale; } while(k>=n);
  return k;
}
unsigned long gsl_rng_max(const gsl_rng *r){ return r->type->max; }
unsigned long gsl_rng_min(const gsl_rng *r){ return r->type->min; }
const char *gsl_rng_name(const gsl_rng *r){ return r->type->name; }
void gsl_rng_free(gsl_rng *r){ if(!r) return; free(r->state); free(r); }
