/* Harness vocabulary.  The same harness source is compiled twice:
 *   - by goto-cc, where vp_*() are solver variables (recorded as trace inputs),
 *   - by gcc with -DVP_NATIVE, where vp_*() read the solver's assignment back,
 *     so every counterexample is replayed against the real code.            */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>

#ifdef VP_NATIVE
uint8_t  vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
double   vp_double(void);
void vp_native_assert(int c,const char *msg,const char *file,int line);
void vp_native_assume(int c,const char *file,int line);
void vp_native_witness(void);
#define VP_ASSERT(c,msg) vp_native_assert(!!(c),msg,__FILE__,__LINE__)
#define VP_ASSUME(c)     vp_native_assume(!!(c),__FILE__,__LINE__)
#define VP_WITNESS(msg)  vp_native_witness()
#else
uint8_t  nondet_vp_u8(void);
uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void);
double   nondet_vp_double(void);
static inline uint8_t  vp_u8(void){ uint8_t  vp_in = nondet_vp_u8();  __CPROVER_input("u8",vp_in);  return vp_in; }
static inline uint16_t vp_u16(void){ uint16_t vp_in = nondet_vp_u16(); __CPROVER_input("u16",vp_in); return vp_in; }
static inline uint32_t vp_u32(void){ uint32_t vp_in = nondet_vp_u32(); __CPROVER_input("u32",vp_in); return vp_in; }
static inline uint64_t vp_u64(void){ uint64_t vp_in = nondet_vp_u64(); __CPROVER_input("u64",vp_in); return vp_in; }
static inline double   vp_double(void){ double vp_in = nondet_vp_double(); __CPROVER_input("f64",vp_in); return vp_in; }
#define VP_ASSERT(c,msg) __CPROVER_assert((c),"VP: " msg)
#define VP_ASSUME(c)     __CPROVER_assume(c)
/* Reachability witness: MUST come back violated, else the harness is vacuous. */
#define VP_WITNESS(msg)  __CPROVER_assert(0,"WITNESS: " msg)
#endif

static inline uint32_t vp_range(uint32_t lo,uint32_t hi){ uint32_t v = vp_u32(); VP_ASSUME(v>=lo && v<=hi); return v; }
static inline int vp_bool(void){ return vp_u8() & 1; }
#define VP_ENTRY(name) void name(void)
#endif
