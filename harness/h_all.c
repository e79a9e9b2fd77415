/* C20: test registry, selection of one test, and running all tests */
#include "dieharder.h"
#undef exit
#define TESTS(X) X(0,diehard_birthdays,"diehard_birthdays",1) X(1,diehard_operm5,"diehard_operm5",1) X(2,diehard_rank_32x32,"diehard_rank_32x32",1) X(3,diehard_rank_6x8,"diehard_rank_6x8",1) \
 X(4,diehard_bitstream,"diehard_bitstream",1) X(5,diehard_opso,"diehard_opso",1) X(6,diehard_oqso,"diehard_oqso",1) X(7,diehard_dna,"diehard_dna",1) X(8,diehard_count_1s_stream,"diehard_count_1s_stream",1) \
 X(9,diehard_count_1s_byte,"diehard_count_1s_byte",1) X(10,diehard_parking_lot,"diehard_parking_lot",1) X(11,diehard_2dsphere,"diehard_2dsphere",1) X(12,diehard_3dsphere,"diehard_3dsphere",1) X(13,diehard_squeeze,"diehard_squeeze",1) \
 X(14,diehard_sums,"diehard_sums",1) X(15,diehard_runs,"diehard_runs",2) X(16,diehard_craps,"diehard_craps",2) X(17,marsaglia_tsang_gcd,"marsaglia_tsang_gcd",2) \
 X(100,sts_monobit,"sts_monobit",1) X(101,sts_runs,"sts_runs",1) X(102,sts_serial,"sts_serial",30) \
 X(200,rgb_bitdist,"rgb_bitdist",1) X(201,rgb_minimum_distance,"rgb_minimum_distance",1) X(202,rgb_permutations,"rgb_permutations",1) X(203,rgb_lagged_sums,"rgb_lagged_sum",1) X(204,rgb_kstest_test,"rgb_kstest_test",1) \
 X(205,dab_bytedistrib,"dab_bytedistrib",1) X(206,dab_dct,"dab_dct",1) X(207,dab_filltree,"dab_filltree",2) X(208,dab_filltree2,"dab_filltree2",2) X(209,dab_monobit2,"dab_monobit2",1) X(210,dab_birthdays1,"dab_birthdays1",1) X(211,dab_opso2,"dab_opso2",2)
#define NT 33
#define X_NUM(n,f,s,k) n,
#define X_NAME(n,f,s,k) s,
static const int NUM[NT]={TESTS(X_NUM)}; static const char *const NAME[NT]={TESTS(X_NAME)};
static int same(const char *a,const char *b){ unsigned i; for(i=0;a[i]!=0 && a[i]==b[i];i++); return a[i]==b[i]; }
static void stop(void){
#ifdef VP_NATIVE
  exit(0);
#else
  __CPROVER_assume(0);
#endif
}
static int refused_ok;
void vp_exit(int c){ VP_ASSERT(refused_ok,"only an unknown test stops the program"); VP_ASSERT(c!=0,"an unknown test is reported by the exit status"); 
#ifdef W_REFUSE
  VP_WITNESS("refused");
#endif
  stop(); }
#ifdef H_TREG
VP_ENTRY(h_treg){
  unsigned i,j; static Dtest junk;
  dh_test_types[18]=dh_test_types[103]=dh_test_types[212]=dh_test_types[999]=&junk;
  dieharder_test_types();
#define X_CHK(n,f,s,k) VP_ASSERT(dh_test_types[n] && same(dh_test_types[n]->sname,s) && dh_test_types[n]->test==f && dh_test_types[n]->nkps==k && dh_test_types[n]->psamples_std>=1,"documented test number " #n " is " s " with its number of statistics");
  TESTS(X_CHK)
  for(i=0;i<MAXTESTS;i++){ for(j=0;j<NT && NUM[j]!=(int)i;j++); if(j==NT) VP_ASSERT(dh_test_types[i]==0,"no other number is a test"); }
  VP_ASSERT(dh_num_diehard_tests==18 && dh_num_sts_tests==3 && dh_num_other_tests==12,"tests are counted correctly");
  VP_WITNESS("end");
}
#endif
#ifdef H_ALL
static Dtest DT[NT]; static unsigned ni; static int bad;
static unsigned NT0;
/* the documented sequence, generated on the fly: position p=(test index, ntuple) */
static unsigned ei,en; static unsigned loops;
static unsigned first(unsigned t){ unsigned n=NUM[t]; if(NT0==0){ if(n==200) return 1; if(n==201||n==202) return 2; if(n==203) return 0; return 0; }
  if(n==201 && (NT0<2 || NT0>5)) return 5; if(n==202 && NT0<2) return 5; return NT0; }
static unsigned last(unsigned t){ unsigned n=NUM[t]; if(NT0==0){ if(n==200) return 12; if(n==201||n==202) return 5; if(n==203) return 32; } return first(t); }
int execute_test(int d){
  VP_ASSERT(ei<NT,"no test beyond the documented ones"); VP_ASSUME(ei<NT);
  VP_ASSERT(d==NUM[ei],"all registered tests run in order, each the documented number of times");
  VP_ASSERT(ntuple==en,"n-tuple sizes 1..12, 2..5, 2..5 and 0..32 for the tests that have a range, the given size otherwise");
  if(en==last(ei)){ ei++; if(ei<NT) en=first(ei); } else en++;
  return 0;
}
VP_ENTRY(h_all){
  unsigned i;
  for(i=0;i<NT;i++) dh_test_types[NUM[i]]=&DT[i];
  dh_num_diehard_tests=18; dh_num_sts_tests=3; dh_num_other_tests=12;
#ifdef NTUPLE
  NT0=NTUPLE;
#else
  NT0=vp_u32(); VP_ASSUME(NT0>0);
#endif
  ntuple=NT0; ei=0; en=first(0);
  run_all_tests();
  VP_ASSERT(ei==NT,"every registered test runs");
  VP_ASSERT(ntuple==NT0,"the n-tuple size is left as given");
  VP_WITNESS("end");
}
#endif
#ifdef H_ONE
static Dtest DT[NT]; static const Dtest *ran; static unsigned nc,ns,no,nd; static Test TS1,*TP[2];
Test **create_test(Dtest *d,uint t,uint p){ nc++; ran=d; TP[0]=&TS1; TS1.ks_pvalue=0.5; return TP; }
void destroy_test(Dtest *d,Test **t){ nd++; }
void std_test(Dtest *d,Test **t){ VP_ASSERT(d==ran,"one test"); ns++; }
void output(Dtest *d,Test **t){ no++; }
unsigned long random_seed(void){ return 1; }
void gsl_rng_set(const gsl_rng *r,unsigned long s){}
VP_ENTRY(h_one){
  unsigned i; int want=-1; static char nm[40];
  for(i=0;i<NT;i++){ dh_test_types[NUM[i]]=&DT[i]; DT[i].sname=(char*)NAME[i]; DT[i].nkps=1; }
  strategy=0; Xtrategy=0;
#ifdef BYNAME
  strcpy(dtest_name,BYNAME); dtest_num=-1; for(i=0;i<NT;i++) if(same(BYNAME,NAME[i])) want=i;
#else
  dtest_num=BYNUM; for(i=0;i<NT;i++) if(dtest_num==NUM[i]) want=i;
#endif
  refused_ok = want<0;
  run_test();
  VP_ASSERT(want>=0,"an unknown test is refused"); VP_ASSUME(want>=0);
  VP_ASSERT(ran==&DT[want] && nc==1 && ns==1 && no==1 && nd==1,"exactly the selected test runs, once");
#ifndef W_NOEND
  VP_WITNESS("end");
#endif
}
#endif
