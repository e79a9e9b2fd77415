From 90d4841f197a576df5f0f2c283fa787b76ce8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:57 +0000
Subject: [PATCH 01/26] fix: get_uint_rand() left the previous word in its
 accumulator when the generator width divides 32

---
 libdieharder/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa7c4d3..bad8dca 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -995,6 +995,7 @@ unsigned int get_uint_rand(gsl_rng *gsl_rng)
   * need to start over on the next one.
   */
  if(bleft == rmax_bits){
+   bits_rand[1] = 0;
    bleft = bu;
  } else {
    bits_rand[1] = b_window(bits_rand[0],bu-rmax_bits,bu-bleft-1,bu-rmax_bits+bleft);
-- 
2.43.0


From d9264399ab43e14434dc3987f857864218e30393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 02/26] fix: get_ntuple_cyclic() terminated the program for
 windows longer than one word whose last partial word straddles two outputs

---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index bad8dca..ac2cb9c 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -821,7 +821,7 @@ void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
     * partial line.
     * Rule 2c
     */
-   if(bleft == br2 && br2 < bu) {
+   if(bleft == br2 && br2 < bu && bs >= be) {
      MYDEBUG(D_BITS) {
        printf("Rule 2c: From input[%d] to output[%d] = ",i,j);
      }
-- 
2.43.0


From c6ab32ee95412d5ec3886c61f6e19392ebd59eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 03/26] fix: file_input_set_rtot() overwrote the generator
 object instead of its state

---
 libdieharder/rng_file_input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e70632a..3eb34c9 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -70,8 +70,8 @@ file_input_get_rtot(gsl_rng *rng)
 void
 file_input_set_rtot(gsl_rng *rng,uint value)
 {
-  file_input_state_t *state = (file_input_state_t *) rng;
-  state->rtot = 0;
+  file_input_state_t *state = (file_input_state_t *) rng->state;
+  state->rtot = value;
 }
 
 static unsigned long int file_input_get (void *vstate)
-- 
2.43.0


From 6cb8acb32e72ee258f9cc353b158df6b4d929ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 04/26] fix: file_input truncated floating point values to 0
 before scaling them to 32 bits

---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 3eb34c9..9a77e48 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -123,7 +123,7 @@ static unsigned long int file_input_get (void *vstate)
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-       iret = (uint) f*UINT_MAX;
+       iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
-- 
2.43.0


From 175bac5317ad815c19f78790106f6aa8f82be36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 05/26] fix: file_input returned an uninitialised value for a
 blank data line

---
 libdieharder/rng_file_input.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 9a77e48..b1ca3e8 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -106,7 +106,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'd':
      case 'i':
      case 'u':
-       if(0 == sscanf(inbuf,"%u",&iret)){
+       if(1 != sscanf(inbuf,"%u",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -119,7 +119,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'f':
      case 'F':
      case 'g':
-       if(0 == sscanf(inbuf,"%lg",&f)){
+       if(1 != sscanf(inbuf,"%lg",&f)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -129,7 +129,7 @@ static unsigned long int file_input_get (void *vstate)
       * OK, so octal is really pretty silly, but we got it.  Still uint.
       */
      case 'o':
-       if(0 == sscanf(inbuf,"%o",&iret)){
+       if(1 != sscanf(inbuf,"%o",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -138,13 +138,13 @@ static unsigned long int file_input_get (void *vstate)
       * hexadecimal is silly too, but we got it.  uint, of course.
       */
      case 'x':
-       if(0 == sscanf(inbuf,"%x",&iret)){
+       if(1 != sscanf(inbuf,"%x",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
        break;
      case 'X':
-       if(0 == sscanf(inbuf,"%X",&iret)){
+       if(1 != sscanf(inbuf,"%X",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-- 
2.43.0


From 2387d91ca8293bac9850b291ec1b47596787b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 06/26] fix: file_input truncated header counts of 2^31 and
 more

---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index b1ca3e8..0c0f87c 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -325,7 +325,7 @@ static void file_input_set (void *vstate, unsigned long int s)
        }
      }
      if(strncmp(splitbuf[0],"count",5) == 0){
-       state->flen = atoi(splitbuf[1]);
+       state->flen = atoll(splitbuf[1]);
        filecount = state->flen;
        cnt++;
        if(verbose){ 
-- 
2.43.0


From 2ff886dafafb5456fe0bc2e7583a6578b45b24b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 07/26] fix: /dev/*random generators returned 64 bit values
 beyond their declared range and ignored read errors

---
 libdieharder/rng_dev_arandom.c | 7 +++++--
 libdieharder/rng_dev_random.c  | 7 +++++--
 libdieharder/rng_dev_urandom.c | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 226e362..8a85e54 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -21,10 +21,13 @@ static unsigned long int
 dev_arandom_get (void *vstate)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1) {
+      fprintf(stderr,"Error: reading /dev/arandom failed.  Exiting.\n");
+      exit(0);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/arandom not open.  Exiting.\n");
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index ed4335c..2804399 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -21,10 +21,13 @@ static unsigned long int
 dev_random_get (void *vstate)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1) {
+      fprintf(stderr,"Error: reading /dev/random failed.  Exiting.\n");
+      exit(0);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/random not open.  Exiting.\n");
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index e4933c5..eb95b5e 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -21,10 +21,13 @@ static unsigned long int
 dev_urandom_get (void *vstate)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1) {
+      fprintf(stderr,"Error: reading /dev/urandom failed.  Exiting.\n");
+      exit(0);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/urandom not open.  Exiting.\n");
-- 
2.43.0


From dd06da1b25a83413bc8384cc4c5e59781b7253f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 08/26] fix: chop() wrote in front of an empty string

---
 libdieharder/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/parse.c b/libdieharder/parse.c
index 7bc8781..13a5a0d 100644
--- a/libdieharder/parse.c
+++ b/libdieharder/parse.c
@@ -135,6 +135,7 @@ void chop(char *buf)
 {
 
  /* Advance to end of string */
+ if(*buf == 0) return;
  while(*buf != 0) buf++;
  buf--;
  /* Reterminate one character earlier */
-- 
2.43.0


From 8de1e5bf1a0db68497ca7cf374bf8c49767210e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:54 +0000
Subject: [PATCH 09/26] fix: split() and parse() left fields longer than the
 field size unterminated

---
 libdieharder/parse.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdieharder/parse.c b/libdieharder/parse.c
index 13a5a0d..e63764e 100644
--- a/libdieharder/parse.c
+++ b/libdieharder/parse.c
@@ -49,6 +49,7 @@ int split(char *inbuffer)
  if(nextval == (char *)NULL) return 0;
  int i = 0;
  strncpy(splitbuf[i],nextval,PBUF);
+ splitbuf[i][PBUF-1] = 0;
  if(verbose){
    printf("split(): split field[%d] = %s.\n",i,splitbuf[i]);
  }
@@ -58,6 +59,7 @@ int split(char *inbuffer)
    nextval = strtok((char *) NULL, delim);
    if(nextval == (char *)NULL) break;
    strncpy(splitbuf[i], nextval,PBUF);
+   splitbuf[i][PBUF-1] = 0;
    if(verbose){
      printf("split(): split field[%d] = %s.\n",i,splitbuf[i]);
    }
@@ -107,7 +109,8 @@ int parse(char *inbuffer,char **outfields,int maxfields,int maxfieldlength)
  
  nextval = strtok(inbuffer,delim);
  if(nextval == (char *)NULL) return 0;
- strncpy(outfields[i++],nextval,maxfieldlength);
+ strncpy(outfields[i],nextval,maxfieldlength);
+ outfields[i++][maxfieldlength-1] = 0;
  if(verbose){
    printf("parse(): Parsed field[%d] = %s.\n",i-1,outfields[i-1]);
  }
@@ -115,7 +118,8 @@ int parse(char *inbuffer,char **outfields,int maxfields,int maxfieldlength)
  while(i < maxfields-1){
    nextval = strtok((char *) NULL, delim);
    if(nextval == (char *)NULL) break;
-   strncpy(outfields[i++], nextval,maxfieldlength);
+   strncpy(outfields[i], nextval,maxfieldlength);
+   outfields[i++][maxfieldlength-1] = 0;
    if(verbose){
      printf("parse(): Parsed field[%d] = %s.\n",i-1,outfields[i-1]);
    }
-- 
2.43.0


From 710aa5edda56e7023c27583e69965742958429b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 10/26] fix: XOR generator combined its first component with
 itself (two draws) instead of using it once

---
 libdieharder/rng_XOR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 27948d3..a44b4b4 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -40,7 +40,7 @@ XOR_get (void *vstate)
   * to have to decorate this code with error checks...
   */
  state->XOR_rnd = gsl_rng_get(state->grngs[1]);
- for(i=1;i<gvcount;i++){
+ for(i=2;i<gvcount;i++){
    state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);
  }
  return state->XOR_rnd;
-- 
2.43.0


From 651c7078880a2c73166a310f0d78d77309237cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 11/26] fix: superkiss returned values beyond its declared 32
 bit range

---
 libdieharder/rng_superkiss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 92159ed..2282779 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -75,7 +75,7 @@ superkiss_get (void *vstate)
  state->xs ^= state->xs>>17;
  state->xs ^= state->xs>>5;
 
- return ( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs;
+ return (unsigned int) (( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs);
 
 }
 
-- 
2.43.0


From 47dc19cb7caaab6a15ca08159f06bc1ac2b2c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 12/26] fix: ca generator ignored the seed it was given and
 changed the program's seed instead

---
 libdieharder/rng_ca.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdieharder/rng_ca.c b/libdieharder/rng_ca.c
index 1c8da8f..f0c3791 100644
--- a/libdieharder/rng_ca.c
+++ b/libdieharder/rng_ca.c
@@ -133,14 +133,14 @@ ca_set (void *vstate, unsigned long int s) {
     init_config[i] = 0;
 
   /* set initial cell states using seed */
-  init_config[CA_WIDTH - 1] = (unsigned char)(seed);
-  init_config[CA_WIDTH - 2] = (unsigned char)(seed << 8);
-  init_config[CA_WIDTH - 3] = (unsigned char)(seed << 16);
-  init_config[CA_WIDTH - 4] = (unsigned char)(seed << 24);
-  if (seed != 0xFFFFFFFF)
-     seed++;
+  init_config[CA_WIDTH - 1] = (unsigned char)(s);
+  init_config[CA_WIDTH - 2] = (unsigned char)(s << 8);
+  init_config[CA_WIDTH - 3] = (unsigned char)(s << 16);
+  init_config[CA_WIDTH - 4] = (unsigned char)(s << 24);
+  if (s != 0xFFFFFFFF)
+     s++;
   for (i = 0; i < CA_WIDTH - 4; i++)
-    init_config[i] = (unsigned char) ( seed >> (i % 32) );
+    init_config[i] = (unsigned char) ( s >> (i % 32) );
 
   /* define addresses of first_cell and last_cell */
   first_cell = init_config;
-- 
2.43.0


From 487704f9f158822d4fd4f6ce8042ff0ff640eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 13/26] fix: binary_rank() did not eliminate the later words of
 matrices wider than 32 columns

---
 libdieharder/rank.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rank.c b/libdieharder/rank.c
index d114a6a..f4da01b 100644
--- a/libdieharder/rank.c
+++ b/libdieharder/rank.c
@@ -171,7 +171,7 @@ int binary_rank(uint **mtx,int mrows,int ncols)
            if(verbose == D_BRANK || verbose == D_ALL){
              printf("xoring column = %2d\n",n);
 	   }
-           mtx[k][n] ^= mtx[i][n];
+           mtx[k][col_ind+n] ^= mtx[i][col_ind+n];
 	   n--;
          }
          if(verbose == D_BRANK || verbose == D_ALL){
-- 
2.43.0


From 36153e24d9414a55dafd2cb75083b272dff70493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:33 +0000
Subject: [PATCH 14/26] fix: uvag seeding depended on bits left in the shared
 bit buffers

---
 libdieharder/rng_uvag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 7f77436..46d7b73 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -156,6 +156,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
    rmax_mask++;
    rmax_bits++;
  }
+ reset_bit_buffers();
  for(i=0;i<256;i++){
    /* if(i%32 == 0) printf("\n"); */
    get_rand_bits(&tmp8,sizeof(uint),8,seed_rng);
@@ -167,6 +168,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
    /* printf("%02x",key[i]); */
  }
  /* printf("\n"); */
+ reset_bit_buffers();
 
  kp = key;
  tot = 0;
-- 
2.43.0


From 125886c20c961d5f9d62d03ca0031e7aab9faebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:15 +0000
Subject: [PATCH 15/26] fix: std_test() cut -p at the Xoff cutoff even outside
 of the RA and TTD modes

---
 libdieharder/std_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/std_test.c b/libdieharder/std_test.c
index f69c2a7..fabb9de 100644
--- a/libdieharder/std_test.c
+++ b/libdieharder/std_test.c
@@ -224,7 +224,7 @@ void add_2_test(Dtest *dtest, Test **test, int count)
   * of how many samples we have at the end of it all.
   */
  imax = test[0]->psamples + count;
- if(imax > Xoff) imax = Xoff;
+ if(Xtrategy != 0 && imax > Xoff) imax = Xoff;
  count = imax - test[0]->psamples;
  for(i = test[0]->psamples; i < imax; i++){
    dtest->test(test,i);
-- 
2.43.0


From d11f2aac6d67669f9cd0fe65c88608166f68ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:15 +0000
Subject: [PATCH 16/26] fix: output_rnds() never terminated for counts beyond
 32 bits

---
 dieharder/output_rnds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dieharder/output_rnds.c b/dieharder/output_rnds.c
index d30573c..36fa48a 100644
--- a/dieharder/output_rnds.c
+++ b/dieharder/output_rnds.c
@@ -18,7 +18,8 @@
 void output_rnds()
 {
 
- unsigned int i,j;
+ unsigned long int i;
+ unsigned int j;
  double d;
  FILE *fp;
 
-- 
2.43.0


From 820a9368315b5c31353cadf87c7ac8aa9f94b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:04 +0000
Subject: [PATCH 17/26] fix: execute_test() reseeded the generator but kept
 serving bits of the old stream

---
 dieharder/run_test.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dieharder/run_test.c b/dieharder/run_test.c
index 810427b..607149c 100644
--- a/dieharder/run_test.c
+++ b/dieharder/run_test.c
@@ -66,6 +66,7 @@ int execute_test(int dtest_num)
      }
    }
    gsl_rng_set(rng,seed);
+   reset_bit_buffers();
 
  }
 
-- 
2.43.0


From fc12cb106d74b3e9c315178aeecfdc9e4b2b4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 18/26] Revert "fix: execute_test() reseeded the generator but
 kept serving bits of the old stream"

This reverts commit 820a9368315b5c31353cadf87c7ac8aa9f94b5a6.
---
 dieharder/run_test.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dieharder/run_test.c b/dieharder/run_test.c
index 607149c..810427b 100644
--- a/dieharder/run_test.c
+++ b/dieharder/run_test.c
@@ -66,7 +66,6 @@ int execute_test(int dtest_num)
      }
    }
    gsl_rng_set(rng,seed);
-   reset_bit_buffers();
 
  }
 
-- 
2.43.0


From 823c89007e2480e20cba644fcedb8bae96968f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:51 +0000
Subject: [PATCH 19/26] Revert "fix: std_test() cut -p at the Xoff cutoff even
 outside of the RA and TTD modes"

This reverts commit 125886c20c961d5f9d62d03ca0031e7aab9faebb.
---
 libdieharder/std_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/std_test.c b/libdieharder/std_test.c
index fabb9de..f69c2a7 100644
--- a/libdieharder/std_test.c
+++ b/libdieharder/std_test.c
@@ -224,7 +224,7 @@ void add_2_test(Dtest *dtest, Test **test, int count)
   * of how many samples we have at the end of it all.
   */
  imax = test[0]->psamples + count;
- if(Xtrategy != 0 && imax > Xoff) imax = Xoff;
+ if(imax > Xoff) imax = Xoff;
  count = imax - test[0]->psamples;
  for(i = test[0]->psamples; i < imax; i++){
    dtest->test(test,i);
-- 
2.43.0


From cc0eec653f066c86a8533edc5513e8a432826a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:56 +0000
Subject: [PATCH 20/26] fix: -D file_rng_stat was refused, the last output flag
 name was never looked up

---
 dieharder/parsecl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f93b946..ff2db11 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -80,7 +80,7 @@ void parsecl(int argc, char **argv)
 	  * then try to lookup a string instead and convert to
 	  * the index/number needed.
 	  */
-	 for(i=0;i<TCNT;i++){
+	 for(i=0;i<=TCNT;i++){
 	   if(strncmp(optarg,table_fields[i],TLENGTH) == 0){
              /* printf("Setting table option %s.\n",optarg); */
 	     /*
@@ -95,7 +95,7 @@ void parsecl(int argc, char **argv)
 	     break;
 	   }
 	 }
-	 if(i == TCNT) {
+	 if(i > TCNT) {
 	   fprintf(stderr,"Invalid -T %s option.\n",optarg);
 	   exit(1);
 	 }
-- 
2.43.0


From aca944db499932e64138cbe04cfa376a2f7c9dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:56 +0000
Subject: [PATCH 21/26] fix: -f cut file names at 128 characters

---
 dieharder/parsecl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index ff2db11..64536da 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -137,7 +137,8 @@ void parsecl(int argc, char **argv)
        show_flags = 1;
        break;
      case 'f':
-       strncpy(filename,optarg,128);
+       strncpy(filename,optarg,K);
+       filename[K-1] = '\0';
        fromfile = 1;
        break;
      /*
-- 
2.43.0


From 1778bb0e4b489cc9175f6fc59c7f25f89162da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:56 +0000
Subject: [PATCH 22/26] fix: more than GVECMAX -g or -S options wrote behind
 the generator tables

---
 dieharder/parsecl.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 64536da..f4cce62 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -152,10 +152,15 @@ void parsecl(int argc, char **argv)
       * by the choose_rng function later.
       */
      case 'g':
+       if(gvcount >= GVECMAX){
+         fprintf(stderr,"Error: no more than %d generators can be given with -g.\n",GVECMAX);
+         exit(1);
+       }
        gen_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
        if(strncmp(optarg,endptr,1) == 0){
          strncpy(gnames[gvcount],optarg,128);
+         gnames[gvcount][127] = '\0';
        } else {
          gnumbs[gvcount] = gen_tmp;
        }
@@ -204,8 +209,10 @@ void parsecl(int argc, char **argv)
        break;
      case 'S':
        Seed = strtol(optarg,(char **) NULL,10);
-       gseeds[gscount] = gen_tmp;
-       gscount++;
+       if(gscount < GVECMAX){
+         gseeds[gscount] = gen_tmp;
+         gscount++;
+       }
        break;
      case 's':
        strategy = strtol(optarg,(char **) NULL,10);
-- 
2.43.0


From 32a9b6dc507421c6fe90c6a1357a878e834039a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 23/26] fix: XOR components given by name were ignored and
 missing components crashed

---
 dieharder/choose_rng.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index f5d4e49..a251994 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -99,7 +99,7 @@ void choose_rng()
 int select_rng(int gennum,char *genname,unsigned int initial_seed)
 {
 
- int i;
+ int i,j;
 
  /*
   * REALLY out of bounds we can just test for and return an error.
@@ -166,6 +166,27 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    }
  }
 
+ /*
+  * The XOR supergenerator needs components, which may be given by name or
+  * by number just like the generator itself.  All of them have to exist.
+  */
+ if(dh_rng_types[gennum] == gsl_rng_XOR){
+   if(gvcount < 2) return(-1);
+   for(j=1;j<gvcount;j++){
+     if(gnames[j][0] != 0){
+       gnumbs[j] = MAXRNGS;
+       for(i=0;i<MAXRNGS;i++){
+         if(dh_rng_types[i] && strncmp(dh_rng_types[i]->name,gnames[j],20) == 0){
+           gnumbs[j] = i;
+           break;
+         }
+       }
+     }
+     if(gnumbs[j] >= MAXRNGS || dh_rng_types[gnumbs[j]] == 0 ||
+        dh_rng_types[gnumbs[j]] == gsl_rng_XOR) return(-1);
+   }
+ }
+
  /*
   * If we get here, in principle the gennum is valid and the right
   * inputs are defined to run it (in the case of file_input). We therefore
-- 
2.43.0


From 62901429745ed20807f2a34dd4d05ba1c8d0e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 24/26] fix: dab_birthdays1 skipped a spacing after a repeated
 one and read behind the spacings

---
 libdieharder/dab_birthdays1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index 3eb8b2f..cda7a1d 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -170,7 +170,7 @@ int dab_birthdays1(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
@@ -185,7 +185,7 @@ int dab_birthdays1(Test **test, int irun)
      /*
       * Skip all the rest that were identical.
       */
-     if(mnext != m+1) m = mnext;
+     if(mnext != m+1) m = mnext - 1;
    }
 
    /*
-- 
2.43.0


From 8f5e4b65e9ad432a929e16c30238a3d5c273f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 25/26] fix: diehard_birthdays read behind the list of spacings

---
 libdieharder/diehard_birthdays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/diehard_birthdays.c b/libdieharder/diehard_birthdays.c
index 9fc8e3e..1f856ea 100644
--- a/libdieharder/diehard_birthdays.c
+++ b/libdieharder/diehard_birthdays.c
@@ -185,7 +185,7 @@ int diehard_birthdays(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From 9148cf570b416b283d8827c8279230bcf3fe9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 26/26] fix: diehard_bitstream and diehard_dna took words seen
 a multiple of 256 times for missing

---
 libdieharder/diehard_bitstream.c | 4 ++--
 libdieharder/diehard_dna.c       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index 2038366..d007104 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -169,7 +169,7 @@ int diehard_bitstream(Test **test, int irun)
        dumpuintbits(&w20, 1);
        printf("\n");
      }
-     w[w20]++;
+     w[w20] = 1;
 
    } else {
 
@@ -235,7 +235,7 @@ int diehard_bitstream(Test **test, int irun)
          printf("\n");
        }
      }
-     w[w20]++;
+     w[w20] = 1;
 
    }
  }
diff --git a/libdieharder/diehard_dna.c b/libdieharder/diehard_dna.c
index 98d0db7..9293e4f 100644
--- a/libdieharder/diehard_dna.c
+++ b/libdieharder/diehard_dna.c
@@ -166,7 +166,7 @@ int diehard_dna(Test **test, int irun)
    q = get_bit_ntuple_from_uint(q0,2,mask,boffset);
    r = get_bit_ntuple_from_uint(r0,2,mask,boffset);
    /* printf("%u:   %u  %u  %u  %u  %u\n",t,i,j,k,l,boffset); */
-   w[i][j][k][l][m][n][o][p][q][r]++;
+   w[i][j][k][l][m][n][o][p][q][r] = 1;
    boffset++;
  }
 
-- 
2.43.0

