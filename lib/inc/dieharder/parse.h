/* With VP_SMALL_SPLIT the shared field table has 8 rows of 16 (or VP_PK rows of VP_PB) instead of 1024 rows of 128 bytes (bound). */
#ifdef VP_SMALL_SPLIT
#define splitbuf vp_unused_splitbuf
#include_next <dieharder/parse.h>
#undef splitbuf
#undef PK
#ifndef VP_PK
#define VP_PK 8
#define VP_PB 16
#endif
#define PK VP_PK
#undef PBUF
#define PBUF VP_PB
extern char splitbuf[PK][PBUF];
#else
#include_next <dieharder/parse.h>
#endif
