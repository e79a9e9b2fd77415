/* Recorder for formatted output: text between numeric conversions is folded
 * into a hash of the literal characters (concrete), every numeric conversion
 * becomes one record (text before it, width/precision/flags, value).  Two
 * streams are the same output iff their records are equal.                  */
#ifndef SINK_H
#define SINK_H
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
#ifndef SINK_MAX
#define SINK_MAX 96
#endif
typedef struct { unsigned n; uint64_t h; uint64_t H[SINK_MAX]; uint32_t spec[SINK_MAX]; uint64_t val[SINK_MAX]; } sink_t;
extern sink_t *sink_out;         /* where stdout goes (0: dropped) */
extern sink_t *sink_err;
extern sink_t *sink_file; extern const char *sink_file_name; extern int sink_file_open, sink_file_closed;
void sink_print(sink_t *s,const char *fmt,...);
void sink_reset(sink_t *s);
int sink_same(const sink_t *a,const sink_t *b);
void sink_byte(sink_t *s,uint8_t b);
#endif
