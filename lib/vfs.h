/* one-byte-accurate model of an input stream.  `tmpl` (concrete) tells where
 * the newlines are, `data` holds the (possibly symbolic) bytes.            */
#ifndef VFS_H
#define VFS_H
#include <stdio.h>
#include <stdint.h>
typedef struct {
  const char *name;          /* path it answers to (0: any) */
  const uint8_t *data;       /* contents; 0: abstract contents via vfs_byte() */
  const char *tmpl;          /* layout for fgets */
  uint64_t len,pos;
  int open,eof,opens,closes,rewinds;
} vfs_t;
extern vfs_t *vfs_file;                       /* the one file that exists (besides stdin) */
extern vfs_t *vfs_stdin;
uint8_t vfs_byte(vfs_t *f,uint64_t p);        /* harness: contents of an abstract file */
extern const char *vfs_opened;                /* last path given to fopen */
#endif
