/* Ghost model of one regular file, shared by the contracts of file.c.
   H(i)   header word of data block i (uninterpreted)
   P(i)   image position of data block i: P(0) = start_block, P(i+1) = P(i) + length(H(i))
   The header words lie one after the other in the metadata stream from inode->next on. */
#ifndef BLOCKS_H
#define BLOCKS_H
#include "lsq.h"
#include "squash/fs.h"
#include "squash/file.h"
#define BS ((uint64_t)1 << LG)
uint32_t __CPROVER_uninterpreted_H(uint64_t i);
uint64_t __CPROVER_uninterpreted_P(uint64_t i);
int64_t __CPROVER_uninterpreted_MDB(uint64_t m);
#define H(i) __CPROVER_uninterpreted_H(i)
#define P(i) __CPROVER_uninterpreted_P(i)
#define LEN(h) ((h) & ~(1u << 24))
/* position of the m-th metadata block after the one that holds inode->next */
#define MDB(m) __CPROVER_uninterpreted_MDB(m)
/* number of whole data blocks of a file */
#define COUNT(size, frag) (((size) >> LG) + ((frag) == 0xffffffffu && ((size) & (BS - 1)) ? 1 : 0))
#define MAXFILE (1ull << 50)
uint64_t g_off0;        /* inode->next.offset */
/* a cursor at header word i of the file: metadata is split every 8192 bytes */
#define ABSI(i) (g_off0 + 4 * (uint64_t)(i))
#define CURAT(c, i) ((c).block == MDB(ABSI(i) >> 13) && (c).offset == (ABSI(i) & 8191))
#endif
