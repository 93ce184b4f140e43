/* Harness API.  See DESIGN.md, "Harness machinery". */
#ifndef VF_H
#define VF_H
#include "vf_redirect.h"
#ifdef __CPROVER
#define VF_CHECK(c, msg)  __CPROVER_assert((c), "VF: " msg)
#define VF_ASSUME(c)      __CPROVER_assume(c)
#define VF_REACH(label)   __CPROVER_assert(0, "REACH: " label)
#else
void vf_check_failed(const char *, const char *, int);
void vf_assume_failed(const char *, int);
void vf_reached(const char *);
#define VF_CHECK(c, msg)  do { if(!(c)) vf_check_failed(msg, __FILE__, __LINE__); } while(0)
#define VF_ASSUME(c)      do { if(!(c)) vf_assume_failed(__FILE__, __LINE__); } while(0)
#define VF_REACH(label)   vf_reached(label)
#endif
/* symbolic inputs (replayed natively from the solver's assignment) */
unsigned char vf_u8(void);
unsigned vf_u16(void);
unsigned vf_u32(void);
long vf_range(long lo, long hi);      /* lo..hi inclusive */
int vf_bool(void);
void vf_bytes(void *p, size_t n);     /* n arbitrary bytes */
/* arbitrary NUL-terminated string, strlen <= n; buffer n+1 bytes */
void vf_str(char *p, size_t n);
/* heap copy with exact size, for out-of-bounds detection */

/* ---- file model ---- */
#ifndef VF_NFILES
#define VF_NFILES 4
#endif
#ifndef VF_FSIZE
#define VF_FSIZE 128
#endif
#ifndef VF_NSTREAMS
#define VF_NSTREAMS 4
#endif
#ifndef VF_NAMELEN
#define VF_NAMELEN 48
#endif
struct vf_inode { unsigned char data[VF_FSIZE]; int len; };
struct vf_stream { int used, ino, pos, rd, wr, app, eof, err, fd; };
extern struct vf_inode vf_inodes[VF_NFILES];
extern struct vf_stream vf_streams[VF_NSTREAMS];
/* directory: name -> inode */
#ifndef VF_NDENT
#define VF_NDENT VF_NFILES
#endif
struct vf_dent { int used, ino, isdir; char name[VF_NAMELEN]; };
extern struct vf_dent vf_dents[VF_NDENT];
extern int vf_open_count, vf_ino_next;
int vf_lookup(const char *name);            /* dent index or -1 */
int vf_mkfile(const char *name);            /* create empty file, returns inode */
FILE *vf_stream_on(int ino, const char *mode);   /* stream on an inode, no name */
/* environment switches set by harnesses */
extern int vf_fault_on;      /* inject I/O failures while set */
extern int vf_faults;        /* number injected so far */
extern int vf_fault_max;
extern int vf_exited, vf_exit_code;
extern time_t vf_now;
extern int vf_ops;           /* operations done on the file system */
void vf_op_hook(void);       /* called before every file-system op (harness) */
int vf_fault(void);
/* case split: number of decimal digits of the next numbers printed (0: any) */
extern int vf_digs[16], vf_digi, vf_dign;
#endif
