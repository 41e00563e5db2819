/* Small bounded-exhaustive exploration framework shared by all harnesses. */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>

typedef uint64_t u64;

extern int  mc_thorough;                 /* 1 in the thorough tier                                        */
extern int  mc_verbose;                  /* 1 when replaying a single case                                */
extern int  mc_errnbr;                   /* number of errorPrint() calls since mc_errreset()              */
extern char mc_errbuf[1024];             /* last error message                                            */

int  mc_case (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));   /* next case of the enumeration: 1 if it must be run here */
int  mc_skip (void);                     /* cheap: 1 if the next mc_case() would return 0, and count it as seen */
void mc_fail (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));   /* property violated in current case */
int  mc_failed (void);                   /* has current case failed? */
void mc_ops (u64 n);                     /* n operations of the real code executed and compared           */
void mc_state (u64 h);                   /* a state / outcome reached, by hash                            */
void mc_nontrivial (void);               /* current case exercises more than the degenerate path          */
void mc_note (const char * key, long val); /* named counter, summed over shards                           */
void mc_sample (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));
void mc_errreset (void);
u64  mc_hash (u64 h, const void * p, size_t n);
u64  mc_hashi (u64 h, long v);
void mc_run (void);                      /* to be provided by the harness: enumerates all cases           */

/* Memory seam (link with --wrap) */
long mc_live (void);                     /* blocks allocated by the code under test and not yet freed     */
u64  mc_allocs (void);                   /* number of allocation requests so far                          */
void mc_oom (long n);                    /* make the n-th next allocation request fail; -1: none          */
int  mc_oomhit (void);
void mc_hook (void (*f) (void));                      /* called at every request for memory */
void mc_forget (void);                   /* forget the blocks that are live now                           */
void mc_mark (void);
void mc_dump_live (void);             /* when replaying with MC_TRACE set: where blocks alive, not alive at mc_mark(), come from */
char * mc_tmpdir (void);                 /* scratch directory of this process                             */
long mc_clean_baseline (void);
#define MCOPS(x) (mc_ops (1), (x))
#endif
