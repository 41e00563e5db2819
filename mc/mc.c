#define _GNU_SOURCE
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>

int mc_thorough = 0, mc_verbose = 0, mc_errnbr = 0;
char mc_errbuf[1024];

static struct Shared { volatile u64 idx; volatile u64 beat; volatile u64 total; char desc[8000]; } shdummy, *sh = &shdummy;
static u64 until = ~0ULL; static u64 cur = 0, from = 0, shardi = 0, shardn = 1, ran = 0, ops = 0, nontriv = 0, fails = 0;
static long only = -1;
static int infail, innont;
static FILE *outf;
static char statepath[512], tmpdir[256];
static u64 *hset; static u64 hcap, hcnt; static int hover;
static struct { char k[48]; long v; } notes[64]; static int notenbr;
static char samples[6][600]; static int samplenbr;
static u64 maxcases = 0;

u64 mc_hash (u64 h, const void *p, size_t n) {
  const unsigned char *c = p;
  while (n --) { h ^= *c ++; h *= 0x100000001b3ULL; }
  h ^= h >> 29; return h * 0xbf58476d1ce4e5b9ULL;
}
u64 mc_hashi (u64 h, long v) { h ^= (u64) v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }

#ifdef MC_WRAP                                       /* the table of states is not memory of the code under test */
extern void *__real_calloc (size_t, size_t); extern void __real_free (void *);
#define hcalloc __real_calloc
#define hfree   __real_free
#else
#define hcalloc calloc
#define hfree   free
#endif
static void hput (u64 h) {
  u64 i;
  if (h == 0) h = 1;
  if (hcap == 0) { hcap = 1 << 14; hset = hcalloc (hcap, 8); }
  if (hcnt * 2 > hcap) {
    u64 oc = hcap, *os = hset, k;
    if (hcap >= (1ULL << 23)) { hover = 1; return; }
    hcap *= 4; hset = hcalloc (hcap, 8);
    for (k = 0; k < oc; k ++) if (os[k]) { for (i = os[k] & (hcap - 1); hset[i]; i = (i + 1) & (hcap - 1)) ; hset[i] = os[k]; }
    hfree (os);
  }
  for (i = h & (hcap - 1); hset[i]; i = (i + 1) & (hcap - 1)) if (hset[i] == h) return;
  hset[i] = h; hcnt ++;
}
void mc_state (u64 h) { hput (h); }
void mc_ops (u64 n) { ops += n; sh->beat ++; }
void mc_nontrivial (void) { if (! innont) { innont = 1; nontriv ++; } }
void mc_note (const char *k, long v) {
  int i;
  for (i = 0; i < notenbr; i ++) if (! strcmp (notes[i].k, k)) { notes[i].v += v; return; }
  if (notenbr < 64) { snprintf (notes[notenbr].k, 48, "%s", k); notes[notenbr ++].v = v; }
}
void mc_sample (const char *fmt, ...) {
  va_list ap;
  if (samplenbr >= 6) return;
  va_start (ap, fmt); vsnprintf (samples[samplenbr ++], 600, fmt, ap); va_end (ap);
}
static int wanted (void) {
  if (only >= 0) return ((u64) only == cur);
  return (cur >= from && cur <= until && (cur % shardn) == shardi);
}
int mc_skip (void) {
  cur ++;
  if (wanted ()) { cur --; return 0; }
  return 1;
}
int mc_case (const char *fmt, ...) {
  va_list ap;
  cur ++;
  if (! wanted ()) return 0;
  va_start (ap, fmt); vsnprintf (sh->desc, sizeof (sh->desc), fmt, ap); va_end (ap);
  sh->idx = cur; sh->beat ++;
  infail = innont = 0; ran ++;
  mc_errnbr = 0; mc_errbuf[0] = 0;
  if (only >= 0) fprintf (stderr, "CASE %llu %s\n", (unsigned long long) cur, sh->desc);
  else if (samplenbr < 2 || (samplenbr < 5 && (ran % 4999) == 0)) mc_sample ("case %llu: %.500s", (unsigned long long) cur, sh->desc);
  return 1;
}
int mc_failed (void) { return infail; }
void mc_fail (const char *fmt, ...) {
  va_list ap; char b[2000]; char *c;
  if (infail) return;
  infail = 1; fails ++;
  va_start (ap, fmt); vsnprintf (b, sizeof (b), fmt, ap); va_end (ap);
  for (c = b; *c; c ++) if (*c == '\n' || *c == '\t') *c = ' ';
  fprintf (outf, "F\t%llu\t%s\t%s%s%s\n", (unsigned long long) cur, sh->desc, b, mc_errnbr ? " | library said: " : "", mc_errnbr ? mc_errbuf : "");
  fflush (outf);
}
void mc_errreset (void) { mc_errnbr = 0; mc_errbuf[0] = 0; }
void SCOTCH_errorProg (const char * const s) { }
void SCOTCH_errorPrint (const char * const fmt, ...) {
  va_list ap; char *c;
  mc_errnbr ++;
  va_start (ap, fmt); vsnprintf (mc_errbuf, sizeof (mc_errbuf), fmt, ap); va_end (ap);
  for (c = mc_errbuf; *c; c ++) if (*c == '\n' || *c == '\t') *c = ' ';
  if (mc_verbose) fprintf (stderr, "  [errorPrint] %s\n", mc_errbuf);
}
void SCOTCH_errorPrintW (const char * const fmt, ...) { }

/* ---- memory seam ---- */
extern void *__real_malloc (size_t); extern void *__real_calloc (size_t, size_t); extern void *__real_realloc (void *, size_t); extern void __real_free (void *);
#ifdef MC_WRAP
static void **ptab; static size_t pcap, pcnt, ptomb;
#define TOMB ((void *) 1)
static u64 allocs; static long oomat = -1; static int oomhit;
static size_t ph (void *p) { u64 h = (u64) (size_t) p; h ^= h >> 17; h *= 0xed5ad4bbac4c1b51ULL; h ^= h >> 31; return h; }
static void padd (void *p) {
  size_t i;
  if (p == NULL) return;
  if ((pcnt + ptomb) * 2 >= pcap) {
    size_t oc = pcap, k; void **ot = ptab;
    pcap = pcap ? (pcnt * 4 > pcap ? pcap * 2 : pcap) : 1024; ptab = __real_calloc (pcap, sizeof (void *)); ptomb = 0;
    for (k = 0; k < oc; k ++) if (ot[k] && ot[k] != TOMB) { for (i = ph (ot[k]) & (pcap - 1); ptab[i]; i = (i + 1) & (pcap - 1)) ; ptab[i] = ot[k]; }
    __real_free (ot);
  }
  for (i = ph (p) & (pcap - 1); ptab[i] && ptab[i] != TOMB; i = (i + 1) & (pcap - 1)) ;
  if (ptab[i] == TOMB) ptomb --;
  ptab[i] = p; pcnt ++;
}
static void pdel (void *p) {
  size_t i;
  if (p == NULL || pcap == 0) return;
  for (i = ph (p) & (pcap - 1); ptab[i]; i = (i + 1) & (pcap - 1)) if (ptab[i] == p) { ptab[i] = TOMB; ptomb ++; pcnt --; return; }
}
extern void __sanitizer_print_stack_trace (void) __attribute__ ((weak)); extern void __asan_describe_address (void *) __attribute__ ((weak));
static void otrace (void) { static int x; if (mc_verbose && __sanitizer_print_stack_trace && getenv ("MC_TRACE") && ! x) { x = 1; fprintf (stderr, "  [request refused]\n"); __sanitizer_print_stack_trace (); x = 0; } }
static void (*ohook) (void);
void mc_hook (void (*f) (void)) { ohook = f; }
static int ofail (void) { allocs ++; if (ohook) ohook (); if (oomat > 0 && -- oomat == 0) { oomat = -1; oomhit = 1; otrace (); errno = ENOMEM; return 1; } return 0; }
void *__wrap_malloc (size_t n) { void *p; if (ofail ()) return NULL; p = __real_malloc (n); padd (p); return p; }
void *__wrap_calloc (size_t a, size_t b) { void *p; if (ofail ()) return NULL; p = __real_calloc (a, b); padd (p); return p; }
/* shrinking a block is not a request for memory: the C library never refuses it */
extern size_t malloc_usable_size (void *);
void *__wrap_realloc (void *o, size_t n) { void *p; if ((o == NULL || n > malloc_usable_size (o)) && ofail ()) return NULL; p = __real_realloc (o, n); if (p != NULL || n == 0) pdel (o); padd (p); return p; }
void __wrap_free (void *p) { pdel (p); __real_free (p); }
long mc_live (void) { return (long) pcnt; }
u64  mc_allocs (void) { return allocs; }
void mc_oom (long n) { oomat = n; oomhit = 0; }
int  mc_oomhit (void) { return oomhit; }
void mc_forget (void) { if (pcap) memset (ptab, 0, pcap * sizeof (void *)); pcnt = ptomb = 0; }
static void **mark; static size_t markn;
void mc_mark (void) { if (! mc_verbose || ! getenv ("MC_TRACE")) return; __real_free (mark); mark = __real_malloc (pcap * sizeof (void *)); memcpy (mark, ptab, pcap * sizeof (void *)); markn = pcap; }
void mc_dump_live (void) { size_t k, i; if (! mc_verbose || ! getenv ("MC_TRACE")) return; for (k = 0; k < pcap; k ++) if (ptab[k] && ptab[k] != TOMB) { for (i = 0; i < markn && mark[i] != ptab[k]; i ++) ; if (i == markn) { fprintf (stderr, "live %p\n", ptab[k]); if (__asan_describe_address) __asan_describe_address (ptab[k]); } } }
#else
long mc_live (void) { return 0; }
void mc_mark (void) { }
u64  mc_allocs (void) { return 0; }
void mc_oom (long n) { }
void mc_hook (void (*f) (void)) { }
int  mc_oomhit (void) { return 0; }
void mc_forget (void) { }
#endif

char *mc_tmpdir (void) { return tmpdir; }

const char *__asan_default_options (void) { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=8:malloc_context_size=4:detect_odr_violation=0:detect_stack_use_after_return=0:print_legend=0:max_allocation_size_mb=512"; }

int main (int argc, char **argv) {
  int i; char statpath[600] = ""; u64 k; int first;
  outf = stdout;
  if (getenv ("SCOTCH_PTHREAD_NUMBER") == NULL) setenv ("SCOTCH_PTHREAD_NUMBER", "1", 1);
  for (i = 1; i < argc; i ++) {
    if (! strcmp (argv[i], "--shard")) { sscanf (argv[++ i], "%llu/%llu", (unsigned long long *) &shardi, (unsigned long long *) &shardn); }
    else if (! strcmp (argv[i], "--from")) from = strtoull (argv[++ i], NULL, 10);
    else if (! strcmp (argv[i], "--only")) { only = strtol (argv[++ i], NULL, 10); mc_verbose = 1; }
    else if (! strcmp (argv[i], "--until")) until = strtoull (argv[++ i], NULL, 10);
    else if (! strcmp (argv[i], "--thorough")) mc_thorough = 1;
    else if (! strcmp (argv[i], "--state")) snprintf (statepath, sizeof (statepath), "%s", argv[++ i]);
    else if (! strcmp (argv[i], "--stats")) snprintf (statpath, sizeof (statpath), "%s", argv[++ i]);
    else if (! strcmp (argv[i], "--tmp")) snprintf (tmpdir, sizeof (tmpdir), "%s", argv[++ i]);
  }
  if (tmpdir[0] == 0) { snprintf (tmpdir, sizeof (tmpdir), "/tmp/mcXXXXXX"); if (mkdtemp (tmpdir) == NULL) return 98; }
  if (statepath[0]) {
    int fd = open (statepath, O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate (fd, sizeof (struct Shared)) == 0) {
      struct Shared *p = mmap (NULL, sizeof (struct Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) { sh = p; sh->desc[0] = 0; sh->idx = 0; }
    }
  }
  if (tmpdir[0] == '/' && (statpath[0] == 0 || statpath[0] == '/')) (void) ! chdir (tmpdir);   /* the code under test may leave files behind */
  mc_run ();
  sh->total = cur;
  if (statpath[0]) {
    FILE *f; char hp[640];
    f = fopen (statpath, "w");
    fprintf (f, "{\"total\": %llu, \"ran\": %llu, \"ops\": %llu, \"nontrivial\": %llu, \"fails\": %llu, \"hashes\": %llu, \"hashcap\": %d, \"notes\": {",
             (unsigned long long) cur, (unsigned long long) ran, (unsigned long long) ops, (unsigned long long) nontriv, (unsigned long long) fails, (unsigned long long) hcnt, hover);
    for (i = 0; i < notenbr; i ++) fprintf (f, "%s\"%s\": %ld", i ? ", " : "", notes[i].k, notes[i].v);
    fprintf (f, "}, \"samples\": [");
    for (i = 0; i < samplenbr; i ++) {
      char *c; fprintf (f, "%s\"", i ? ", " : "");
      for (c = samples[i]; *c; c ++) { if (*c == '"' || *c == '\\') fputc ('\\', f); if ((unsigned char) *c >= 32 && (unsigned char) *c < 127) fputc (*c, f); else fputc (' ', f); }
      fprintf (f, "\"");
    }
    fprintf (f, "]}\n"); fclose (f);
    snprintf (hp, sizeof (hp), "%s.h", statpath);
    f = fopen (hp, "wb");
    for (k = 0; k < hcap; k ++) if (hset[k]) fwrite (&hset[k], 8, 1, f);
    fclose (f);
  }
  fprintf (outf, "DONE\t%llu\t%llu\t%llu\n", (unsigned long long) cur, (unsigned long long) ran, (unsigned long long) fails);
  fflush (outf);
  return (0);
}
