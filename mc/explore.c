#define _GNU_SOURCE
#include "explore.h"
#undef pthread_mutex_init
#include <sys/mman.h>
#include <errno.h>
#include <sched.h>
#ifdef MC_WRAP                            /* the scheduler's own memory is not memory of the code under test */
extern void *__real_calloc (size_t, size_t), *__real_realloc (void *, size_t);
#define calloc  __real_calloc
#define realloc __real_realloc
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define ASAN 1
#endif
#define NOI __attribute__ ((no_sanitize ("thread", "address")))
#define MAXF 64
#define STK (1 << 19)
enum { F_FREE, F_RUN, F_MUTEX, F_COND, F_JOIN, F_PRED, F_IDLE, F_DONE };
typedef struct {
  void *sp, *stk; int st, proc, detached, gen, woken; void *obj, *mtx; void *(*fn) (void *); void *arg, *ret; void (*vfn) (void *);
  int (*cond) (void *); void *carg; const char *what; unsigned vc[MAXF]; void *lastm; int lastmcnt; u64 lastm_step; void *fake; int consec;
} Fib;
static Fib fib[MAXF]; static int fnbr, cur, active, ended, nopoint, flags, createfails; static u64 steps, swcnt;
static void *mainsp, *mainfake; static const void *mainstk; static size_t mainsiz; static int dead;
static unsigned char *trn; static unsigned char *trc; static unsigned char *trf; static u64 trlen, trcap, trpos; static int bound, used;
static char tracebuf[600];
void (*x_procswitch) (int, int) = NULL;

static void xset (void *d, size_t n) { volatile char *c = d; while (n --) *c ++ = 0; }
static void xcpy (void *d, const void *q, size_t n) { volatile char *c = d; const char *e = q; while (n --) *c ++ = *e ++; }
#define MMAGIC 0x6d757478
#define MDEAD  0x6d757464
typedef struct { int z[4]; int magic, owner, id; } Mtx;          /* overlays pthread_mutex_t (40 bytes); all zero: static initialiser */
#define MID(m) ((Mtx *) (void *) (m))
typedef struct { int magic; } Cnd;
static unsigned (*mvc)[MAXF]; static int mvcnbr, mvccap;

extern void mcp_switch (void **save, void *load);
__asm__ (".text\n.globl mcp_switch\n.type mcp_switch,@function\nmcp_switch:\n"
         "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
         "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
         "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size mcp_switch,.-mcp_switch\n");

NOI static void enter_main (void) {                                /* leave the fibers for good */
  active = 0;
#ifdef ASAN
  __sanitizer_start_switch_fiber (&fib[cur].fake, mainstk, mainsiz);
#endif
  { void *dummy; mcp_switch (&dummy, mainsp); }
}
NOI static void goto_fiber (int to) {
  int from = cur;
  if (to == from) return;
  if (x_procswitch && fib[from].proc != fib[to].proc) x_procswitch (fib[from].proc, fib[to].proc);
  cur = to; swcnt ++; fib[to].consec = 0;
#ifdef ASAN
  __sanitizer_start_switch_fiber (fib[from].st == F_DONE ? NULL : &fib[from].fake, fib[to].stk, STK);
#endif
  mcp_switch (&fib[from].sp, fib[to].sp);
#ifdef ASAN
  __sanitizer_finish_switch_fiber (fib[cur].fake, NULL, NULL);
#endif
}
const char *x_trace (void) {
  u64 i; int n = 0; tracebuf[0] = 0;
  for (i = 0; i < trpos && n < 560; i ++) if (trc[i]) n += snprintf (tracebuf + n, sizeof (tracebuf) - n, "%s%llu:%d", n ? " " : "", (unsigned long long) i, trc[i]);
  return tracebuf;
}
void x_abort (const char *fmt, ...) {
  va_list ap; char b[900]; int i, n = 0; char w[500]; w[0] = 0;
  va_start (ap, fmt); vsnprintf (b, sizeof (b), fmt, ap); va_end (ap);
  for (i = 0; i < fnbr && n < 440; i ++) if (fib[i].st > F_RUN && fib[i].st < F_DONE)
    n += snprintf (w + n, sizeof (w) - n, " [%d/p%d %s]", i, fib[i].proc, fib[i].st == F_MUTEX ? "mutex" : fib[i].st == F_COND ? "cond" : fib[i].st == F_JOIN ? "join" : fib[i].what);
  mc_fail ("%s;%s schedule departures {%s}", b, w, x_trace ());
  dead = 1; enter_main ();
  abort ();
}
int x_running (void) { return active; }
int x_fiber (void) { return cur; }
int x_proc (void) { return active ? fib[cur].proc : 0; }
int x_live (void) { int i, n = 0; for (i = 0; i < fnbr; i ++) if (i != cur && fib[i].st != F_FREE && fib[i].st != F_DONE) n ++; return n; }
int x_createfails (void) { return createfails; }
void x_nopoint (int on) { nopoint += on ? 1 : -1; }

static int choose (int n, int free_) {
  int c;
  if (! active || n <= 1) return 0;
  if (n > 250) n = 250;
  if (trpos >= trcap) { trcap = trcap ? trcap * 2 : 4096; trn = realloc (trn, trcap); trc = realloc (trc, trcap); trf = realloc (trf, trcap); }
  if (trpos < trlen) { c = trc[trpos]; if (c >= n) c = n - 1; }
  else c = 0;
  trn[trpos] = n; trc[trpos] = c; trf[trpos] = free_; trpos ++;
  if (trpos > trlen) trlen = trpos;
  if (c && ! free_) used ++;
  return c;
}
int x_choose (int n) { return choose (n, 0); }
int x_choose_free (int n) { return choose (n, 1); }

static int enabled (int i) {
  Fib *f = &fib[i];
  switch (f->st) {
    case F_RUN: return 1;
    case F_MUTEX: return MID (f->obj)->owner == 0;
    case F_COND: return f->woken && MID (f->mtx)->owner == 0;
    case F_JOIN: return fib[*(int *) f->obj].st == F_DONE;
    case F_PRED: return f->cond (f->carg) != 0;
  }
  return 0;
}
/* Choose who runs next; returns when the current fiber has been chosen again. */
NOI static void schedule (int yield) {
  int list[MAXF], n = 0, i, k, c, me = cur, idle = 0;
  if (fib[me].st == F_RUN && ++ fib[me].consec > 2000) { yield = 1; fib[me].consec = 0; }
  if (! yield && enabled (me)) list[n ++] = me;
  for (k = 1; k < fnbr; k ++) { i = (me + k) % fnbr; if (enabled (i)) list[n ++] = i; }
  if ((yield) && enabled (me)) list[n ++] = me;
  if (n == 0) for (k = 0; k < fnbr; k ++) if (fib[k].st == F_IDLE) { list[n ++] = k; idle = 1; }   /* nothing else can run */
  if (n == 0) {
    if (ended) {
      for (i = 0; i < fnbr; i ++) if (fib[i].st != F_DONE && fib[i].st != F_FREE) x_abort ("a thread never ends");
      enter_main ();
    }
    x_abort ("deadlock: every thread is blocked");
  }
  if (++ steps > 3000000) x_abort ("no progress: the threads run for ever");
  c = nopoint && ! idle ? 0 : choose (n, 0);
  goto_fiber (list[c]);
  if (dead) enter_main ();
}
void x_point (void) { if (active && ! nopoint && fnbr > 1) schedule (0); }

/* ---- happens-before tracking and racy access detection (only in builds that instrument memory accesses) ---- */
static u64 racy[1024]; static int racynbr, racynew;
typedef struct { u64 addr; u64 epoch; unsigned wclk; int wtid; u64 wpc; unsigned rclk[8]; u64 rpc[8]; int rtid[8]; int rn; } Shad;
static Shad *shad; static u64 shadcap, shadcnt, epoch = 1;
static int isracy (u64 pc) { u64 i = (pc * 0x9e3779b97f4a7c15ULL) >> 54; for (;; i = (i + 1) & 1023) { if (racy[i] == pc) return 1; if (racy[i] == 0) return 0; } }
static void addracy (u64 pc) { u64 i; if (pc == 0 || isracy (pc) || racynbr > 500) return; for (i = (pc * 0x9e3779b97f4a7c15ULL) >> 54; racy[i]; i = (i + 1) & 1023) ; racy[i] = pc; racynbr ++; racynew ++; }
static Shad *shadget (u64 a) {
  u64 i, oc; Shad *os;
  if (shadcap == 0) { shadcap = 1 << 14; shad = calloc (shadcap, sizeof (Shad)); }
  if (shadcnt * 2 > shadcap) {
    os = shad; oc = shadcap; shadcap *= 2; shad = calloc (shadcap, sizeof (Shad)); shadcnt = 0;
    for (u64 k = 0; k < oc; k ++) if (os[k].epoch == epoch) { for (i = (os[k].addr * 0x9e3779b97f4a7c15ULL) >> 20 & (shadcap - 1); shad[i].epoch == epoch; i = (i + 1) & (shadcap - 1)) ; shad[i] = os[k]; shadcnt ++; }
    free (os);
  }
  for (i = (a * 0x9e3779b97f4a7c15ULL) >> 20 & (shadcap - 1); shad[i].epoch == epoch; i = (i + 1) & (shadcap - 1)) if (shad[i].addr == a) return &shad[i];
  shad[i].addr = a; shad[i].epoch = epoch; shad[i].wclk = 0; shad[i].wtid = -1; shad[i].rn = 0; shadcnt ++;
  return &shad[i];
}
static int nlive (void) { int i, n = 0; for (i = 0; i < fnbr; i ++) n += fib[i].st != F_FREE && fib[i].st != F_DONE; return n; }
static int inacc;
static void access1 (u64 a, int wr, u64 pc) {
  Shad *s = shadget (a >> 2); Fib *f = &fib[cur]; int k;
  if (s->wtid >= 0 && s->wtid != cur && s->wclk > f->vc[s->wtid]) { addracy (pc); addracy (s->wpc); }
  if (wr) {
    for (k = 0; k < s->rn; k ++) if (s->rtid[k] != cur && s->rclk[k] > f->vc[s->rtid[k]]) { addracy (pc); addracy (s->rpc[k]); }
    s->wtid = cur; s->wclk = f->vc[cur]; s->wpc = pc; s->rn = 0;
  }
  else {
    for (k = 0; k < s->rn && s->rtid[k] != cur; k ++) ;
    if (k < s->rn || s->rn < 8) { if (k == s->rn) s->rn ++; s->rtid[k] = cur; s->rclk[k] = f->vc[cur]; s->rpc[k] = pc; }
  }
}
static void access (const void *p, size_t n, int wr, u64 pc) {
  u64 a = (u64) p, e = a + n;
  if (! active || inacc || fnbr <= 1 || ! (flags & XP_RACY)) return;
  if (a >= (u64) fib[cur].stk && a < (u64) fib[cur].stk + STK && nlive () <= 1) return;
  inacc = 1;
  if (racynbr && ! nopoint && isracy (pc)) { inacc = 0; schedule (0); inacc = 1; }
  for (a &= ~3ULL; a < e; a += 4) access1 (a, wr, pc);
  inacc = 0;
}
#ifdef MC_TSANHOOKS
#define RA ((u64) __builtin_return_address (0))
#define H(n) void __tsan_read##n (void *p) { access (p, n, 0, RA); } void __tsan_write##n (void *p) { access (p, n, 1, RA); } \
  void __tsan_unaligned_read##n (void *p) { access (p, n, 0, RA); } void __tsan_unaligned_write##n (void *p) { access (p, n, 1, RA); } \
  void __tsan_volatile_read##n (void *p) { access (p, n, 0, RA); } void __tsan_volatile_write##n (void *p) { access (p, n, 1, RA); } \
  void __tsan_read##n##_pc (void *p, void *q) { access (p, n, 0, (u64) q); } void __tsan_write##n##_pc (void *p, void *q) { access (p, n, 1, (u64) q); }
H (1) H (2) H (4) H (8) H (16)
void __tsan_read_range (void *p, long n) { access (p, n, 0, RA); }
void __tsan_write_range (void *p, long n) { access (p, n, 1, RA); }
void __tsan_func_entry (void *p) { } void __tsan_func_exit (void) { } void __tsan_init (void) { } void __tsan_vptr_update (void **a, void *b) { }
static struct { void *a; int id; } atab[256]; static int anbr;
static int newvc (void);
static unsigned *avc (void *a) { int i; for (i = 0; i < anbr; i ++) if (atab[i].a == a) return mvc[atab[i].id]; if (anbr < 256) { atab[anbr].a = a; atab[anbr].id = newvc (); anbr ++; } return mvc[atab[i < 256 ? i : 255].id]; }
static void atsync (void *a) {
  unsigned *v; int i; Fib *f;
  if (! active || fnbr <= 1) return;
  x_point (); v = avc (a); f = &fib[cur];
  for (i = 0; i < fnbr; i ++) { if (v[i] > f->vc[i]) f->vc[i] = v[i]; v[i] = f->vc[i]; }
  f->vc[cur] ++;
}
#define A(B, T) T __tsan_atomic##B##_load (const volatile T *p, int m) { atsync ((void *) p); return *p; } \
 void __tsan_atomic##B##_store (volatile T *p, T v, int m) { atsync ((void *) p); *p = v; } \
 T __tsan_atomic##B##_exchange (volatile T *p, T v, int m) { T o; atsync ((void *) p); o = *p; *p = v; return o; } \
 T __tsan_atomic##B##_fetch_add (volatile T *p, T v, int m) { T o; atsync ((void *) p); o = *p; *p = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub (volatile T *p, T v, int m) { T o; atsync ((void *) p); o = *p; *p = o - v; return o; } \
 T __tsan_atomic##B##_fetch_and (volatile T *p, T v, int m) { T o; atsync ((void *) p); o = *p; *p = o & v; return o; } \
 T __tsan_atomic##B##_fetch_or (volatile T *p, T v, int m) { T o; atsync ((void *) p); o = *p; *p = o | v; return o; } \
 T __tsan_atomic##B##_fetch_xor (volatile T *p, T v, int m) { T o; atsync ((void *) p); o = *p; *p = o ^ v; return o; } \
 int __tsan_atomic##B##_compare_exchange_strong (volatile T *p, T *c, T v, int m, int m2) { atsync ((void *) p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak (volatile T *p, T *c, T v, int m, int m2) { atsync ((void *) p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val (volatile T *p, T c, T v, int m, int m2) { T o; atsync ((void *) p); o = *p; if (o == c) *p = v; return o; }
A (8, char) A (16, short) A (32, int) A (64, long)
void __tsan_atomic_thread_fence (int m) { } void __tsan_atomic_signal_fence (int m) { }
extern void *__real_memcpy (void *, const void *, size_t); extern void *__real_memset (void *, int, size_t); extern void *__real_memmove (void *, const void *, size_t);
void *__wrap_memcpy (void *d, const void *s, size_t n) { if (n) { access (s, n, 0, RA); access (d, n, 1, RA); } return __real_memcpy (d, s, n); }
void *__wrap_memmove (void *d, const void *s, size_t n) { if (n) { access (s, n, 0, RA); access (d, n, 1, RA); } return __real_memmove (d, s, n); }
void *__wrap_memset (void *d, int c, size_t n) { if (n) access (d, n, 1, RA); return __real_memset (d, c, n); }
static void areset (void) { anbr = 0; }
#else
static void areset (void) { }
#endif
static int newvc (void) {
  if (mvcnbr >= mvccap) { mvccap = mvccap ? mvccap * 2 : 256; mvc = realloc (mvc, mvccap * sizeof (*mvc)); }
  xset (mvc[mvcnbr], sizeof (*mvc)); return mvcnbr ++;
}

/* ---- threads ---- */
static void finish (void) {
  fib[cur].st = F_DONE; fib[cur].vc[cur] ++;
  if (cur == 0) ended = 1;
  schedule (0);
  abort ();
}
static void tramp2 (void) {
#ifdef ASAN
  __sanitizer_finish_switch_fiber (NULL, NULL, NULL);
#endif
  if (fib[cur].vfn) fib[cur].vfn (fib[cur].arg); else fib[cur].ret = fib[cur].fn (fib[cur].arg);
  finish ();
}
static int newfiber (void *(*fn) (void *), void (*vfn) (void *), void *arg, int proc) {
  int i; void **sp; Fib *f;
  for (i = 0; i < fnbr; i ++) if (fib[i].st == F_FREE) break;
  if (i == MAXF) return -1;
  if (i == fnbr) fnbr ++;
  f = &fib[i];
  if (f->stk == NULL) { f->stk = mmap (NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (f->stk == MAP_FAILED) abort (); }
#ifdef ASAN
  ASAN_UNPOISON_MEMORY_REGION (f->stk, STK);
#endif
  sp = (void **) ((char *) f->stk + STK - 64); *-- sp = NULL; *-- sp = (void *) tramp2; sp -= 6; xset (sp, 48);
  f->sp = sp; f->st = F_RUN; f->proc = proc; f->detached = 0; f->fn = fn; f->vfn = vfn; f->arg = arg; f->ret = NULL; f->lastm = NULL; f->lastmcnt = 0; f->fake = NULL; f->consec = 0; f->gen ++; f->obj = NULL; f->woken = 0;
  xset (f->vc, sizeof (f->vc)); f->vc[i] = 1;
  if (active) { int k; for (k = 0; k < MAXF; k ++) if (fib[cur].vc[k] > f->vc[k]) f->vc[k] = fib[cur].vc[k]; fib[cur].vc[cur] ++; }
  return i;
}
int x_spawn (void (*fn) (void *), void *arg, int proc) { int i = newfiber (NULL, fn, arg, proc); return i; }
void x_wait (int (*cond) (void *), void *arg, const char *what) {
  Fib *f = &fib[cur];
  if (cond (arg)) return;
  f->cond = cond; f->carg = arg; f->what = what; f->st = F_PRED;
  schedule (0);
  f->st = F_RUN;
}
void x_idle (void) { Fib *f = &fib[cur]; f->st = F_IDLE; f->what = "idle"; schedule (0); f->st = F_RUN; }
int mcp_mutex_init (pthread_mutex_t *m, const pthread_mutexattr_t *a) { xset (m, sizeof (*m)); MID (m)->magic = MMAGIC; MID (m)->owner = 0; MID (m)->id = 0; return 0; }
static Mtx *mtx (pthread_mutex_t *m, const char *what) {
  Mtx *x = MID (m);
  if (x->magic == MDEAD) x_abort ("%s on a destroyed mutex", what);
  if (x->magic != MMAGIC) { if (x->magic != 0) x_abort ("%s on a mutex that was not initialised", what); x->magic = MMAGIC; x->owner = 0; x->id = 0; }
  if (x->id == 0 || x->z[0] != (int) epoch) { x->id = newvc (); x->z[0] = (int) epoch; x->owner = 0; }
  return x;
}
int mcp_mutex_destroy (pthread_mutex_t *m) { int i; if (! active) { xset (m, sizeof (*m)); return 0; } if (mtx (m, "destroy")->owner) x_abort ("locked mutex destroyed"); for (i = 0; i < fnbr; i ++) if ((fib[i].st == F_MUTEX && fib[i].obj == m) || (fib[i].st == F_COND && fib[i].mtx == m)) x_abort ("mutex destroyed while a thread waits for it"); MID (m)->magic = MDEAD; return 0; }
static void acquire (Mtx *x) { int i; Fib *f = &fib[cur]; x->owner = cur + 1; for (i = 0; i < fnbr; i ++) if (mvc[x->id][i] > f->vc[i]) f->vc[i] = mvc[x->id][i]; }
static void release_ (Mtx *x) { Fib *f = &fib[cur]; x->owner = 0; xcpy (mvc[x->id], f->vc, sizeof (f->vc)); f->vc[cur] ++; }
int mcp_mutex_lock (pthread_mutex_t *m) {
  Mtx *x; Fib *f = &fib[cur]; int y = 0;
  if (! active) return 0;
  x = mtx (m, "lock");
  if (x->owner == cur + 1) x_abort ("mutex locked twice by the same thread");
  if (f->lastm == m && f->lastm_step == swcnt) { if (++ f->lastmcnt >= 3) { y = 1; f->lastmcnt = 0; } }
  else { f->lastm = m; f->lastmcnt = 0; f->lastm_step = swcnt; }
  if (fnbr > 1 && (y || ! nopoint)) schedule (y);
  while (x->owner) { f->st = F_MUTEX; f->obj = m; schedule (0); f->st = F_RUN; }
  x = mtx (m, "lock");
  if (y) { f->lastm = m; f->lastm_step = swcnt; }
  acquire (x);
  return 0;
}
int mcp_mutex_trylock (pthread_mutex_t *m) { Mtx *x; if (! active) return 0; x_point (); x = mtx (m, "trylock"); if (x->owner) return EBUSY; acquire (x); return 0; }
int mcp_mutex_unlock (pthread_mutex_t *m) {
  Mtx *x;
  if (! active) return 0;
  x = mtx (m, "unlock");
  if (x->owner != cur + 1) x_abort ("mutex unlocked by a thread that does not hold it");
  release_ (x);
  return 0;
}
int mcp_cond_init (pthread_cond_t *c, const pthread_condattr_t *a) { xset (c, sizeof (*c)); ((Cnd *) c)->magic = MMAGIC; return 0; }
static void cnd (pthread_cond_t *c, const char *what) { if (((Cnd *) c)->magic == MDEAD) x_abort ("%s on a destroyed condition", what); if (((Cnd *) c)->magic != 0 && ((Cnd *) c)->magic != MMAGIC) x_abort ("%s on a condition that was not initialised", what); }
int mcp_cond_destroy (pthread_cond_t *c) { int i; if (! active) { xset (c, sizeof (*c)); return 0; } cnd (c, "destroy"); for (i = 0; i < fnbr; i ++) if (fib[i].st == F_COND && fib[i].obj == c && ! fib[i].woken) x_abort ("condition destroyed while a thread waits on it"); ((Cnd *) c)->magic = MDEAD; return 0; }
int mcp_cond_wait (pthread_cond_t *c, pthread_mutex_t *m) {
  Mtx *x; Fib *f = &fib[cur];
  if (! active) return 0;
  cnd (c, "wait"); x = mtx (m, "wait");
  if (x->owner != cur + 1) x_abort ("wait without holding the mutex");
  release_ (x);
  f->st = F_COND; f->obj = c; f->mtx = m; f->woken = 0;
  if ((flags & XP_SPURIOUS) && ! nopoint && x_choose (2)) f->woken = 1;     /* spurious wake-up */
  schedule (0);
  f->st = F_RUN;
  acquire (mtx (m, "wait"));
  return 0;
}
static int wake (pthread_cond_t *c, int all) {
  int w[MAXF], n = 0, i;
  if (! active) return 0;
  x_point (); cnd (c, "signal");
  for (i = 0; i < fnbr; i ++) if (fib[i].st == F_COND && fib[i].obj == c && ! fib[i].woken) w[n ++] = i;
  if (all) for (i = 0; i < n; i ++) fib[w[i]].woken = 1;
  else if (n) fib[w[choose (n, 0)]].woken = 1;
  return 0;
}
int mcp_cond_signal (pthread_cond_t *c) { return wake (c, 0); }
int mcp_cond_broadcast (pthread_cond_t *c) { return wake (c, 1); }
int mcp_create (pthread_t *t, const pthread_attr_t *a, void *(*fn) (void *), void *arg) {
  int i;
  if (! active) return EAGAIN;
  if ((flags & XP_CREATEFAIL) && x_choose (2)) { createfails ++; return EAGAIN; }
  if ((i = newfiber (fn, NULL, arg, fib[cur].proc)) < 0) return EAGAIN;
  *t = (pthread_t) (i + 1);
  x_point ();
  return 0;
}
int mcp_join (pthread_t t, void **r) {
  int i = (int) t - 1, k; Fib *f = &fib[cur];
  if (! active || i < 0 || i >= fnbr) return ESRCH;
  if (fib[i].detached) x_abort ("join of a detached thread");
  if (fib[i].st != F_DONE) { f->st = F_JOIN; f->obj = &i; schedule (0); f->st = F_RUN; }
  for (k = 0; k < fnbr; k ++) if (fib[i].vc[k] > f->vc[k]) f->vc[k] = fib[i].vc[k];
  if (r) *r = fib[i].ret;
  return 0;
}
int mcp_detach (pthread_t t) { int i = (int) t - 1; if (i >= 0 && i < fnbr) fib[i].detached = 1; return 0; }
void mcp_exit (void *r) { fib[cur].ret = r; finish (); abort (); }
pthread_t mcp_self (void) { return (pthread_t) (cur + 1); }
int mcp_getaffinity (pthread_t t, size_t n, cpu_set_t *s) { int i; CPU_ZERO (s); for (i = 0; i < 4; i ++) CPU_SET (i, s); return 0; }
int mcp_setaffinity (pthread_t t, size_t n, const cpu_set_t *s) { return 0; }
int mcp_yield (void) { if (active && fnbr > 1) schedule (1); return 0; }

/* ---- exploration ---- */
int x_explore (void (*body) (void *), void *arg, int bnd, u64 maxruns, int flg, XStat *st) {
  XStat dummy; u64 i; int cost, k;
  if (st == NULL) st = &dummy;
  memset (st, 0, sizeof (*st));
  bound = bnd; flags = flg; memset (racy, 0, sizeof (racy)); racynbr = 0;
again:
  trlen = 0;
  for (;;) {
    trpos = 0; used = 0; steps = 0; swcnt = 0; ended = 0; dead = 0; nopoint = 0; createfails = 0; mvcnbr = 0; (void) newvc (); areset (); epoch ++; shadcnt = 0; racynew = 0; inacc = 0;
    for (k = 0; k < fnbr; k ++) fib[k].st = F_FREE;
    fnbr = 0; active = 0; k = newfiber (NULL, body, arg, 0); cur = 0; active = 1;
#ifdef ASAN
    __sanitizer_start_switch_fiber (&mainfake, fib[0].stk, STK);
#endif
    mcp_switch (&mainsp, fib[0].sp);
#ifdef ASAN
    __sanitizer_finish_switch_fiber (mainfake, NULL, NULL);
#endif
    active = 0;
    if (x_procswitch) x_procswitch (-1, -1);
    st->runs ++; st->points += trpos; if (trpos > st->maxpoints) st->maxpoints = trpos;
    mc_ops (1);
    if (mc_failed ()) return 1;
    if (racynew && (flags & XP_RACY)) { st->restarts ++; st->racy = racynbr; if (st->restarts < 40) goto again; }
    for (k = 0, i = 0; i < fnbr; i ++) if (fib[i].st != F_DONE) k ++;
    trlen = trpos;
    for (cost = 0, i = 0; i < trlen; i ++) if (trc[i] && ! trf[i]) cost ++;
    for (i = trlen; i -- > 0; ) {
      if (trc[i] && ! trf[i]) cost --;                    /* cost of the decisions before i */
      if (trc[i] + 1 < trn[i] && (trf[i] || cost + 1 <= bound)) break;
    }
    if (i == (u64) -1) break;
    trc[i] ++; trlen = i + 1;
    if (st->runs >= maxruns) { st->truncated = 1; break; }
  }
  st->racy = racynbr;
  return 0;
}
/* main stack bounds, for address sanitizer */
#ifdef ASAN
extern pthread_t realself (void) __asm__ ("pthread_self");
__attribute__ ((constructor)) static void mainbounds (void) {
  pthread_attr_t a; void *s; size_t n;
  pthread_getattr_np (realself (), &a);
  if (pthread_attr_getstack (&a, &s, &n) == 0) { mainstk = s; mainsiz = n; }
}
#endif
