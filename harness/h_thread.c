/* The thread pool: launch, barrier, reduction, scan, split, import, termination, under all bounded schedules. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/types.h>
#include "module.h"
#include "common.h"
#include "scotch.h"
#include "explore.h"

#define MAXT 6
typedef struct { int thrdnbr, len; char ops[8]; int import, splitnest, det; } Case;
typedef struct { int reduval, pad; int scanval[2]; } Cell;
typedef struct { Context *c; int n; int cnt[MAXT]; int slot[MAXT]; int ser; int root; Cell cell[MAXT]; int bad; char op; int inside; Case *cs; int depth; int splits[2]; int rnd[2]; pthread_mutex_t mut; } Task;

static void red (Cell *a, Cell *b, const void *g) { a->reduval = a->reduval * 7 + b->reduval; }
static void sca (Cell *a, Cell *b, int s, int d, const void *g) { a->scanval[d] = a->scanval[s] + ((b == NULL) ? 0 : b->scanval[s]); }
#define BAD(t,m) do { if (! (t)->bad) { (t)->bad = 1; mc_fail ("%s (schedule {%s})", m, x_trace ()); } } while (0)
static void work (ThreadDescriptor *d, Task *t) {
  int me = threadNum (d), n = threadNbr (d), i, o;
  if (n != t->n || me < 0 || me >= n) { BAD (t, "wrong thread number or count in a task"); return; }
  t->cnt[me] ++;
  switch (t->op) {
    case 'c': break;
    case 'm': pthread_mutex_lock (&t->mut); i = t->inside; t->inside = i + 1; pthread_mutex_unlock (&t->mut); break;
    case 'b':
      t->slot[me] = me + 100; o = threadBarrier (d);
      for (i = 0; i < n; i ++) if (t->slot[i] != i + 100) BAD (t, "barrier let a thread through too early");
      if (o) { pthread_mutex_lock (&t->mut); t->ser ++; pthread_mutex_unlock (&t->mut); }
      o = threadBarrier (d); if (o) { pthread_mutex_lock (&t->mut); t->ser ++; pthread_mutex_unlock (&t->mut); }
      t->slot[me] = me + 200; threadBarrier (d);
      for (i = 0; i < n; i ++) if (t->slot[i] != i + 200) BAD (t, "second barrier let a thread through too early");
      break;
    case 'r': case 'R':
      t->cell[me].reduval = me + 1;
      threadReduce (d, &t->cell[me], sizeof (Cell), (ThreadReduceFunc) red, t->root, t);
      if (me == t->root) { int v = t->root + 1; for (i = 1; i < n; i ++) v = v * 7 + (t->root + i) % n + 1; if (t->cell[me].reduval != v) BAD (t, "reduction result is wrong"); }
      break;
    case 's':
      t->cell[me].scanval[0] = me * me + 1;
      threadScan (d, &t->cell[me], sizeof (Cell), (ThreadScanFunc) sca, t);
      { int v = 0; for (i = 0; i <= me; i ++) v += i * i + 1; if (t->cell[me].scanval[0] != v) BAD (t, "scan result is wrong"); }
      break;
  }
}
static void runop (Context *c, char op, Case *cs, int depth);
static void half (Context *c, const int num, void *p) {
  Task *t = p; int want = num == 0 ? (t->n + 1) / 2 : t->n / 2;
  t->splits[num] ++;
  if (contextThreadNbr (c) != want) { BAD (t, "a sub-context has the wrong number of threads"); return; }
  t->rnd[num] = (int) contextIntRandVal (c, 1000000);
  if (c->valuptr != t->c->valuptr) BAD (t, "a sub-context lost the options");
  runop (c, num ? 'b' : 'r', t->cs, t->depth + 1);
  if (t->depth < 1) runop (c, 'p', t->cs, t->depth + 1);
  runop (c, num ? 's' : 'c', t->cs, t->depth + 1);
}
static void runop (Context *c, char op, Case *cs, int depth) {
  Task *t; int i, n = contextThreadNbr (c);
  if (mc_failed ()) return;
  t = calloc (1, sizeof (Task)); t->c = c; t->op = op; t->n = n; t->cs = cs; t->depth = depth; pthread_mutex_init (&t->mut, NULL);
  t->root = op == 'R' ? n - 1 : 0;
  if (op == 'p') {
    int o = contextThreadLaunchSplit (c, half, t);
    if (n == 1 ? o == 0 : o != 0) BAD (t, "splitting: wrong status");
    else if (n > 1 && (t->splits[0] != 1 || t->splits[1] != 1)) BAD (t, "each half must run exactly once");
  }
  else {
    contextThreadLaunch (c, (ThreadFunc) work, t);
    for (i = 0; i < MAXT; i ++) if (t->cnt[i] != (i < n)) BAD (t, "task not run exactly once per thread when the launch returns");
    if (op == 'm' && t->inside != n) BAD (t, "lock is not exclusive");
    if (op == 'b' && n > 1 && t->ser != 2) BAD (t, "exactly one thread is told to be the last one of a barrier");
  }
  pthread_mutex_destroy (&t->mut); free (t);
}
typedef struct { SCOTCH_Context c; int n, num; } Imp;
static void importer (void *p) { Imp *q = p; SCOTCH_contextThreadImport2 (&q->c, 0); }
static SCOTCH_Context ctx; static int impdone[MAXT];
static void *slave (void *p) { SCOTCH_contextThreadImport2 (&ctx, (int) (intptr_t) p); impdone[(int) (intptr_t) p] = 1; return NULL; }
static void body (void *p) {
  Case *cs = p; int i, o; pthread_t th[MAXT];
  SCOTCH_randomReset ();
  if (SCOTCH_contextInit (&ctx) != 0) { mc_fail ("context not initialised"); return; }
  if (cs->import) {
    memset (impdone, 0, sizeof (impdone));
    if (SCOTCH_contextThreadImport1 (&ctx, cs->thrdnbr) != 0) { mc_fail ("import refused"); return; }
    for (i = 1; i < cs->thrdnbr; i ++) pthread_create (&th[i], NULL, slave, (void *) (intptr_t) i);
    if (SCOTCH_contextThreadImport2 (&ctx, 0) != 0) { mc_fail ("import refused (2)"); return; }
  }
  else {
    o = SCOTCH_contextThreadSpawn (&ctx, cs->thrdnbr, NULL);
    if (x_createfails ()) { if (o == 0) mc_fail ("spawn succeeds although a thread could not be created {%s}", x_trace ()); SCOTCH_contextExit (&ctx); return; }
    if (o != 0) { mc_fail ("spawn refused"); return; }
  }
  for (i = 0; i < cs->len && ! mc_failed (); i ++) runop ((Context *) &ctx, cs->ops[i], cs, 0);
  if (mc_failed ()) { x_abort ("see above"); return; }
  SCOTCH_contextExit (&ctx);
  if (cs->import) { for (i = 1; i < cs->thrdnbr; i ++) { pthread_join (th[i], NULL); if (! impdone[i]) mc_fail ("imported threads not released"); } }
  memset (&ctx, 0x5a, sizeof (ctx));
}
void mc_run (void) {
  static const char al[] = "cmbrRsp"; Case cs; int n, len, i, j, k, imp, fl, d; XStat st; u64 lim = mc_thorough ? 4000000 : 150000;
  for (n = 1; n <= (mc_thorough ? 5 : 4); n ++) for (imp = 0; imp < 2; imp ++) for (len = 0; len <= (n <= 3 || mc_thorough ? 2 : 2) + (mc_thorough && n <= 3); len ++) {
    int tot = 1; for (i = 0; i < len; i ++) tot *= 7;
    for (k = 0; k < tot; k ++) for (fl = 0; fl < 3; fl ++) {
      memset (&cs, 0, sizeof (cs)); cs.thrdnbr = n; cs.len = len; cs.import = imp;
      for (i = 0, j = k; i < len; i ++, j /= 7) cs.ops[i] = al[j % 7];
      if (fl == 2 && (imp || n == 1 || len > 1)) continue;
      d = len <= 1 ? (n <= 2 ? 3 : 2) : n <= 3 ? 2 : 1; if (strchr (cs.ops, 'p') && n > 2) d = len <= 1 && n == 3 ? 2 : 1;
      if (mc_thorough && n <= 3) d ++;
      if (fl == 1 && n > 1) d = d > 2 ? 2 : d;
      if (mc_case ("threads=%d ops=%s %s %s, %d departures from the default schedule", n, cs.ops, imp ? "imported" : "spawned", fl == 0 ? "" : fl == 1 ? "spurious wake-ups" : "thread creation may fail", d)) {
        x_explore (body, &cs, d, lim, XP_RACY | (fl == 1 ? XP_SPURIOUS : fl == 2 ? XP_CREATEFAIL : 0), &st);
        mc_note ("schedules", st.runs); mc_note ("decisions", st.points); mc_note ("racy_accesses", st.racy); if (st.truncated) mc_note ("truncated", 1);
        if (n > 1) mc_nontrivial ();
        mc_state (mc_hashi (mc_hashi (st.runs, st.points), k * 64 + n * 8 + imp * 4 + fl));
      }
    }
  }
}
