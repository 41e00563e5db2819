/* Shared by the harnesses of distributed operations. */
#include "dspace.h"
#include <math.h>
#define F x_abort
static int modes[] = { 0, PM_LATE | PM_STRICT | PM_REVERSE, PM_LATE | PM_THREADS, PM_STRICT | PM_THREADS };
static int dbound[2] = { 2, 3 }, dmaxruns[2] = { 200, 4000 };
static int explore (int np, int md, void (*fn) (int, void *), void (*after) (void *), void *arg) {
  XStat xs; int o;
  o = pm_explore (np, md, fn, after, arg, dbound[mc_thorough], dmaxruns[mc_thorough], &xs); mc_note ("schedules", xs.runs); if (xs.truncated) mc_note ("truncated", 1);
  return o;
}
static void sync_ (void) { MPI_Barrier (MPI_COMM_WORLD); }
/* Expected graph: vertices of a reference graph, with their number, owner and label in the graph under test. */
typedef struct { int n; const G *g; int v[600], own[600]; Num num[600], lbl[600], max[DMAXP]; int anyorder, haslbl; } EX;
static DV EV;
/* All processes call it; dg is the graph under test. Ends the execution if it is not the expected one. */
static void expect (int r, int np, SCOTCH_Dgraph *dg, EX *x, const char *what) {
  Num q[9]; double s[6]; char err[300]; DW w; int i, j, k, *of; Num ws = 0;
  if (SCOTCH_dgraphCheck (dg) != 0) F ("%s: process %d: result refused by the checker", what, r);
  sync_ ();
  if (r == 0) dv_init (&EV, np);
  sync_ ();
  dv_read (&EV, r, dg); if (mc_failed ()) F ("%s: bad arrays", what);
  if (SCOTCH_dgraphStat (dg, &q[0], &q[1], &q[2], &s[0], &s[1], &q[3], &q[4], &s[2], &s[3], &q[5], &q[6], &q[7], &s[4], &s[5]) != 0) F ("%s: dgraphStat failed", what);
  sync_ ();
  if (r == 0) {
    if (dv_join (&EV, &w, err, sizeof (err))) F ("%s: %s", what, err);
    if (w.n != x->n) F ("%s: %d vertices instead of %d", what, w.n, x->n);
    if (w.base != x->g->base) F ("%s: base value is %ld", what, (long) w.base);
    for (i = 0; i < np; i ++) if (x->max[i] >= 0 && EV.r[i].vmax != x->max[i]) F ("%s: process %d has %ld global numbers instead of %ld", what, i, (long) EV.r[i].vmax, (long) x->max[i]);
    if (w.haslbl != x->haslbl) F ("%s: %s labels", what, w.haslbl ? "unexpected" : "no");
    if (w.n > 0 && (w.hasvelo == 0) != (x->g->velo == NULL)) { for (i = 0; i < x->n; i ++) if (w.w[i] != 1 && ! x->g->velo) F ("%s: vertex loads", what); }
    of = malloc ((x->n + 1) * sizeof (int));
    for (i = 0; i < w.n; i ++) {                         /* find which expected vertex it is */
      if (! x->anyorder) k = i; else for (k = 0; k < x->n && x->lbl[k] != w.lbl[i]; k ++) ;
      if (k >= x->n) F ("%s: vertex %ld has unexpected label %ld", what, (long) w.num[i], (long) w.lbl[i]);
      for (j = 0; j < i; j ++) if (of[j] == k) F ("%s: vertex with label %ld is there twice", what, (long) w.lbl[i]);
      of[i] = k;
      if (w.own[i] != x->own[k]) F ("%s: vertex %ld is on process %d instead of %d", what, (long) w.num[i], w.own[i], x->own[k]);
      if (! x->anyorder && w.num[i] != x->num[k]) F ("%s: vertex %d has number %ld instead of %ld", what, i, (long) w.num[i], (long) x->num[k]);
      if (x->haslbl && w.lbl[i] != x->lbl[k]) F ("%s: vertex %ld has label %ld instead of %ld", what, (long) w.num[i], (long) w.lbl[i], (long) x->lbl[k]);
      if (w.w[i] != x->g->w[x->v[k]]) F ("%s: vertex %ld has load %ld instead of %ld", what, (long) w.num[i], (long) w.w[i], (long) x->g->w[x->v[k]]);
      ws += w.w[i];
    }
    for (i = 0; i < w.n; i ++) for (j = 0; j < w.n; j ++) {
      Num e = x->g->ew[x->v[of[i]] * x->g->n + x->v[of[j]]];
      if (w.ew[i * w.n + j] != e) F ("%s: edge between %ld and %ld has load %ld instead of %ld", what, (long) w.num[i], (long) w.num[j], (long) w.ew[i * w.n + j], (long) e);
    }
    if (w.n > 0 && q[2] != ws) F ("%s: vertex load sum is %ld instead of %ld", what, (long) q[2], (long) ws);
    mc_state (dw_hash (&w)); mc_ops (1);
    free (of); dw_exit (&w); dv_exit (&EV);
  }
  sync_ ();
}
