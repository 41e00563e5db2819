/* Distributed graphs over all distributions and message orders: building, checking, ghosts, halo, statistics (30). */
#include "dspace.h"
#include <math.h>
#define F x_abort
static DV V, W; static int ret[DMAXP], ret2[DMAXP]; static double st[DMAXP][14]; static D *Dc;
static int comb (D *d, Num x) { return (int) (x * 7919 + 13); }
static int modes[] = { 0, PM_LATE | PM_STRICT | PM_REVERSE, PM_LATE | PM_THREADS, PM_STRICT | PM_THREADS };
static u64 runs;
static int explore (D *d, int md, void (*fn) (int, void *), void (*after) (void *), void *arg) {
  XStat xs; int o; Dc = d;
  o = pm_explore (d->np, md, fn, after, arg, mc_thorough ? 3 : 2, mc_thorough ? 4000 : 200, &xs); runs += xs.runs; mc_note ("schedules", xs.runs); if (xs.truncated) mc_note ("truncated", 1);
  return o;
}
static void r30 (int r, void *a) {
  D *d = a; SCOTCH_Dgraph g; SCOTCH_DgraphHaloReq rq; Num vg, vl, eg, el, i, e; int o; Num b = d->g->base; RV *v; double s[5]; Num q[9]; void *at; MPI_Datatype t3;
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (d, r, &g) != 0) F ("process %d: valid graph not built", r);
  if (SCOTCH_dgraphCheck (&g) != 0) F ("process %d: valid graph refused by the checker", r);
  SCOTCH_dgraphSize (&g, &vg, &vl, &eg, &el);
  if (vg != d->g->n || vl != d->cnt[r] || eg != d->g->m || el != d->m[r]) F ("process %d: sizes %ld %ld %ld %ld", r, (long) vg, (long) vl, (long) eg, (long) el);
  dv_read (&W, r, &g);
  if (W.r[r].vmax != d->max[r]) F ("process %d: room for %ld vertices instead of %d", r, (long) W.r[r].vmax, d->max[r]);
  if (W.r[r].vgst != -1) F ("process %d: number of ghosts known before they are computed", r);
  if (SCOTCH_dgraphStat (&g, &q[0], &q[1], &q[2], &s[0], &s[1], &q[3], &q[4], &s[2], &s[3], &q[5], &q[6], &q[7], &s[4], &st[r][13]) != 0) F ("dgraphStat failed");
  for (i = 0; i < 8; i ++) st[r][i] = q[i]; for (i = 0; i < 5; i ++) st[r][8 + i] = s[i];
  if (SCOTCH_dgraphGhst (&g) != 0) F ("dgraphGhst failed");
  if (SCOTCH_dgraphCheck (&g) != 0) F ("process %d: graph with ghosts refused by the checker", r);
  dv_read (&V, r, &g); v = &V.r[r];
  if (v->vgst < v->vloc) F ("process %d: %ld local and ghost vertices, %ld local", r, (long) v->vgst, (long) v->vloc);
  if (v->gst == NULL) F ("no ghost arc array");
  for (o = 0; o < 4; o ++) {                              /* one type of attribute after the other */
    long sz = o == 0 ? sizeof (int) : o == 1 ? 1 : o == 2 ? sizeof (double) : 3 * sizeof (int), k, n = v->vgst; MPI_Datatype ty = o == 0 ? MPI_INT : o == 1 ? MPI_BYTE : MPI_DOUBLE;
    if (o == 3) { MPI_Type_contiguous (3, MPI_INT, &t3); MPI_Type_commit (&t3); ty = t3; }
    at = malloc (n * sz + (n == 0)); memset (at, 0x5a, n * sz);
#define PUT(p, x) switch (o) { case 0: *(int *) (p) = comb (d, x); break; case 1: *(unsigned char *) (p) = (unsigned char) comb (d, x); break; case 2: *(double *) (p) = comb (d, x) + 0.5; break; default: { int *z_ = (void *) (p); z_[0] = comb (d, x); z_[1] = (x); z_[2] = - (x); } }
    for (i = 0; i < v->vloc; i ++) PUT ((char *) at + i * sz, d->beg[r] + i);
    if (o & 1) { if (SCOTCH_dgraphHaloAsync (&g, at, ty, &rq) != 0) F ("dgraphHaloAsync failed"); if (SCOTCH_dgraphHaloWait (&rq) != 0) F ("dgraphHaloWait failed"); }
    else if (SCOTCH_dgraphHalo (&g, at, ty) != 0) F ("dgraphHalo failed");
    for (i = 0; i < v->vloc; i ++) for (e = v->vert[i] - b; e < v->vend[i] - b; e ++) {
      char w[16]; Num x = v->gst[e] - b; if (x < 0 || x >= v->vgst) F ("process %d: ghost index %ld of %ld", r, (long) x, (long) v->vgst);
      PUT (w, v->edge[e]); if (memcmp (w, (char *) at + x * sz, sz)) F ("process %d: value of neighbour %ld of vertex %ld is wrong after the exchange (type %d)", r, (long) v->edge[e], (long) (d->beg[r] + i), o);
    }
    for (i = 0; i < v->vloc; i ++) { char w[16]; PUT (w, d->beg[r] + i); if (memcmp (w, (char *) at + i * sz, sz)) F ("process %d: value of local vertex %ld changed by the exchange", r, (long) i); }
    free (at); if (o == 3) MPI_Type_free (&t3); mc_ops (1);
  }
  SCOTCH_dgraphExit (&g);
}
static void cmp (DW *w, D *d, const char *what) {
  int i, j; G *g = d->g;
  if (w->n != g->n || w->base != g->base) { mc_fail ("%s: %d vertices base %d", what, w->n, (int) w->base); return; }
  for (i = 0; i < w->n; i ++) {
    if (w->num[i] != d_num (d, i) || w->own[i] != d_own (d, i)) { mc_fail ("%s: vertex %d has number %ld on process %d", what, i, (long) w->num[i], w->own[i]); return; }
    if (w->w[i] != g->w[i] || (g->vlbl && (! w->haslbl || w->lbl[i] != g->vlbl[i]))) { mc_fail ("%s: load or label of vertex %d", what, i); return; }
    for (j = 0; j < w->n; j ++) if (w->ew[i * w->n + j] != g->ew[i * w->n + j]) { mc_fail ("%s: edge %d-%d has load %ld instead of %ld", what, i, j, (long) w->ew[i * w->n + j], (long) g->ew[i * w->n + j]); return; }
  }
}
static void a30 (void *a) {
  D *d = a; DW w; char err[300]; int p, i, j, n = d->g->n; u64 h = 0; G *g = d->g;
  if (mc_failed ()) goto out;
  if (dv_join (&W, &w, err, sizeof (err))) mc_fail ("%s", err); else cmp (&w, d, "as built");
  dw_exit (&w);
  if (dv_join (&V, &w, err, sizeof (err))) mc_fail ("with ghosts: %s", err); else { cmp (&w, d, "with ghosts"); h = dw_hash (&w); }
  for (p = 0; p < d->np && ! mc_failed (); p ++) {         /* ghosts: one index per remote neighbour */
    RV *v = &V.r[p]; Num *of = malloc ((v->vgst + 1) * sizeof (Num)), e; int cnt = 0, seen[64] = { 0 };
    for (i = 0; i < v->vgst; i ++) of[i] = -1;
    for (i = 0; i < v->vloc && ! mc_failed (); i ++) for (e = v->vert[i] - g->base; e < v->vend[i] - g->base; e ++) {
      int u = d_idx (d, v->edge[e]); Num x = v->gst[e] - g->base;
      if (d_own (d, u) == p) { if (x != u - d->off[p]) { mc_fail ("process %d: local neighbour has ghost index %ld", p, (long) x); break; } }
      else { if (x < v->vloc || x >= v->vgst || (of[x] >= 0 && of[x] != u)) { mc_fail ("process %d: remote neighbour %d has ghost index %ld", p, u, (long) x); break; } of[x] = u; if (u < 64 && ! seen[u]) { seen[u] = 1; cnt ++; } }
    }
    if (! mc_failed () && n < 64 && v->vgst != v->vloc + cnt) mc_fail ("process %d: %ld ghosts for %d remote neighbours", p, (long) (v->vgst - v->vloc), cnt);
    h = mc_hash (h, v->gst, 0); for (i = 0; i < v->vgst; i ++) h = mc_hashi (h, of[i]);
    free (of);
  }
  dw_exit (&w); mc_state (h);
  if (! mc_failed () && n > 0) {                           /* statistics, from the definition */
    double e[14]; Num vmin = 1 << 30, vmax = 0, dmin = 1 << 30, dmax = 0, emin = 1 << 30, emax = 0, es = 0, m = 0; double va = 0, vd = 0, da, dd = 0, ea, ed = 0; static const char *nm[] = { "minimum vertex load", "maximum vertex load", "vertex load sum", "minimum degree", "maximum degree", "minimum edge load", "maximum edge load", "edge load sum", "average vertex load", "vertex load deviation", "average degree", "degree deviation", "average edge load", "edge load deviation" };
    for (i = 0; i < n; i ++) { Num k = 0; if (g->w[i] < vmin) vmin = g->w[i]; if (g->w[i] > vmax) vmax = g->w[i]; va += g->w[i]; for (j = 0; j < n; j ++) if (g->ew[i * n + j]) { Num x = g->ew[i * n + j]; k ++; if (x < emin) emin = x; if (x > emax) emax = x; es += x; m ++; } if (k < dmin) dmin = k; if (k > dmax) dmax = k; }
    e[2] = va; va /= n; da = (double) m / n; ea = m ? (double) es / m : 0; if (m == 0) emin = emax = 0;
    for (i = 0; i < n; i ++) { Num k = 0; vd += fabs (g->w[i] - va); for (j = 0; j < n; j ++) if (g->ew[i * n + j]) { k ++; ed += fabs (g->ew[i * n + j] - ea); } dd += fabs (k - da); }
    e[0] = vmin; e[1] = vmax; e[3] = dmin; e[4] = dmax; e[5] = emin; e[6] = emax; e[7] = es / 2; e[8] = va; e[9] = vd / n; e[10] = da; e[11] = dd / n; e[12] = ea; e[13] = m ? ed / m : 0;
    for (p = 0; p < d->np && ! mc_failed (); p ++) for (i = 0; i < 14; i ++) if (! (fabs (st[p][i] - e[i]) < 1e-9)) { mc_fail ("process %d: %s is %g instead of %g", p, nm[i], st[p][i], e[i]); break; }
  }
out:
  dv_exit (&V); dv_exit (&W);
}
static void case30 (D *d, int md) {
  int p;
  dv_init (&V, d->np); dv_init (&W, d->np);
  explore (d, md, r30, a30, d);
  if (mc_failed ()) { dv_exit (&V); dv_exit (&W); }
}
/* ---- verdicts of the checker ---- */
static int oracle (D *d) {
  int p, q, i, j; Num e, f, b = d->g->base;
  for (p = 0; p < d->np; p ++) {
    Num s = 0; Num *ve = d->vend[p] ? d->vend[p] : d->vert[p] + 1;
    for (i = 0; i < d->cnt[p]; i ++) { if (d->vert[p][i] < b || ve[i] < d->vert[p][i] || ve[i] > d->siz[p] + b) return 0; s += ve[i] - d->vert[p][i]; if (d->velo[p] && d->velo[p][i] < 0) return 0; }
    if (s != d->m[p]) return 0;
  }
  for (p = 0; p < d->np; p ++) for (i = 0; i < d->cnt[p]; i ++) {
    Num *ve = d->vend[p] ? d->vend[p] : d->vert[p] + 1;
    for (e = d->vert[p][i]; e < ve[i]; e ++) {
      int u = d_idx (d, d->edge[p][e - b]), c = 0; Num *vq, k;
      if (u < 0 || u == d->off[p] + i) return 0;
      for (k = d->vert[p][i]; k < ve[i]; k ++) if (d->edge[p][k - b] == d->edge[p][e - b]) c ++;
      if (c != 1) return 0;
      if (d->edlo[p] && d->edlo[p][e - b] < 0) return 0;
      q = d_own (d, u); j = u - d->off[q]; vq = d->vend[q] ? d->vend[q] : d->vert[q] + 1; c = 0;
      for (f = d->vert[q][j]; f < vq[j]; f ++) if (d->edge[q][f - b] == d->beg[p] + i) { c ++; if (d->edlo[q] && d->edlo[q][f - b] != d->edlo[p][e - b]) return 0; }
      if (c != 1) return 0;
    }
  }
  return 1;
}
static void rchk (int r, void *a) {
  D *d = a; SCOTCH_Dgraph g; ret[r] = ret2[r] = -1;
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  ret[r] = d_build (d, r, &g);
  if (ret[r] == 0) ret2[r] = SCOTCH_dgraphCheck (&g);
  SCOTCH_dgraphExit (&g);
}
static int want; static char mut[200];
static void achk (void *a) {
  D *d = a; int p, got = 0;
  if (mc_failed ()) return;
  for (p = 0; p < d->np; p ++) { if (!! ret[p] != !! ret[0] || !! ret2[p] != !! ret2[0]) { mc_fail ("%s: processes disagree (process 0 says %d/%d, process %d says %d/%d)", mut, ret[0], ret2[0], p, ret[p], ret2[p]); return; } }
  got = ret[0] == 0 && ret2[0] == 0;
  if (got != want) mc_fail ("%s: checker says %s but the graph is %s", mut, got ? "consistent" : "inconsistent", want ? "consistent" : "inconsistent");
  mc_note (want ? "accepted" : "refused", 1); mc_ops (1);
}
static void casechk (D *d, int md) {
  int p, i, k; Num e, b = d->g->base, v;
#define TRY(cell, val, ...) { Num old_ = (cell); if ((val) != old_) { (cell) = (val); want = oracle (d); snprintf (mut, sizeof (mut), __VA_ARGS__); explore (d, md, rchk, achk, d); (cell) = old_; if (mc_failed ()) return; } }
  for (p = 0; p < d->np; p ++) {
    for (e = 0; e < d->siz[p]; e ++) for (v = b - 1; v <= d->beg[d->np]; v ++) TRY (d->edge[p][e], v, "process %d: edge[%ld]=%ld", p, (long) e, (long) v);
    for (i = 0; i < d->cnt[p]; i ++) {
      for (k = -2; k <= 2; k ++) { TRY (d->vert[p][i], d->vert[p][i] + k, "process %d: vert[%d]%+d", p, i, k); if (d->vend[p]) TRY (d->vend[p][i], d->vend[p][i] + k, "process %d: vend[%d]%+d", p, i, k); }
      if (d->velo[p]) TRY (d->velo[p][i], -1, "process %d: velo[%d]=-1", p, i);
    }
    if (! d->vend[p]) for (k = -1; k <= 1; k ++) TRY (d->vert[p][d->cnt[p]], d->vert[p][d->cnt[p]] + k, "process %d: last vert%+d", p, k);
    for (e = 0; d->edlo[p] && e < d->siz[p]; e ++) { TRY (d->edlo[p][e], -1, "process %d: edlo[%ld]=-1", p, (long) e); TRY (d->edlo[p][e], d->edlo[p][e] + 1, "process %d: edlo[%ld]+1", p, (long) e); }
  }
}
void mc_run (void) {
  Shape s; G g; D d; int n, np, k, x, z, q; u64 m; int cnt[DMAXP];
  sh_init (&s);
  for (n = 0; n <= (mc_thorough ? 6 : 5); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= (n <= 4 ? 4 : n == 5 ? 3 : 2); np ++) for (k = 0; d_split (n, np, k, cnt); k ++) {
    
    for (x = 0; x < (mc_thorough ? 8 : n <= 3 ? 6 : 2); x ++) {
      z = (int) (m * 7 + k * 3 + np + x * 5);
      if (! mc_case ("dgraph n=%d mask=%llu np=%d split=%d variant=%d", n, (unsigned long long) m, np, k, x)) continue;
      sh_mask (&s, n, m); g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, (z / 3) % 3 == 2 && x % 2 ? 1 + (z & 1) : 0);
      d_make (&d, &g, np, cnt, (z / 4) % 3 ? 0 : (z / 5) & 15, (z / 3) % 3, (z / 7) & 1);
      case30 (&d, modes[x & 3]); if (g.m > 0 && np > 1) mc_nontrivial ();
      if (mc_failed () && mc_verbose) printf ("%s %s\n", g.desc, d.desc);
      d_exit (&d); g_exit (&g);
    }
  }
  for (n = 1; n <= 4; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= 3; np ++) for (k = 0; d_split (n, np, k, cnt); k ++) for (x = 0; x < (mc_thorough && n < 4 ? 6 : 2); x ++) {
    z = (int) (m * 7 + k * 3 + np + x * 5);
    if (! mc_case ("dcheck n=%d mask=%llu np=%d split=%d variant=%d", n, (unsigned long long) m, np, k, x)) continue;
    sh_mask (&s, n, m); g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, 0);
    d_make (&d, &g, np, cnt, (z / 4) % 2 ? 0 : (z / 5) & 7, (z / 3) % 3, (z / 7) & 1);
    casechk (&d, modes[x & 1]); if (g.m > 0 && np > 1) mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  for (q = 0; sh_family (&s, q, mc_thorough ? 1 : 0); q ++) for (np = 1; np <= 6; np ++) for (x = 0; x < 3; x ++) {
    if (s.n > 150) continue;
    if (! mc_case ("dgraph family=%d (%s) np=%d variant=%d", q, s.name, np, x)) continue;
    z = q + np + x * 3; g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, x == 2);
    if (x == 0) d_even (s.n, np, cnt); else { int left = s.n, p; for (p = 0; p < np - 1; p ++) { cnt[p] = (x == 1) ? left / 3 : (p & 1) ? 0 : left / 2; left -= cnt[p]; } cnt[np - 1] = left; }
    d_make (&d, &g, np, cnt, x == 1 ? 5 : 0, g.vlbl ? 0 : x, z & 1);
    case30 (&d, modes[z & 3]); mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  sh_exit (&s);
}
