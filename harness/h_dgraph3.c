/* Coarsening and growing of distributed graphs over all distributions and message orders (34). */
#include "dcommon.h"
typedef struct { D *d; unsigned seed; int flag, ctx, depth; Num nbr; double rat; } A;
#define SLOTS (DMAXP * 6)
static DV FV[SLOTS], CV[SLOTS]; static DW FW[SLOTS]; static int RET[SLOTS][DMAXP], GRP[SLOTS][DMAXP]; static Num *ML[SLOTS][DMAXP];
static void fmt_w (const DW *w, char *s, size_t z) { int i, j, k = 0; for (i = 0; i < w->n && k < (int) z - 60; i ++) { k += snprintf (s + k, z - k, "%ld(%d):", (long) w->num[i], w->own[i]); for (j = 0; j < w->n; j ++) if (w->mult[i * w->n + j]) k += snprintf (s + k, z - k, "%ld ", (long) w->num[j]); } }
/* One coarse graph (the processes of group gr) against the fine one. */
static void judge (int sl, int np, int gr, A *a, const char *what) {
  DV v; DW c; DW *f = &FW[sl]; char err[300]; int p, i, j, k, *to, *iso; Num *ew;
  memset (&v, 0, sizeof (v)); v.np = np; for (p = 0; p < np; p ++) if (GRP[sl][p] == gr) v.r[p] = CV[sl].r[p];
  if (dv_join (&v, &c, err, sizeof (err))) F ("%s: coarse graph: %s", what, err);
  if (c.base != f->base) F ("%s: coarse graph has base %ld", what, (long) c.base);
  if (c.haslbl) F ("%s: coarse graph has labels", what);
  if (c.n > (Num) (f->n * a->rat)) F ("%s: %d vertices coarsened to %d, ratio %g", what, f->n, c.n, a->rat);
  to = malloc ((f->n + 1) * sizeof (int)); iso = malloc ((f->n + 1) * sizeof (int));
  for (i = 0; i < f->n; i ++) { to[i] = -1; iso[i] = 1; for (j = 0; j < f->n; j ++) if (f->mult[i * f->n + j]) iso[i] = 0; }
  for (p = 0, k = 0; p < np; p ++) if (GRP[sl][p] == gr) for (i = 0; i < CV[sl].r[p].vloc; i ++, k ++) {
    Num x = ML[sl][p][2 * i], y = ML[sl][p][2 * i + 1]; int u = dw_idx (f, x), w = dw_idx (f, y);
    if (u < 0 || w < 0) F ("%s: coarse vertex %ld is made of %ld and %ld, which do not exist", what, (long) c.num[k], (long) x, (long) y);
    if (to[u] >= 0 || (u != w && to[w] >= 0)) F ("%s: fine vertex %ld is in several coarse vertices", what, (long) (to[u] >= 0 ? x : y));
    to[u] = to[w] = k;
    if (u != w && ! f->mult[u * f->n + w] && ((a->flag & SCOTCH_COARSENNOMERGE) || (! iso[u] && ! iso[w]))) F ("%s: fine vertices %ld and %ld, not adjacent, are merged", what, (long) x, (long) y);
    if (c.w[k] != f->w[u] + (u != w ? f->w[w] : 0)) F ("%s: coarse vertex %ld (%ld,%ld) has load %ld", what, (long) c.num[k], (long) x, (long) y, (long) c.w[k]);
  }
  for (i = 0; i < f->n; i ++) if (to[i] < 0) F ("%s: fine vertex %ld is in no coarse vertex", what, (long) f->num[i]);
  ew = calloc ((long) c.n * c.n + 1, sizeof (Num));
  for (i = 0; i < f->n; i ++) for (j = 0; j < f->n; j ++) if (to[i] != to[j]) ew[to[i] * c.n + to[j]] += f->ew[i * f->n + j];
  for (i = 0; i < c.n; i ++) for (j = 0; j < c.n; j ++) if (ew[i * c.n + j] != c.ew[i * c.n + j]) F ("%s: coarse edge %ld-%ld has load %ld instead of %ld", what, (long) c.num[i], (long) c.num[j], (long) c.ew[i * c.n + j], (long) ew[i * c.n + j]);
  for (i = 0; i < f->n; i ++) for (j = 0; j < f->n; j ++) if (f->mult[i * f->n + j] && to[i] != to[j] && ! c.mult[to[i] * c.n + to[j]]) F ("%s: no coarse edge for %ld-%ld", what, (long) f->num[i], (long) f->num[j]);
  mc_state (dw_hash (&c)); mc_ops (1); mc_note (a->flag & 0x100 ? "folded" : "coarsened", 1);
  free (ew); free (to); free (iso); dw_exit (&c);
}
static void chain (SCOTCH_Dgraph *g, A *a, int depth, int r0) {
  MPI_Comm cm, cc, dup; int np, r, sl, p, q, o, lead, wr, part; Num m0, m1, *ml; SCOTCH_Dgraph c, cg, *gp = g; SCOTCH_Context cx; char err[300], w[200]; int null = (a->seed + depth) % 5 == 4;
  MPI_Comm_rank (MPI_COMM_WORLD, &wr);
  SCOTCH_dgraphData (g, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, &cm);
  MPI_Comm_size (cm, &np); MPI_Comm_rank (cm, &r); lead = wr; MPI_Bcast (&lead, 1, MPI_INT, 0, cm); sl = depth * DMAXP + lead;
  MPI_Barrier (cm); if (r == 0) dv_init (&FV[sl], np); MPI_Barrier (cm);
  dv_read (&FV[sl], r, g); if (mc_failed ()) F ("bad arrays");
  MPI_Barrier (cm);
  if (r == 0) { if (dv_join (&FV[sl], &FW[sl], err, sizeof (err))) F ("fine graph: %s", err); dv_init (&CV[sl], np); for (p = 0; p < np; p ++) { GRP[sl][p] = -1; ML[sl][p] = NULL; } }
  MPI_Barrier (cm);
  snprintf (w, sizeof (w), "coarsening level %d flags %x ratio %g minimum %ld", depth, a->flag, a->rat, (long) a->nbr);
  m0 = SCOTCH_dgraphCoarsenVertLocMax (g, a->flag); if (m0 < 0) F ("%s: bound is %ld", w, (long) m0);
  ml = malloc (m0 * 2 * sizeof (Num) | 4);
  if ((a->seed + depth) & 1) { dup = MPI_COMM_NULL; cc = cm; } else { MPI_Comm_dup (cm, &dup); cc = dup; }
  if (SCOTCH_dgraphInit (&c, cc) != 0) F ("dgraphInit failed");
  if (a->ctx) { SCOTCH_contextInit (&cx); SCOTCH_contextRandomClone (&cx); SCOTCH_contextThreadSpawn (&cx, a->ctx, NULL); if (SCOTCH_contextBindDgraph (&cx, g, &cg) != 0) F ("contextBindDgraph failed"); gp = &cg; }
  if (SCOTCH_dgraphCoarsenVertLocMax (gp, a->flag) != m0) F ("%s: bound differs within a context", w);
  o = SCOTCH_dgraphCoarsen (gp, a->nbr, a->rat, a->flag, &c, null ? NULL : ml);
  if (a->ctx) { SCOTCH_dgraphExit (&cg); SCOTCH_contextExit (&cx); }
  RET[sl][r] = o; MPI_Barrier (cm);
  if (r == 0) {
    for (p = 1; p < np; p ++) if (RET[sl][p] != RET[sl][0]) F ("%s: process %d returns %d, process 0 returns %d", w, p, RET[sl][p], RET[sl][0]);
    if (o > 1) F ("%s: failed", w);
    if (o == 1 && a->rat == 1.0 && a->nbr <= FW[sl].n) F ("%s: graph of %d vertices not coarsened", w, FW[sl].n);
    if (o == 0 && (Num) (FW[sl].n * a->rat) < a->nbr) F ("%s: graph of %d vertices coarsened", w, FW[sl].n);
    mc_note (o ? "refused" : "done", 1);
  }
  MPI_Barrier (cm);
  if (o == 0) {
    MPI_Comm c2; Num vl;
    SCOTCH_dgraphData (&c, NULL, NULL, &vl, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, &c2);
    part = 1; if (np > 1 && (a->flag & 0x300) == SCOTCH_COARSENFOLD && r >= (np + 1) / 2) part = 0;
    if (part) {
      int n2, wl;
      if (SCOTCH_dgraphCheck (&c) != 0) F ("%s: coarse graph refused by the checker", w);
      MPI_Comm_size (c2, &n2); q = np > 1 && (a->flag & 0x100) ? r < (np + 1) / 2 ? (np + 1) / 2 : np / 2 : np;
      if (n2 != q) F ("%s: coarse graph is on %d processes instead of %d", w, n2, q);
      wl = r; MPI_Bcast (&wl, 1, MPI_INT, 0, c2); GRP[sl][r] = wl;
      if (vl > m0) F ("%s: %ld local coarse vertices, bound was %ld", w, (long) vl, (long) m0);
      dv_read (&CV[sl], r, &c); if (mc_failed ()) F ("bad coarse arrays");
      ML[sl][r] = ml;
    }
    else { Num vg; SCOTCH_dgraphSize (&c, &vg, &vl, NULL, NULL); if (vl != 0) F ("%s: process %d holds vertices of the folded graph", w, r); }
    MPI_Barrier (cm);
    if (r == 0 && ! null) {
      for (p = 0, q = 0; p < np; p ++) if (GRP[sl][p] == p) { judge (sl, np, p, a, w); q ++; }
      if (q != (np > 1 && (a->flag & 0x300) == 0x300 ? 2 : 1)) F ("%s: %d coarse graphs", w, q);
    }
    MPI_Barrier (cm);
    if (depth < a->depth && part) chain (&c, a, depth + 1, r0);
  }
  MPI_Barrier (cm);
  if (r == 0) { dw_exit (&FW[sl]); dv_exit (&FV[sl]); dv_exit (&CV[sl]); }
  free (ml); SCOTCH_dgraphExit (&c); if (dup != MPI_COMM_NULL) MPI_Comm_free (&dup);
}
static void r_coar (int r, void *a_) {
  A *a = a_; SCOTCH_Dgraph g;
  SCOTCH_randomSeed (a->seed % 7); SCOTCH_randomReset ();
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (a->d, r, &g) != 0) F ("process %d: valid graph not built", r);
  if (a->seed & 2 && SCOTCH_dgraphGhst (&g) != 0) F ("dgraphGhst failed");
  chain (&g, a, 0, r);
  if (SCOTCH_dgraphCheck (&g) != 0) F ("fine graph refused by the checker after coarsening");
  SCOTCH_dgraphExit (&g);
}
static Num PA[600], PB[600]; static int CRE;
static void r_grow (int r, void *a_) {
  A *a = a_; D *d = a->d; SCOTCH_Dgraph g; int n = d->g->n, np = d->np, i, j, k, dist; long it, lim, step; Num gst, *sd, *pa; static int lv[600];
  SCOTCH_randomSeed (a->seed % 7); SCOTCH_randomReset ();
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (d, r, &g) != 0) F ("process %d: valid graph not built", r);
  if (SCOTCH_dgraphGhst (&g) != 0) F ("dgraphGhst failed");
  SCOTCH_dgraphData (&g, NULL, NULL, NULL, NULL, &gst, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  if (gst < d->cnt[r]) F ("ghost number is %ld", (long) gst);
  for (lim = 1, i = 0; i < n && i < 8; i ++) lim *= 4;
  step = n > 8 ? 1 : lim <= 64 ? (mc_thorough ? 1 : 3) : mc_thorough ? 5 : 23; if (n > 8) lim = 6;
  for (it = n > 8 ? 0 : a->seed % step; it < lim; it += step) for (dist = 0; dist <= (n > 8 ? 9 : n + 1); dist += n > 8 ? 3 : 1) {
    if (n > 2 && n <= 8 && ! mc_thorough && (it / step + dist) % 2) continue;
    sync_ ();
    if (r == 0) {                                         /* 0: free; 1, 2: seeds of two colors; 3: barrier */
      for (i = 0; i < n; i ++) { int x = n > 8 ? (it == 0 ? (i == n / 2) : it == 1 ? (i % 9 == 0) : it == 2 ? (d_own (d, i) == np - 1 ? 1 + (i & 1) : 0) : it == 3 ? (i == 0 ? 1 : i == n - 1 ? 2 : i % 5 == 0 ? 3 : 0) : it == 4 ? (i < n / 2 ? 2 : 0) : (i == n / 3) + (i % 4 == 1 ? 2 : 0)) : (it >> (2 * i)) & 3; PA[i] = x == 0 ? -1 : x == 1 ? 0 : x == 2 ? 5 + i : 11; lv[i] = x == 0 ? 9999 : x == 3 ? -1 : 0; }
      for (k = 1; k <= dist; k ++) for (i = 0; i < n; i ++) if (lv[i] == k - 1) for (j = 0; j < n; j ++) if (lv[j] > k && g_adj (d->g, i, j)) lv[j] = k;
    }
    sync_ ();
    sd = malloc (d->cnt[r] * sizeof (Num) | 4); pa = malloc (gst * sizeof (Num) | 4); memset (sd, 0x55, d->cnt[r] * sizeof (Num));
    for (i = 0, k = 0; i < gst; i ++) { pa[i] = -1; if (i < d->cnt[r]) { int v; j = it & 1 ? d->cnt[r] - 1 - i : i; v = d->off[r] + j; if (lv[v] == 0) sd[k ++] = j + d->g->base; pa[i] = PA[d->off[r] + i]; } }
    if (SCOTCH_dgraphGrow (&g, k, sd, dist, pa) != 0) F ("growing by %d from %s failed", dist, arr_str (PA, n > 20 ? 20 : n));
    sync_ (); for (i = 0; i < d->cnt[r]; i ++) PB[d->off[r] + i] = pa[i]; sync_ ();
    if (r == 0) for (i = 0; i < n; i ++) {
      int ok = 0;
      if (lv[i] > 0 && lv[i] < 9999) { for (j = 0; j < n; j ++) if (g_adj (d->g, i, j) && lv[j] == lv[i] - 1 && PB[j] == PB[i]) ok = 1; } else ok = PB[i] == PA[i];
      if (! ok) F ("growing by %d from %s: vertex %d, at distance %d, has color %ld", dist, arr_str (PA, n > 20 ? 20 : n), i, lv[i], (long) PB[i]);
    }
    if (r == 0) { mc_ops (1); mc_state (mc_hash (1, PB, n * sizeof (Num))); }
    sync_ (); free (sd); free (pa);
  }
  SCOTCH_dgraphExit (&g);
}
static void after (void *a_) { A *a = a_; if (! g_same (a->d->g)) mc_fail ("arrays of the caller were changed"); if (! mc_failed () && pm_leaks ()) mc_fail ("%d communication objects are never freed", pm_leaks ()); }
static int fl[8] = { 0, SCOTCH_COARSENFOLD, SCOTCH_COARSENFOLDDUP, SCOTCH_COARSENNOMERGE, SCOTCH_COARSENNOMERGE | SCOTCH_COARSENFOLD, SCOTCH_COARSENNOMERGE | SCOTCH_COARSENFOLDDUP, 0, SCOTCH_COARSENFOLDDUP };
static double rt[5] = { 1.0, 0.8, 1.0, 0.7, 0.5 };
static void one (D *d, int z, int kd, int x) {
  A a; memset (&a, 0, sizeof (a)); a.d = d; a.seed = z; a.flag = fl[x & 7]; a.rat = rt[z % 5]; a.nbr = z % 3 == 0 ? 0 : z % 3 == 1 ? 2 : d->g->n / 2 + 1; a.depth = 2 + (z & 1); a.ctx = (z / 4) % 4 == 3 ? 1 + (z & 1) : 0;
  explore (d->np, modes[z & 3], kd ? r_grow : r_coar, after, &a);
}
void mc_run (void) {
  Shape s; G g; D d; int n, np, k, x, z, q, kd; u64 m; int cnt[DMAXP];
  int ptp = getenv ("MC_SET") != NULL;
  sh_init (&s); dmaxruns[0] = 5;
  for (n = 0; n <= (mc_thorough ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= (n <= 3 ? 5 : 4); np ++) for (k = 0; d_split (n, np, k, cnt); k ++) for (kd = 0; kd < 2; kd ++)
    for (x = 0; x < (kd ? 1 : mc_thorough ? 8 : n <= 3 ? 6 : 2); x ++) {
      z = (int) (m * 7 + k * 3 + np + x * 5 + kd);
      if (n == 4 && ! mc_thorough && (z / 2 + ptp) % 3 == 0) continue;
      if (! mc_case ("%s n=%d mask=%llu np=%d split=%d variant=%d", kd ? "grow" : "coarsen", n, (unsigned long long) m, np, k, x)) continue;
      sh_mask (&s, n, m); g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, kd ? 0 : (z / 3) % 3);
      d_make (&d, &g, np, cnt, (z / 4) % 3 ? 0 : (z / 5) & 15, (z / 3) % 3, (z / 7) & 1);
      one (&d, z, kd, n <= 3 ? x : x + (int) (m + k) % 8); if (g.m > 0 && np > 1) mc_nontrivial ();
      if (mc_failed () && mc_verbose) printf ("%s %s\n", g.desc, d.desc);
      d_exit (&d); g_exit (&g);
    }
  for (n = 5; n <= 7; n ++) for (q = 0; sh_atlas (&s, n, q); q ++) for (np = 2; np <= 8; np ++) for (x = 0; x < (mc_thorough ? 6 : 1); x ++) {
    z = q * 3 + np * 5 + x; if (! mc_thorough && z % (n == 7 ? 41 : n == 6 ? 5 : 1)) continue;
    if (! mc_case ("coarsen atlas n=%d %d np=%d variant=%d", n, q, np, x)) continue;
    g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, 0); k = (q * 31 + np * 17 + x * 101) % d_splitnbr (n, np); d_split (n, np, k, cnt);
    d_make (&d, &g, np, cnt, z % 4 ? 0 : z & 255, z % 3, z & 1); one (&d, z, 0, x + q); mc_nontrivial ();
    if (mc_failed () && mc_verbose) printf ("%s %s\n", g.desc, d.desc);
    d_exit (&d); g_exit (&g);
  }
  for (q = 0; sh_family (&s, q, mc_thorough ? 1 : 0); q ++) for (np = 2; np <= 8; np ++) for (kd = 0; kd < 2; kd ++) for (x = 0; x < (kd ? 2 : 6); x ++) {
    if (s.n > 130 || s.n <= 8 || (! mc_thorough && (x + np + q + ptp) % 3)) continue;
    if (! mc_case ("%s family=%d (%s) np=%d variant=%d", kd ? "grow" : "coarsen", q, s.name, np, x)) continue;
    z = q + np + x * 3; g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, x == 2);
    if (x % 3 == 0) d_even (s.n, np, cnt); else { int left = s.n, p; for (p = 0; p < np - 1; p ++) { cnt[p] = (x & 1) ? left / 3 : (p & 1) ? left / 2 : 0; left -= cnt[p]; } cnt[np - 1] = left; }
    d_make (&d, &g, np, cnt, x == 1 ? 5 : 0, g.vlbl ? 0 : x % 3, z & 1);
    if (! mc_thorough) dmaxruns[0] = 2;
    one (&d, z, kd, x); mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  sh_exit (&s);
}
