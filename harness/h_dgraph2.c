/* Restructuring of distributed graphs over all distributions and message orders (31): gather, scatter, redistribute, induce, band. */
#include "dcommon.h"
typedef struct { D *d; int kind; unsigned seed; } A;
static EX X; static Num PT[600], PM[600];
static Num lbl0 (D *d, int v) { return d->g->vlbl ? d->g->vlbl[v] : d_num (d, v); }
static void gat (int r, D *d, SCOTCH_Dgraph *dg, int root, const G *g, const Num *lbl, const char *what) {       /* root -1: everywhere */
  SCOTCH_Graph cg; char err[200]; int i, j; GV v;
  if (root < 0 || r == root) {
    if (SCOTCH_graphInit (&cg) != 0) F ("graphInit");
    if (SCOTCH_dgraphGather (dg, &cg) != 0) F ("%s: dgraphGather failed (root %d)", what, root);
    if (SCOTCH_graphCheck (&cg) != 0) F ("%s: gathered graph refused by the checker", what);
    if (gv_read (&v, &cg, err, sizeof (err))) F ("%s: gathered graph: %s", what, err);
    if (v.n != g->n || v.base != g->base || v.dup) F ("%s: gathered graph has %d vertices, base %ld", what, v.n, (long) v.base);
    if (v.haslbl != (lbl != NULL) || v.hasvelo > (g->velo != NULL) || (v.hasedlo != (g->edlo != NULL))) F ("%s: gathered graph has wrong kinds of arrays", what);
    for (i = 0; i < v.n; i ++) {
      if (v.w[i] != g->w[i] || (lbl && v.lbl[i] != lbl[i])) F ("%s: gathered graph: load or label of vertex %d", what, i);
      for (j = 0; j < v.n; j ++) if (v.ew[i * v.n + j] != g->ew[i * v.n + j]) F ("%s: gathered graph: edge %d-%d has load %ld", what, i, j, (long) v.ew[i * v.n + j]);
    }
    if (v.velosum != g_vsum (g) || v.edlosum != g_esum (g)) F ("%s: gathered graph: load sums %ld %ld", what, (long) v.velosum, (long) v.edlosum);
    gv_exit (&v); SCOTCH_graphExit (&cg);
  }
  else if (SCOTCH_dgraphGather (dg, NULL) != 0) F ("%s: dgraphGather failed (root %d) on process %d", what, root, r);
  mc_ops (1);
}
static void mk (int r, D *d, SCOTCH_Dgraph *g) {
  if (SCOTCH_dgraphInit (g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (d, r, g) != 0) F ("process %d: valid graph not built", r);
}
static void r_gs (int r, void *a_) {
  A *a = a_; D *d = a->d; SCOTCH_Dgraph g, s; SCOTCH_Graph cg; int root, i, n = d->g->n; int cnt[DMAXP]; MPI_Comm c;
  mk (r, d, &g);
  for (root = -1; root < d->np; root ++) gat (r, d, &g, root, d->g, d->g->vlbl, "gather");
  for (root = 0; root < d->np; root ++) {
    MPI_Comm_dup (MPI_COMM_WORLD, &c);
    if (SCOTCH_dgraphInit (&s, c) != 0) F ("dgraphInit failed");
    if (r == root && g_build (d->g, &cg) != 0) F ("graphBuild failed");
    if (SCOTCH_dgraphScatter (&s, r == root ? &cg : (r & 1) ? (SCOTCH_Graph *) &s : NULL) != 0) F ("scatter from process %d failed", root);
    if (r == root) SCOTCH_graphExit (&cg);
    sync_ ();
    if (r == 0) {
      int p, k; d_even (n, d->np, cnt); X.n = n; X.g = d->g; X.anyorder = 0; X.haslbl = d->g->vlbl != NULL;
      for (p = k = 0; p < d->np; p ++) { X.max[p] = cnt[p]; for (i = 0; i < cnt[p]; i ++, k ++) { X.v[k] = k; X.own[k] = p; X.num[k] = k + d->g->base; X.lbl[k] = d->g->vlbl ? d->g->vlbl[k] : 0; } }
    }
    sync_ ();
    expect (r, d->np, &s, &X, "scatter");
    gat (r, d, &s, root, d->g, d->g->vlbl, "gather after scatter"); gat (r, d, &s, -1, d->g, d->g->vlbl, "gather after scatter");
    SCOTCH_dgraphExit (&s); MPI_Comm_free (&c);
  }
  SCOTCH_dgraphExit (&g);
}
/* part array of every vertex in PT; perm: order of the vertices of each part */
static void r_red (int r, void *a_) {
  A *a = a_; D *d = a->d; SCOTCH_Dgraph g, s; int n = d->g->n, np = d->np, i, p, k, pass; long it, lim, step; Num gst, *pm, *pt; Num b = d->g->base;
  mk (r, d, &g);
  if (SCOTCH_dgraphGhst (&g) != 0) F ("dgraphGhst failed");
  SCOTCH_dgraphData (&g, NULL, NULL, NULL, NULL, &gst, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  for (lim = 1, i = 0; i < n && lim < 100000; i ++) lim *= np;
  step = lim > 27 ? lim / (mc_thorough ? 81 : 9) | 1 : 1; if (lim > 100) step = (step / np) * np + 1;
  for (it = n > 8 ? lim - 1 - a->seed % 5 : lim > 27 ? a->seed % step : 0; it < lim; it += n > 8 ? lim : step) for (pass = 0; pass < 4; pass ++) {
    if (! mc_thorough && n > 3 && pass && pass != 1 + (it / step + a->seed) % 3) continue;
    Num vdlt = (it + pass) % 3, edlt = (it + pass) % 4 == 3 ? 5 : 0; int cnt[DMAXP] = { 0 }, at[DMAXP], ord[600];
    sync_ ();
    if (r == 0) {
      long z = it; for (i = 0; i < n; i ++) { if (n > 8) PT[i] = a->seed % 3 == 0 ? (i * 7 + it) % np : a->seed % 3 == 1 ? np - 1 : (np - 1) - (i * np / n); else { PT[i] = z % np; z /= np; } }
      X.n = n; X.g = d->g; X.anyorder = 0; X.haslbl = 1;
    }
    sync_ ();
    for (i = 0; i < n; i ++) cnt[PT[i]] ++;
    for (p = 0, k = 0; p < np; p ++) { at[p] = k; k += cnt[p] + vdlt; }
    /* order of vertices: pass 0 none given; 1 reversed; 2 rotated; 3 even ones first */
    for (i = 0; i < n; i ++) ord[i] = pass <= 0 ? i : pass == 1 ? n - 1 - i : pass == 2 ? (i + 1 + n / 2) % n : (i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1);
    if (r == 0) { int c[DMAXP] = { 0 }; for (i = 0; i < n; i ++) { p = PT[ord[i]]; PM[ord[i]] = b + at[p] + c[p] ++; }
      for (p = 0, k = 0; p < np; p ++) { X.max[p] = cnt[p] + vdlt; for (i = 0; i < n; i ++) if (PT[ord[i]] == p) { X.v[k] = ord[i]; X.own[k] = p; X.num[k] = PM[ord[i]]; X.lbl[k] = lbl0 (d, ord[i]); k ++; } } }
    sync_ ();
    pt = malloc (d->cnt[r] * sizeof (Num) | 4); pm = malloc (gst * sizeof (Num) | 4);
    for (i = 0; i < d->cnt[r]; i ++) { pt[i] = PT[d->off[r] + i]; pm[i] = PM[d->off[r] + i]; }
    if (pass && SCOTCH_dgraphHalo (&g, pm, SCOTCH_NUM_MPI) != 0) F ("dgraphHalo failed");
    if (SCOTCH_dgraphInit (&s, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
    if (SCOTCH_dgraphRedist (&g, pt, pass ? pm : NULL, vdlt, edlt, &s) != 0) F ("redistribution to %s failed (%s, extra %ld %ld)", arr_str (PT, n), pass == 0 ? "no order" : "order given", (long) vdlt, (long) edlt);
    { char w[300]; snprintf (w, sizeof (w), "redistribution to %s pass %d extra %ld %ld", n > 20 ? "..." : arr_str (PT, n), pass, (long) vdlt, (long) edlt); expect (r, np, &s, &X, w); }
    if (vdlt + edlt > 0) {                                /* the extra room is there */
      Num vl, el, *ve, *vw, *vb, *ed, *ew, es; SCOTCH_dgraphData (&s, NULL, NULL, &vl, NULL, NULL, &ve, NULL, &vw, &vb, NULL, &el, &es, &ed, NULL, &ew, NULL);
      if (es < el + edlt) F ("redistribution: room for %ld arcs, %ld used, %ld more asked for", (long) es, (long) el, (long) edlt);
      for (i = 0; i < vdlt; i ++) { ve[vl + 1 + i] = -5; if (vw) vw[vl + i] = -6; if (vb) vb[vl + i] = -7; }
      for (i = 0; i < edlt; i ++) { ed[el + i] = -5; if (ew) ew[el + i] = -6; }
      expect (r, np, &s, &X, "redistributed graph after its extra room was written to");
    }
    SCOTCH_dgraphExit (&s); free (pt); free (pm);
  }
  SCOTCH_dgraphExit (&g);
}
static void r_ind (int r, void *a_) {
  A *a = a_; D *d = a->d; SCOTCH_Dgraph g, s, t; int n = d->g->n, np = d->np, i, p, k; long it, lim = n > 8 ? 4 : 1L << n; Num *pt;
  mk (r, d, &g);
  for (it = 0; it < lim; it ++) {
    int nloc = 0; Num val = it & 1 ? 3 : 0, oth = it & 2 ? -1 : 7;
    sync_ ();
    if (r == 0) {
      for (i = 0; i < n; i ++) PT[i] = (n > 8 ? (it == 0 ? (i % 3 == 0) : it == 1 ? i < n / 2 : it == 2 ? d_own (d, i) != 0 : i % 5 != 0) : (it >> i) & 1) ? val : oth;
      X.g = d->g; X.anyorder = 0; X.haslbl = 1;
      for (p = k = 0; p < np; p ++) { int k0 = k; for (i = d->off[p]; i < d->off[p + 1]; i ++) if (PT[i] == val) { X.v[k] = i; X.own[k] = p; X.num[k] = k + d->g->base; X.lbl[k] = lbl0 (d, i); k ++; } X.max[p] = k - k0; }
      X.n = k;
    }
    sync_ ();
    pt = malloc (d->cnt[r] * sizeof (Num) | 4); for (i = 0; i < d->cnt[r]; i ++) { pt[i] = PT[d->off[r] + i]; nloc += pt[i] == val; }
    if (SCOTCH_dgraphInit (&s, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
    if (SCOTCH_dgraphInducePart (&g, pt, val, (it + r) % 3 ? nloc : -1, &s) != 0) F ("induced graph of part %ld of %s not built", (long) val, arr_str (PT, n > 30 ? 30 : n));
    { char w[200]; snprintf (w, sizeof (w), "graph induced by part %ld of %s", (long) val, n > 20 ? "..." : arr_str (PT, n)); expect (r, np, &s, &X, w); }
    if (it % 3 == 2) {                                    /* once more, from the induced graph */
      sync_ ();
      if (r == 0) { int j = 0, p; for (p = 0; p < np; p ++) X.max[p] = 0; for (i = 0; i < X.n; i ++) if (i % 2 == 0) { X.v[j] = X.v[i]; X.own[j] = X.own[i]; X.lbl[j] = X.lbl[i]; X.num[j] = j + d->g->base; X.max[X.own[j]] ++; j ++; } PM[0] = X.n; X.n = j; }
      sync_ ();
      { int first = 0, j = 0; for (i = 0; i < d->off[r]; i ++) first += PT[i] == val; for (i = 0; i < nloc; i ++) pt[i] = (first + i) % 2 == 0 ? 1 : 0; (void) j; }
      if (SCOTCH_dgraphInit (&t, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
      if (SCOTCH_dgraphInducePart (&s, pt, 1, -1, &t) != 0) F ("graph induced from an induced graph not built");
      expect (r, np, &t, &X, "graph induced from an induced graph");
      SCOTCH_dgraphExit (&t);
    }
    SCOTCH_dgraphExit (&s); free (pt);
  }
  SCOTCH_dgraphExit (&g);
}
static void r_band (int r, void *a_) {
  A *a = a_; D *d = a->d; SCOTCH_Dgraph g, s; int n = d->g->n, np = d->np, i, j, p, k; long it, lim = n > 8 ? 4 : 1L << n; Num *sd; int dist, ds[600], in[600];
  mk (r, d, &g);
  for (it = 0; it < lim; it ++) for (dist = 0; dist <= (n > 8 ? 4 : n > 3 ? 3 : 2); dist ++) {
    if (n > 3 && n <= 8 && (it + dist) % 2) continue;
    for (i = 0; i < n; i ++) in[i] = n > 8 ? (it == 0 ? i == n / 2 : it == 1 ? i % 7 == 0 : it == 2 ? d_own (d, i) == np - 1 : (i == 0 || i == n - 1)) : (it >> i) & 1;
    sync_ ();
    if (r == 0) {
      X.g = d->g; X.anyorder = 1; X.haslbl = 1;
      for (i = 0; i < n; i ++) PM[i] = -1;
      for (i = 0; i < n; i ++) if (in[i]) { g_dist (d->g, i, ds); for (j = 0; j < n; j ++) if (ds[j] >= 0 && ds[j] <= dist) PM[j] = 1; }
      for (p = k = 0; p < np; p ++) { int k0 = k; for (i = d->off[p]; i < d->off[p + 1]; i ++) if (PM[i] >= 0) { X.v[k] = i; X.own[k] = p; X.lbl[k] = lbl0 (d, i); k ++; } X.max[p] = k - k0; }
      X.n = k;
    }
    sync_ ();
    sd = malloc (d->cnt[r] * sizeof (Num) | 4); memset (sd, 0x55, d->cnt[r] * sizeof (Num)); k = 0;
    for (i = 0; i < d->cnt[r]; i ++) { j = it & 1 ? d->cnt[r] - 1 - i : i; if (in[d->off[r] + j]) sd[k ++] = j + d->g->base; }
    if (SCOTCH_dgraphInit (&s, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
    if (SCOTCH_dgraphBand (&g, k, sd, dist, &s) != 0) F ("band graph of width %d around seeds %ld not built", dist, it);
    { char w[200]; snprintf (w, sizeof (w), "band graph of width %d around seeds %ld", dist, it); expect (r, np, &s, &X, w); }
    SCOTCH_dgraphExit (&s); free (sd);
  }
  SCOTCH_dgraphExit (&g);
}
static void (*fn[4]) (int, void *) = { r_gs, r_red, r_ind, r_band };
static const char *nm[4] = { "gather", "redist", "induce", "band" };
static void after (void *a_) { A *a = a_; if (! g_same (a->d->g)) mc_fail ("arrays of the caller were changed"); }
void mc_run (void) {
  Shape s; G g; D d; A a; int n, np, k, x, z, q, kd; u64 m; int cnt[DMAXP];
  sh_init (&s); dmaxruns[0] = 24;
  for (n = 0; n <= (mc_thorough ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= (n <= 3 ? 4 : 3); np ++) for (k = 0; d_split (n, np, k, cnt); k ++) for (kd = 0; kd < 4; kd ++)
    for (x = 0; x < (mc_thorough ? 4 : n <= 3 && kd ? 2 : 1); x ++) {
      z = (int) (m * 7 + k * 3 + np + x * 5 + kd);
      if (! mc_case ("%s n=%d mask=%llu np=%d split=%d variant=%d", nm[kd], n, (unsigned long long) m, np, k, x)) continue;
      sh_mask (&s, n, m); g_make (&g, &s, z & 1, kd == 0 ? (z / 3) % 4 : 0, z % 5, (z / 2) % 4, (z / 3) % 3);
      d_make (&d, &g, np, cnt, (z / 4) % 3 ? 0 : (z / 5) & 15, (z / 3) % 3, (z / 7) & 1);
      a.d = &d; a.kind = kd; a.seed = z; explore (np, modes[z & 3], fn[kd], after, &a); if (g.m > 0 && np > 1) mc_nontrivial ();
      if (mc_failed () && mc_verbose) printf ("%s %s\n", g.desc, d.desc);
      d_exit (&d); g_exit (&g);
    }
  for (q = 0; sh_family (&s, q, mc_thorough ? 1 : 0); q ++) for (np = 2; np <= 6; np += mc_thorough ? 1 : 2) for (kd = 0; kd < 4; kd ++) for (x = 0; x < 3; x ++) {
    if (s.n > 120 || s.n <= 8) continue;
    if (! mc_case ("%s family=%d (%s) np=%d variant=%d", nm[kd], q, s.name, np, x)) continue;
    z = q + np + x * 3; g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, x == 2);
    if (x == 0) d_even (s.n, np, cnt); else { int left = s.n, p; for (p = 0; p < np - 1; p ++) { cnt[p] = (x == 1) ? left / 3 : (p & 1) ? left / 2 : 0; left -= cnt[p]; } cnt[np - 1] = left; }
    d_make (&d, &g, np, cnt, x == 1 ? 5 : 0, g.vlbl ? 0 : x, z & 1);
    if (! mc_thorough) dmaxruns[0] = 6;
    a.d = &d; a.kind = kd; a.seed = z; explore (np, modes[z & 3], fn[kd], after, &a); mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  sh_exit (&s);
}
