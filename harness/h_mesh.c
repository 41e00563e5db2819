/* Meshes: orderings (9), node graphs and dual graphs (21). */
#include "gspace.h"

static int sel;
static const char *strats[] = {
#include "st_mesh.h"
};
#define SNBR ((int) (sizeof (strats) / sizeof (strats[0])))
static int share (const M *q, int a, int b) { int e; for (e = 0; e < q->ne; e ++) if (q->inc[e * q->nn + a] && q->inc[e * q->nn + b]) return 1; return 0; }
static int bname (const M *q, long lbl) { int j; for (j = 0; j < q->nn; j ++) if ((q->vlbl ? q->vlbl[q->vnodbas - q->base + j] : j + q->base) == lbl) return j; return -1; }

static void order (M *q, int k, int bound) {
  SCOTCH_Mesh me, mb, *s = &me; SCOTCH_Context c; SCOTCH_Ordering ord; SCOTCH_Strat st; int n = q->nn, i, j, b = q->base, o, *blk; Num *pm = malloc ((n + 1) * sizeof (Num)), *pi = malloc ((n + 1) * sizeof (Num)), *rg = malloc ((n + 1) * sizeof (Num)), *tr = malloc ((n + 1) * sizeof (Num)), cb = -1; char *seen = calloc (n + 1, 1); u64 h;
  if (m_build (q, &me) != 0) { mc_fail ("mesh not built"); return; }
  if (bound) { SCOTCH_contextInit (&c); SCOTCH_meshInit (&mb); SCOTCH_contextThreadSpawn (&c, 1, NULL); if (SCOTCH_contextBindMesh (&c, &me, &mb) != 0) mc_fail ("mesh not bound"); s = &mb; }
  SCOTCH_stratInit (&st); blk = malloc ((n + 1) * sizeof (int));
  if (strats[k][0] && SCOTCH_stratMeshOrder (&st, strats[k]) != 0) { mc_fail ("strategy refused"); goto out; }
  SCOTCH_randomReset ();
  for (i = 0; i <= n; i ++) pm[i] = pi[i] = rg[i] = tr[i] = -99;
  if (SCOTCH_meshOrderInit (s, &ord, pm, pi, &cb, rg, tr) != 0) { mc_fail ("ordering not initialized"); goto out; }
  o = SCOTCH_meshOrderCompute (s, &ord, &st); mc_ops (1);
  if (o != 0) mc_fail ("ordering fails");
  else if (mc_errnbr) mc_fail ("error message although the call succeeds");
  else if (SCOTCH_meshOrderCheck (s, &ord) != 0) mc_fail ("the library's own check refuses the ordering");
  for (i = 0; i < n && ! mc_failed (); i ++) { Num p = pm[i] - b; if (p < 0 || p >= n || seen[p]) mc_fail ("direct permutation is not one: %s", arr_str (pm, n)); else seen[p] = 1; }
  for (i = 0; i < n && ! mc_failed (); i ++) if (pi[pm[i] - b] != i + b) mc_fail ("inverse permutation %s does not match direct permutation %s", arr_str (pi, n), arr_str (pm, n));
  if (! mc_failed () && (pm[n] != -99 || pi[n] != -99 || tr[n] != -99)) mc_fail ("result array overrun");
  if (! mc_failed () && (cb < 1 || cb > n)) mc_fail ("%d column blocks for %d nodes", (int) cb, n);
  if (! mc_failed () && (rg[0] != b || rg[cb] != n + b)) mc_fail ("block ranges %s do not span the nodes", arr_str (rg, n + 1));
  for (i = 0; i < cb && ! mc_failed (); i ++) if (rg[i + 1] <= rg[i]) mc_fail ("empty or decreasing block range %s", arr_str (rg, cb + 1)); else if (tr[i] != -1 && (tr[i] - b <= i || tr[i] - b >= cb)) mc_fail ("block %d has father %d (%d blocks)", i, (int) tr[i], (int) cb);
  if (! mc_failed ()) {
    for (i = 0; i < cb; i ++) for (j = rg[i] - b; j < rg[i + 1] - b; j ++) blk[pi[j] - b] = i;
    if (strstr (strats[k], "=b{strat") == NULL)
      for (i = 0; i < n && ! mc_failed (); i ++) for (j = 0; j < i; j ++) if (blk[i] != blk[j] && share (q, i, j)) {
        int x = blk[i] < blk[j] ? blk[i] : blk[j], y = blk[i] < blk[j] ? blk[j] : blk[i];
        while (x != -1 && x != y) x = (tr[x] == -1) ? -1 : tr[x] - b;
        if (x != y) { mc_fail ("nodes %d and %d share an element and lie in unrelated blocks: perm=%s rang=%s tree=%s", j, i, arr_str (pm, n), arr_str (rg, cb + 1), arr_str (tr, cb)); break; }
      }
  }
  if (! mc_failed ()) {                                       /* files */
    char *buf = NULL; size_t len = 0; FILE *f; int w; long x, y, z;
    for (w = 0; w < 3 && ! mc_failed (); w ++) {
      buf = NULL; f = open_memstream (&buf, &len); o = (w == 0) ? SCOTCH_meshOrderSave (s, &ord, f) : (w == 1) ? SCOTCH_meshOrderSaveMap (s, &ord, f) : SCOTCH_meshOrderSaveTree (s, &ord, f); fclose (f); mc_ops (1);
      if (o != 0) mc_fail ("ordering not saved (%d)", w);
      else {
        f = fmemopen (buf, len, "r");
        if (fscanf (f, "%ld", &z) != 1 || z != n) mc_fail ("ordering file %d has wrong size: %s", w, buf);
        memset (seen, 0, n);
        for (i = 0; i < n && ! mc_failed (); i ++) {
          if (fscanf (f, "%ld%ld", &x, &y) != 2) { mc_fail ("ordering file too short: %s", buf); break; }
          j = bname (q, x); if (j < 0 || seen[j]) { mc_fail ("unknown or repeated node %ld in ordering file %d: %s", x, w, buf); break; }
          seen[j] = 1;
          if (w == 0 && y != pm[j]) mc_fail ("ordering file gives %ld to node %d, permutation is %s", y, j, arr_str (pm, n));
          if (w == 1 && y != blk[j]) mc_fail ("block file gives %ld to node %d, block is %d", y, j, blk[j]);
          if (w == 2 && y != (tr[blk[j]] == -1 ? -1 : tr[blk[j]])) mc_fail ("tree file gives %ld to node %d, father is %d", y, j, (int) tr[blk[j]]);
        }
        fclose (f);
      }
      free (buf);
    }
  }
  if (! mc_failed ()) {                                       /* one-shot call, with result arrays omitted */
    Num *p2 = malloc ((n + 1) * sizeof (Num)), *r2 = malloc ((n + 1) * sizeof (Num)), *t2 = malloc ((n + 1) * sizeof (Num)), c2 = -1; int w;
    for (w = 0; w < 4 && ! mc_failed (); w ++) {
      SCOTCH_randomReset (); p2[0] = -5;
      o = SCOTCH_meshOrder (s, &st, w == 1 ? NULL : p2, NULL, w == 2 ? NULL : &c2, w & 1 ? r2 : NULL, w == 3 ? t2 : NULL); mc_ops (1);
      if (o != 0 || (w != 1 && memcmp (p2, pm, n * sizeof (Num))) || (w != 2 && c2 != cb) || ((w & 1) && memcmp (r2, rg, (cb + 1) * sizeof (Num))) || (w == 3 && memcmp (t2, tr, cb * sizeof (Num)))) mc_fail ("result differs when arrays are omitted (%d)", w);
    }
    free (p2); free (r2); free (t2);
  }
  if (cb > 1) mc_nontrivial ();
  h = mc_hash (q->hash, pm, n * sizeof (Num)); mc_state (cb > 0 ? mc_hash (h, rg, cb * sizeof (Num)) : h);
  SCOTCH_meshOrderExit (s, &ord);
out:
  SCOTCH_stratExit (&st); if (bound) { SCOTCH_meshExit (&mb); SCOTCH_contextExit (&c); }
  SCOTCH_meshExit (&me); if (! m_same (q)) mc_fail ("mesh modified");
  free (pm); free (pi); free (rg); free (tr); free (seen); free (blk);
}
static void graphs (M *q, int noco, int bound) {
  SCOTCH_Mesh me, mb, *s = &me; SCOTCH_Context c; SCOTCH_Graph g; GV v; char err[200]; int i, j, k, n = noco ? q->ne : q->nn, o;
  if (m_build (q, &me) != 0) { mc_fail ("mesh not built"); return; }
  if (bound) { SCOTCH_contextInit (&c); SCOTCH_meshInit (&mb); SCOTCH_contextThreadSpawn (&c, 1, NULL); if (SCOTCH_contextBindMesh (&c, &me, &mb) != 0) mc_fail ("mesh not bound"); s = &mb; }
  SCOTCH_graphInit (&g);
  o = noco ? SCOTCH_meshGraphDual (s, &g, noco) : SCOTCH_meshGraph (s, &g); mc_ops (1);
  if (o != 0) mc_fail ("graph not built");
  else if (mc_errnbr) mc_fail ("error message although the call succeeds");
  else if (gv_read (&v, &g, err, sizeof (err)) != 0) { mc_fail ("graph: %s", err); gv_exit (&v); }
  else {
    if (v.n != n || v.base != q->base || v.dup) mc_fail ("graph has %d vertices, base %d, multiple arcs: %d", v.n, (int) v.base, v.dup);
    else if (SCOTCH_graphCheck (&g) != 0) mc_fail ("graph fails check");
    for (i = 0; i < n && ! mc_failed (); i ++) {
      if (v.w[i] != (noco ? 1 : q->nw[i])) mc_fail ("vertex %d has load %d instead of %d", i, (int) v.w[i], (int) (noco ? 1 : q->nw[i]));
      for (j = 0; j < n && ! mc_failed (); j ++) if (i != j) {
        int want, sh = 0, di = 0, dj = 0, mn;
        if (noco) { for (k = 0; k < q->nn; k ++) { int a = q->inc[i * q->nn + k] != 0, b = q->inc[j * q->nn + k] != 0; di += a; dj += b; sh += a && b; } mn = di < dj ? di - 1 : dj - 1; if (noco < mn) mn = noco; want = sh >= 1 && sh >= mn; }
        else want = share (q, i, j);
        if (v.mult[i * n + j] != want) mc_fail ("edge (%d,%d) exists: %d instead of %d (shared %d, degrees %d %d)", i, j, v.mult[i * n + j], want, sh, di, dj);
        if (want && v.ew[i * n + j] != 1) mc_fail ("edge (%d,%d) has load %d", i, j, (int) v.ew[i * n + j]);
      }
    }
    mc_state (gv_hash (&v)); if (v.m) mc_nontrivial ();
    if (! mc_failed () && n <= 40) { Num p[64]; SCOTCH_Strat st; SCOTCH_stratInit (&st); if (SCOTCH_graphPart (&g, 2, &st, p) != 0) mc_fail ("graph cannot be partitioned"); SCOTCH_stratExit (&st); }
    gv_exit (&v);
  }
  SCOTCH_graphExit (&g); if (bound) { SCOTCH_meshExit (&mb); SCOTCH_contextExit (&c); }
  SCOTCH_meshExit (&me); if (! m_same (q)) mc_fail ("mesh modified");
}
static void each (M *q, int x, int step) {
  int k;
  if (sel == 9) { for (k = 0; k < SNBR; k ++) { if ((k + x) % step) continue; if (mc_case ("order %s strat=%s", q->desc, strats[k])) order (q, k, (x + k) % 5 == 4); } }
  else for (k = 0; k <= 4; k ++) if (mc_case ("%s %d of %s", k ? "dual graph" : "node graph", k, q->desc)) graphs (q, k, (x + k) % 5 == 4);
}
void mc_run (void) {
  int e, n, base, first, lay, i, x, t = mc_thorough; u64 m; M q;
  sel = atoi (getenv ("MC_SET"));
  for (e = 1; e <= (t ? 4 : 4); e ++) for (n = 1; n <= (t ? 5 : 4); n ++) {
    if (e * n > (t ? 16 : 12)) continue;
    for (m = 0; m < (1ULL << (e * n)); m ++) for (base = 0; base < 2; base ++) for (first = 0; first < 2; first ++) for (lay = 0; lay < LAY_NBR; lay ++) {
      x = (int) m + base + first * 3 + lay * 5;
      if (e * n > 6 && x % (e * n > 12 ? 61 : e * n > 9 ? (t ? 5 : 17) : (t ? 1 : 3))) continue;
      m_make (&q, e, n, m, base, first, lay, x % 3 == 1, x % 2 + (x % 4 == 3), 0); each (&q, x / 2, sel == 9 ? (e * n > 6 ? 5 : 2) : 1); m_exit (&q);
    }
  }
  for (i = 0; ; i ++) for (x = 0; x < 8; x ++) {
    if (! m_family (&q, i, x % 2, (x / 2) % 2, x % LAY_NBR, (x / 3) % 2, (x / 4) % 2, 0)) return;
    each (&q, x + i, t ? 1 : 4); m_exit (&q);
  }
}
