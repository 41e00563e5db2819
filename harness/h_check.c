/* Graph and mesh consistency checkers accept exactly the consistent structures; the structure given is the structure read back. */
#include "gspace.h"
#define BIG 64

static int oracle (Num base, int n, const Num *vert, const Num *vend, const Num *velo, Num m, const Num *edge, const Num *edlo) {
  Num arcs = 0, k, l; int i, j, c;
  if (n < 0 || m < 0 || (m & 1)) return 0;
  for (i = 0; i < n; i ++) { if (vert[i] < base || vend[i] < vert[i]) return 0; arcs += vend[i] - vert[i]; if (velo && velo[i] < 0) return 0; }
  if (arcs != m) return 0;
  for (i = 0; i < n; i ++) for (k = vert[i]; k < vend[i]; k ++) {
    j = edge[k - base] - base;
    if (j < 0 || j >= n || j == i) return 0;
    for (c = 0, l = vert[i]; l < vend[i]; l ++) if (edge[l - base] - base == j) c ++;
    if (c != 1) return 0;
    for (c = 0, l = vert[j]; l < vend[j]; l ++) if (edge[l - base] - base == i) { c ++; if (edlo && edlo[l - base] != edlo[k - base]) return 0; }
    if (c != 1) return 0;
    if (edlo && edlo[k - base] < 0) return 0;
  }
  return 1;
}
static int naccept, nreject;
static void one (Num base, int n, Num *vert, Num *vend, Num *velo, Num m, Num *edge, Num *edlo) {
  SCOTCH_Graph g; int want, got; u64 h;
  want = oracle (base, n, vert, vend ? vend : vert + 1, velo, m, edge, edlo);
  SCOTCH_graphInit (&g);
  if (SCOTCH_graphBuild (&g, base, n, vert, vend, velo, NULL, m, edge, edlo) != 0) {
    if (want) mc_fail ("consistent arrays refused by build: vert=%s edge=%s m=%d", arr_str (vert, n + 1), arr_str (edge, 8), (int) m);
    SCOTCH_graphExit (&g); return;
  }
  got = (SCOTCH_graphCheck (&g) == 0);
  mc_ops (2);
  if (want) naccept ++; else nreject ++;
  if (got != want) mc_fail ("checker says %s but arrays are %s: base=%d n=%d m=%d vert=%s vend=%s velo=%s edge=%s edlo=%s", got ? "consistent" : "inconsistent", want ? "consistent" : "inconsistent",
    (int) base, n, (int) m, arr_str (vert, n + 1), vend ? arr_str (vend, n) : "-", velo ? arr_str (velo, n) : "-", arr_str (edge, 8), edlo ? arr_str (edlo, 8) : "-");
  if (want) {
    Num b2, n2, m2, *p1, *p2, *p3, *p4, *p5, *p6;
    SCOTCH_graphData (&g, &b2, &n2, &p1, &p2, &p3, &p4, &m2, &p5, &p6);
    if (b2 != base || n2 != n || m2 != m || p1 != vert || p2 != (vend ? vend : vert + 1) || p3 != velo || p4 != NULL || p5 != edge || p6 != edlo) mc_fail ("graph data read back differ from data given");
    SCOTCH_graphSize (&g, &n2, &m2);
    if (n2 != n || m2 != m) mc_fail ("graph size read back differs");
    mc_ops (2);
  }
  h = mc_hashi (base * 1000 + n, m); h = mc_hash (h, vert, (n + (vend ? 0 : 1)) * sizeof (Num)); if (vend) h = mc_hash (h, vend, n * sizeof (Num)); h = mc_hash (h, edge, 6 * sizeof (Num));
  if (velo) h = mc_hash (h, velo, n * sizeof (Num)); if (edlo) h = mc_hash (h, edlo, 6 * sizeof (Num));
  mc_state (h);
  SCOTCH_graphExit (&g);
}
/* rebase: same abstract graph, values shifted */
static void rebase (G *g) {
  SCOTCH_Graph gr; GV a, b; char err[200]; Num ob; int nb, i;
  g_build (g, &gr);
  if (gv_read (&a, &gr, err, sizeof (err))) { mc_fail ("read back: %s", err); return; }
  for (nb = 0; nb <= 2; nb ++) {
    ob = SCOTCH_graphBase (&gr, nb);
    if (ob != (nb == 0 ? g->base : nb - 1)) mc_fail ("base change returned %d", (int) ob);
    if (SCOTCH_graphCheck (&gr) != 0) mc_fail ("graph inconsistent after base change to %d", nb);
    else {
      if (gv_read (&b, &gr, err, sizeof (err))) mc_fail ("after base change: %s", err);
      else if (b.base != nb || a.n != b.n || a.m != b.m || memcmp (a.w, b.w, a.n * sizeof (Num)) || memcmp (a.ew, b.ew, (size_t) a.n * a.n * sizeof (Num))) mc_fail ("base change to %d altered the graph", nb);
      else if (g->vlbl) { Num d = 0; for (i = 0; i < a.n; i ++) if (b.lbl[i] - a.lbl[i] != b.lbl[0] - a.lbl[0]) d = 1; if (d) mc_fail ("base change altered labels"); }
      mc_state (gv_hash (&b));
      gv_exit (&b);
    }
    mc_ops (3);
  }
  SCOTCH_graphBase (&gr, g->base);
  if (! g_same (g)) mc_fail ("base change round trip does not restore the arrays");
  gv_exit (&a);
  SCOTCH_graphExit (&gr);
}

static void mutate (G *g) {                              /* all single-entry changes of a valid structure */
  int n = g->n, i, d; Num *arrs[4]; int len[4], a, k, v; Num *vend, *edge, *edlo, *vert; char nm[] = "VEWL";
  vert = malloc ((n + 1) * sizeof (Num)); vend = g->vend ? malloc (n * sizeof (Num)) : NULL;
  edge = (Num *) malloc ((BIG + 8) * sizeof (Num)) + 8; edlo = g->edlo ? (Num *) malloc ((BIG + 8) * sizeof (Num)) + 8 : NULL;
  Num *velo = g->velo ? malloc (n * sizeof (Num)) : NULL;
  (void) nm; (void) i; (void) d;
  for (a = 0; a < 5; a ++) {
    int L = (a == 0) ? n + (g->vend ? 0 : 1) : (a == 1) ? (g->vend ? n : 0) : (a == 2) ? g->edgesiz : (a == 3) ? (g->velo ? n : 0) : (g->edlo ? g->edgesiz : 0);
    for (k = 0; k < L; k ++) for (v = -2; v <= n + 3; v ++) {
      Num *p;
      memcpy (vert, g->vert, (n + (g->vend ? 0 : 1)) * sizeof (Num)); if (vend) memcpy (vend, g->vend, n * sizeof (Num));
      for (i = -8; i < BIG; i ++) { edge[i] = -777; if (edlo) edlo[i] = -5; }
      memcpy (edge, g->edge, g->edgesiz * sizeof (Num)); if (edlo) memcpy (edlo, g->edlo, g->edgesiz * sizeof (Num));
      if (velo) memcpy (velo, g->velo, n * sizeof (Num));
      p = (a == 0) ? vert : (a == 1) ? vend : (a == 2) ? edge : (a == 3) ? velo : edlo;
      if (a == 4 && v <= 0) p[k] = -1; else p[k] = v;
      one (g->base, n, vert, vend, velo, g->m, edge, edlo);
      if (mc_failed ()) goto out;
    }
  }
  for (v = -2; v <= 3; v ++) {                           /* wrong arc numbers */
    memcpy (vert, g->vert, (n + (g->vend ? 0 : 1)) * sizeof (Num)); if (vend) memcpy (vend, g->vend, n * sizeof (Num));
    for (i = -8; i < BIG; i ++) { edge[i] = -777; if (edlo) edlo[i] = -5; }
    memcpy (edge, g->edge, g->edgesiz * sizeof (Num)); if (edlo) memcpy (edlo, g->edlo, g->edgesiz * sizeof (Num));
    if (velo) memcpy (velo, g->velo, n * sizeof (Num));
    one (g->base, n, vert, vend, velo, g->m + v, edge, edlo);
  }
  for (k = 0; k + 1 < g->edgesiz; k ++) for (i = k + 1; i < g->edgesiz; i ++) {   /* swaps of arc ends */
    memcpy (vert, g->vert, (n + (g->vend ? 0 : 1)) * sizeof (Num)); if (vend) memcpy (vend, g->vend, n * sizeof (Num));
    for (v = -8; v < BIG; v ++) { edge[v] = -777; if (edlo) edlo[v] = -5; }
    memcpy (edge, g->edge, g->edgesiz * sizeof (Num)); if (edlo) memcpy (edlo, g->edlo, g->edgesiz * sizeof (Num));
    if (velo) memcpy (velo, g->velo, n * sizeof (Num));
    Num t = edge[k]; edge[k] = edge[i]; edge[i] = t;
    one (g->base, n, vert, vend, velo, g->m, edge, edlo);
  }
out:
  free (vert); free (vend); free (edge - 8); if (edlo) free (edlo - 8); free (velo);
  (void) arrs; (void) len;
}

/* ---- meshes ---- */
static int moracle (const M *q, const Num *vert, const Num *vend, const Num *edge, const Num *velo, const Num *vnlo) {
  int n = q->ne + q->nn, i, j, c; Num k, l, base = q->base;
  for (i = 0; i < n; i ++) if (vert[i] < base || vend[i] < vert[i]) return 0;
  for (i = 0; i < n; i ++) {
    int iel = (i + base >= q->velmbas && i + base < q->velmbas + q->ne);
    for (k = vert[i]; k < vend[i]; k ++) {
      j = edge[k - base] - base;
      if (j < 0 || j >= n) return 0;
      if (iel == (j + base >= q->velmbas && j + base < q->velmbas + q->ne)) return 0;
      for (c = 0, l = vert[j]; l < vend[j]; l ++) if (edge[l - base] - base == i) c ++;
      if (c != 1) return 0;
    }
  }
  if (velo) for (i = 0; i < q->ne; i ++) if (velo[i] < 1) return 0;
  if (vnlo) for (i = 0; i < q->nn; i ++) if (vnlo[i] < 1) return 0;
  return 1;
}
static void mone (const M *q, Num *vert, Num *vend, Num *edge, Num *velo, Num *vnlo) {
  SCOTCH_Mesh me; int want, got; Num arcs = 0, *ve = vend ? vend : vert + 1; int i;
  want = moracle (q, vert, ve, edge, velo, vnlo);
  for (i = 0; i < q->ne + q->nn; i ++) arcs += ve[i] - vert[i];
  SCOTCH_meshInit (&me);
  got = (SCOTCH_meshBuild (&me, q->velmbas, q->vnodbas, q->ne, q->nn, vert, vend, velo, vnlo, NULL, arcs, edge) == 0);
  if (got) got = (SCOTCH_meshCheck (&me) == 0);
  mc_ops (2);
  if (want) naccept ++; else nreject ++;
  if (got != want) mc_fail ("mesh checker says %s but arrays are %s: vert=%s edge=%s", got ? "consistent" : "inconsistent", want ? "consistent" : "inconsistent", arr_str (vert, q->ne + q->nn + 1), arr_str (edge, 12));
  if (got) {
    Num a, b, c, d, e, f, *p1, *p2, *p3, *p4, *p5, *p6; int deg = 0;
    for (i = 0; i < q->ne + q->nn; i ++) if (ve[i] - vert[i] > deg) deg = ve[i] - vert[i];
    SCOTCH_meshData (&me, &a, &b, &c, &d, &p1, &p2, &p3, &p4, &p5, &e, &p6, &f);
    if (a != q->velmbas || b != q->vnodbas || c != q->ne || d != q->nn || p1 != vert || p2 != ve || p3 != velo || p4 != vnlo || p5 != NULL || e != arcs || p6 != edge || f != deg) mc_fail ("mesh data read back differ: bases %d %d sizes %d %d arcs %d degree %d (expected %d)", (int) a, (int) b, (int) c, (int) d, (int) e, (int) f, deg);
    SCOTCH_meshSize (&me, &a, &b, &c);
    if (a != q->ne || b != q->nn || c != arcs) mc_fail ("mesh size read back differs");
    mc_ops (2);
  }
  { u64 h = mc_hash (q->base * 2 + q->first, vert, (q->ne + q->nn) * sizeof (Num)); h = mc_hash (h, edge, 8 * sizeof (Num)); mc_state (h); }
  SCOTCH_meshExit (&me);
}
static void mmutate (M *q) {
  int n = q->ne + q->nn, a, k, v, i; Num *vert = malloc ((n + 1) * sizeof (Num)), *vend = q->vend ? malloc (n * sizeof (Num)) : NULL, *edge = (Num *) malloc ((BIG + 8) * sizeof (Num)) + 8;
  Num *velo = q->velo ? malloc (q->ne * sizeof (Num) + 1) : NULL, *vnlo = q->vnlo ? malloc (q->nn * sizeof (Num) + 1) : NULL;
  for (a = -1; a < 5; a ++) {
    int L = (a < 0) ? 1 : (a == 0) ? n + (q->vend ? 0 : 1) : (a == 1) ? (q->vend ? n : 0) : (a == 2) ? q->edgesiz : (a == 3) ? (q->velo ? q->ne : 0) : (q->vnlo ? q->nn : 0);
    for (k = 0; k < L; k ++) for (v = -1; v <= n + 2; v ++) {
      memcpy (vert, q->vert, (n + (q->vend ? 0 : 1)) * sizeof (Num)); if (vend) memcpy (vend, q->vend, n * sizeof (Num));
      for (i = -8; i < BIG; i ++) edge[i] = -777;
      memcpy (edge, q->edge, q->edgesiz * sizeof (Num)); if (velo) memcpy (velo, q->velo, q->ne * sizeof (Num)); if (vnlo) memcpy (vnlo, q->vnlo, q->nn * sizeof (Num));
      if (a >= 0) ((a == 0) ? vert : (a == 1) ? vend : (a == 2) ? edge : (a == 3) ? velo : vnlo)[k] = v;
      mone (q, vert, vend, edge, velo, vnlo);
      if (mc_failed ()) goto out;
      if (a < 0) break;
    }
  }
out: free (vert); free (vend); free (edge - 8); free (velo); free (vnlo);
}

void mc_run (void) {
  int n, base, a, b, c, k, lay, i; Shape s; sh_init (&s);
  /* 1. every array content over small domains: compact and explicit-end representations of 1..3 vertices */
  for (n = 1; n <= 3; n ++) for (base = 0; base <= 1; base ++) for (lay = 0; lay <= 1; lay ++) {
    int nv = lay ? 2 * n : n + 1, lim = (n == 3) ? 3 : 4, dv = lim + 2, ne = (n == 3) ? 4 : 4, x, tot, etot, y; Num vert[8], vend[8], edgebuf[BIG + 8], *edge = edgebuf + 8, vv[8];
    for (x = 0, tot = 1; x < nv; x ++) tot *= dv;
    for (x = 0, etot = 1; x < ne; x ++) etot *= (n + 2);
    if (lay && n == 3 && ! mc_thorough) continue;
    for (x = 0; x < tot; x ++) {
      int valid = 1;
      for (i = 0, y = x; i < nv; i ++, y /= dv) vv[i] = base - 1 + y % dv;
      if (! mc_case ("raw n=%d base=%d explicitend=%d vertex arrays=%s all edge arrays of %d entries", n, base, lay, arr_str (vv, nv), ne)) continue;
      for (i = 0; i < n; i ++) { vert[i] = vv[i]; vend[i] = lay ? vv[n + i] : vv[i + 1]; if (vert[i] < base || vend[i] < vert[i]) valid = 0; }
      vert[n] = vv[n]; if (valid) mc_nontrivial ();
      for (y = 0; y < (valid ? etot : 1); y ++) {
        int z = y; Num arcs = 0, mm;
        for (i = -8; i < BIG; i ++) edge[i] = -999;
        for (i = 0; i < ne; i ++, z /= (n + 2)) edge[i] = base - 1 + z % (n + 2);
        for (i = 0; i < n; i ++) arcs += vend[i] - vert[i];
        if (arcs < 0 || arcs > 40) arcs = 2;
        for (mm = arcs; mm <= arcs + ((y == 0) ? 2 : 0); mm ++) { Num *pv = malloc ((n + 1) * sizeof (Num)); memcpy (pv, vert, (n + 1) * sizeof (Num)); one (base, n, pv, lay ? vend : NULL, NULL, mm, edge, NULL); free (pv); }
      }
    }
  }
  /* 2. every single-entry change of every graph of up to 4 (5) vertices */
  for (n = 1; n <= (mc_thorough ? 5 : 4); n ++) for (k = 0; k < (1 << sh_maskbits (n)); k ++) for (base = 0; base <= 2; base ++) for (lay = 0; lay < LAY_NBR; lay ++) for (c = 0; c < 4; c ++) {
    G g;
    if (mc_skip ()) continue;
    sh_mask (&s, n, k); g_make (&g, &s, base, lay, c & 1, (c >> 1) & 1, (c == 3) ? 1 : 0);
    if (mc_case ("graph %s single-entry changes and base changes", g.desc)) {
      if (s.m > 0) mc_nontrivial ();
      mutate (&g);
      if (base <= 1 && lay != LAY_GAPS) rebase (&g);
    }
    g_exit (&g);
  }
  /* 3. meshes */
  for (a = 1; a <= 3; a ++) for (b = 1; b <= (mc_thorough ? 4 : 3); b ++) for (k = 0; k < (1 << (a * b)); k ++) for (base = 0; base <= 1; base ++) for (i = 0; i < 2; i ++) for (lay = 0; lay < LAY_NBR; lay ++) for (c = 0; c < 2; c ++) {
    M q;
    if (mc_skip ()) continue;
    m_make (&q, a, b, k, base, i, lay, c, c, 0);
    if (mc_case ("%s single-entry changes", q.desc)) { if (k) mc_nontrivial (); mmutate (&q); }
    m_exit (&q);
  }
  /* 4. larger consistent graphs must be accepted */
  for (b = 0; b < 3; b ++) for (k = 0; sh_family (&s, k, b); k ++) for (lay = 0; lay < LAY_NBR; lay ++) for (base = 0; base <= 1; base ++) {
    G g; SCOTCH_Graph gr;
    if (mc_skip ()) continue;
    g_make (&g, &s, base, lay, lay & 1, (lay >> 1) & 1, 0);
    if (mc_case ("family graph %s accepted", g.desc)) {
      mc_nontrivial ();
      if (g_build (&g, &gr) != 0 || SCOTCH_graphCheck (&gr) != 0) mc_fail ("consistent graph refused");
      mc_ops (2); mc_state (g.hash);
      SCOTCH_graphExit (&gr);
    }
    g_exit (&g);
  }
  mc_note ("accepted", naccept); mc_note ("rejected", nreject);
  sh_exit (&s);
}
