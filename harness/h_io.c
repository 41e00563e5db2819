/* Graph and mesh files: save, independent reading of the file, load under every option, compare. Set 2: graphs; set 3: meshes. */
#include "gspace.h"

static char err[500];
static char *slurp (int (*fn) (void *, FILE *), void *o, size_t *len) { char *b = NULL; FILE *f = open_memstream (&b, len); int r = fn (o, f); fclose (f); if (r != 0) { free (b); return NULL; } return b; }

/* independent reader of the graph format: fills weights, labels, adjacency */
typedef struct { long n, m, base; int pl, pe, pv; long lbl[300], w[300], *ew; int *ad; long deg[300]; } RF;
static int rf_read (RF *r, const char *b) {
  char *p = (char *) b; long v, f; int i, k, j; long *nb; int *idx;
#define NX (strtol (p, &p, 10))
  v = NX; if (v != 0) return 1;
  r->n = NX; r->m = NX; r->base = NX; f = NX; r->pl = f / 100; r->pe = (f / 10) % 10; r->pv = f % 10;
  if (r->n < 0 || r->n > 290) return 1;
  r->ew = calloc (r->n * r->n + 1, sizeof (long)); r->ad = calloc (r->n * r->n + 1, sizeof (int));
  nb = calloc (2 * r->m + 1, sizeof (long)); idx = calloc (r->n + 1, sizeof (int));
  for (i = k = 0; i < r->n; i ++) {
    r->lbl[i] = r->pl ? NX : r->base + i; r->w[i] = r->pv ? NX : 1; r->deg[i] = NX; idx[i] = k;
    if (k + r->deg[i] > r->m) { free (nb); free (idx); return 1; }
    for (j = 0; j < r->deg[i]; j ++) { nb[2 * k] = r->pe ? NX : 1; nb[2 * k + 1] = NX; k ++; }
  }
  while (*p == ' ' || *p == '\n' || *p == '\t') p ++;
  if (k != r->m || *p) { free (nb); free (idx); return 1; }
  for (i = 0; i < r->n; i ++) for (j = 0; j < r->deg[i]; j ++) { int t; for (t = 0; t < r->n && r->lbl[t] != nb[2 * (idx[i] + j) + 1]; t ++) ; if (t == r->n) { free (nb); free (idx); return 1; } r->ad[i * r->n + t] ++; r->ew[i * r->n + t] = nb[2 * (idx[i] + j)]; }
  free (nb); free (idx);
  return 0;
}
static void rf_exit (RF *r) { free (r->ew); free (r->ad); }

static void cmp (const G *g, GV *v, Num base, int novl, int noel, const char *what) {
  int i, j, n = g->n;
  if (v->n != n || v->m != g->m || v->base != base) { mc_fail ("%s: %d vertices, %d arcs, base %d instead of %d, %d, %d", what, v->n, (int) v->m, (int) v->base, n, (int) g->m, (int) base); return; }
  for (i = 0; i < n; i ++) {
    if (v->w[i] != (novl ? 1 : g->w[i])) { mc_fail ("%s: vertex %d has load %d", what, i, (int) v->w[i]); return; }
    if (g->vlbl != NULL && v->haslbl && v->lbl[i] != g->vlbl[i]) { mc_fail ("%s: vertex %d has label %d", what, i, (int) v->lbl[i]); return; }
    for (j = 0; j < n; j ++) { Num e = g->ew[(size_t) i * n + j]; if ((v->mult[(size_t) i * n + j] != 0) != (e != 0)) { mc_fail ("%s: edge %d-%d differs", what, i, j); return; }
      if (e != 0 && v->ew[(size_t) i * n + j] != (noel ? 1 : e)) { mc_fail ("%s: edge %d-%d has load %d instead of %d", what, i, j, (int) v->ew[(size_t) i * n + j], (int) e); return; } }
  }
  if ((g->vlbl != NULL) != (v->haslbl != 0)) mc_fail ("%s: labels lost or invented", what);
  if (v->hasvelo && novl) mc_fail ("%s: vertex loads kept", what);
  if (v->hasedlo && noel) mc_fail ("%s: edge loads kept", what);
}
static int gsave (void *o, FILE *f) { return SCOTCH_graphSave (o, f); }

static void graphcase (G *g) {
  SCOTCH_Graph gr, g2; size_t len; char *b, *b2; RF r; GV v; int i, j, n = g->n, bs, fl; FILE *f; static const int bases[] = { -1, 0, 1, 7 };
  g_build (g, &gr);
  b = slurp (gsave, &gr, &len); mc_ops (1);
  if (b == NULL) { mc_fail ("graph not saved"); SCOTCH_graphExit (&gr); return; }
  if (rf_read (&r, b) != 0) mc_fail ("saved file is malformed: %s", b);
  else {
    if (r.n != n || r.m != g->m || r.base != g->base || (r.pl != 0) != (g->vlbl != NULL) || (r.pe != 0) != (g->edlo != NULL) || (r.pv != 0) != (g->velo != NULL)) mc_fail ("wrong header in saved file: %s", b);
    for (i = 0; i < n && ! mc_failed (); i ++) {
      if (r.w[i] != g->w[i] || r.lbl[i] != (g->vlbl ? g->vlbl[i] : i + g->base)) mc_fail ("wrong vertex line %d in saved file: %s", i, b);
      for (j = 0; j < n; j ++) if ((r.ad[i * n + j] != 0) != (g->ew[(size_t) i * n + j] != 0) || r.ad[i * n + j] > 1 || (r.ad[i * n + j] && r.ew[i * n + j] != (g->edlo ? g->ew[(size_t) i * n + j] : 1))) { mc_fail ("edge %d-%d wrong in saved file: %s", i, j, b); break; }
    }
    rf_exit (&r);
  }
  for (bs = 0; bs < 4; bs ++) for (fl = 0; fl < 4 && ! mc_failed (); fl ++) {
    f = fmemopen (b, len, "r"); SCOTCH_graphInit (&g2); mc_ops (1);
    if (SCOTCH_graphLoad (&g2, f, bases[bs], fl) != 0) mc_fail ("saved graph does not load with base=%d flags=%d: %s", bases[bs], fl, b);
    else {
      Num base = bases[bs] == -1 ? g->base : bases[bs];
      if (gv_read (&v, &g2, err, sizeof (err)) != 0) mc_fail ("loaded graph is inconsistent: %s", err);
      else {
        cmp (g, &v, base, fl & 1, fl & 2, "loaded graph");
        if (SCOTCH_graphCheck (&g2) != 0) mc_fail ("loaded graph does not pass the check");
        mc_state (gv_hash (&v)); if (v.m > 0) mc_nontrivial ();
      }
      gv_exit (&v);
      if (fl == 0 && ! mc_failed ()) {                     /* changing the base in memory, and saving again */
        Num nb = (base == 3) ? 0 : 3, ob;
        ob = SCOTCH_graphBase (&g2, nb); mc_ops (2);
        if (ob != base) mc_fail ("base change returns %d instead of old base %d", (int) ob, (int) base);
        else if (gv_read (&v, &g2, err, sizeof (err)) != 0) mc_fail ("rebased graph is inconsistent: %s", err);
        else { cmp (g, &v, nb, 0, 0, "rebased graph"); }
        gv_exit (&v);
        if (SCOTCH_graphBase (&g2, g->base) != nb) mc_fail ("base change back returns wrong base");
        b2 = slurp (gsave, &g2, &len); 
        if (b2 == NULL || (g->m > 0 && strcmp (b2, b))) mc_fail ("second save differs: %s / %s", b, b2 ? b2 : "(none)");
        free (b2); len = strlen (b);
      }
    }
    SCOTCH_graphExit (&g2); fclose (f);
  }
  if (! mc_failed ()) {                                    /* changing the base of the caller's own graph, up and down, and back */
    static const int nb[] = { 0, 4, 1, 9 }; Num old = g->base;
    for (i = 0; i <= 4 && ! mc_failed (); i ++) {
      Num t = i < 4 ? nb[i] : g->base, o = SCOTCH_graphBase (&gr, t); mc_ops (1);
      if (o != old) mc_fail ("base change returns %d instead of old base %d", (int) o, (int) old);
      else if (gv_read (&v, &gr, err, sizeof (err)) != 0) mc_fail ("graph rebased to %d is inconsistent: %s", (int) t, err);
      else cmp (g, &v, t, 0, 0, "rebased graph");
      gv_exit (&v); old = t;
    }
  }
  SCOTCH_graphExit (&gr); free (b);
  if (! g_same (g)) mc_fail ("the caller's graph arrays were modified");
}

static int msave (void *o, FILE *f) { return SCOTCH_meshSave (o, f); }
static void mcmp (const M *q, SCOTCH_Mesh *me, Num base, const char *what) {
  Num eb, nb, ne, nn, m, dg, *vert, *vend, *velo, *vnlo, *vlbl, *edge, k; int i, j, isel, n, dmax = 0; unsigned char *inc;
  SCOTCH_meshData (me, &eb, &nb, &ne, &nn, &vert, &vend, &velo, &vnlo, &vlbl, &m, &edge, &dg);
  if (ne != q->ne || nn != q->nn || m != q->m || eb != q->velmbas - q->base + base || nb != q->vnodbas - q->base + base) { mc_fail ("%s: sizes %d %d %d bases %d %d differ", what, (int) ne, (int) nn, (int) m, (int) eb, (int) nb); return; }
  for (isel = 0; isel < 2; isel ++) {
    int lim = isel ? ne : nn, oth = isel ? nn : ne; Num b = isel ? eb : nb, ob = isel ? nb : eb;
    for (i = 0; i < lim; i ++) {
      Num v = b + i - base, s = vert[v], e = vend ? vend[v] : vert[v + 1]; int deg = 0;
      inc = calloc (oth + 1, 1);
      if (s < base || e < s) { mc_fail ("%s: bad arc range", what); free (inc); return; }
      for (k = s; k < e; k ++) { Num t = edge[k - base] - ob; if (t < 0 || t >= oth) { mc_fail ("%s: arc end %d out of range", what, (int) edge[k - base]); free (inc); return; } inc[t] ++; }
      for (j = 0; j < oth; j ++) { int r = isel ? q->inc[i * q->nn + j] : q->inc[j * q->nn + i]; deg += r; if (inc[j] != r) { mc_fail ("%s: incidence of %s %d with %d is %d instead of %d", what, isel ? "element" : "node", i, j, inc[j], r); free (inc); return; } }
      free (inc); if (deg > dmax) dmax = deg;
      { Num w = isel ? (velo ? velo[i] : 1) : (vnlo ? vnlo[i] : 1), x = isel ? q->ew[i] : q->nw[i]; if (w != x) { mc_fail ("%s: load of %s %d is %d instead of %d", what, isel ? "element" : "node", i, (int) w, (int) x); return; } }
    }
  }
  if (dg != dmax) mc_fail ("%s: maximum degree %d instead of %d", what, (int) dg, dmax);
}
static void meshcase (M *q) {
  SCOTCH_Mesh me, m2; size_t len; char *b, *b2; FILE *f; int bs; static const int bases[] = { -1, 0, 1 };
  m_build (q, &me); b = slurp (msave, &me, &len); mc_ops (1);
  if (b == NULL) { mc_fail ("mesh not saved"); SCOTCH_meshExit (&me); return; }
  mcmp (q, &me, q->base, "built mesh");
  {                                                         /* independent reading of the file */
    char *p = b; long a[8]; int i, j, t, k;
    for (i = 0; i < 7; i ++) a[i] = strtol (p, &p, 10);
    if (a[0] != 1 || a[1] != q->ne || a[2] != q->nn || a[3] != q->m || a[4] != q->velmbas || a[5] != q->vnodbas || a[6] != ((q->velo || q->vnlo) ? 1 : 0)) mc_fail ("wrong header in saved file: %s", b);
    else for (t = 0; t < 2 && ! mc_failed (); t ++) {
      int isel = (t == 0) == (q->first == 0), lim = isel ? q->ne : q->nn, oth = isel ? q->nn : q->ne;
      for (i = 0; i < lim && ! mc_failed (); i ++) {
        long w = (a[6] ? strtol (p, &p, 10) : 1), d = strtol (p, &p, 10); unsigned char *inc = calloc (oth + 1, 1);
        if (w != (isel ? q->ew[i] : q->nw[i])) mc_fail ("saved file gives load %ld to %s %d: %s", w, isel ? "element" : "node", i, b);
        for (k = 0; k < d; k ++) { long e = strtol (p, &p, 10) - q->base; if (e < 0 || e >= oth) { mc_fail ("saved file has arc end out of range: %s", b); break; } inc[e] ++; }
        for (j = 0; j < oth && ! mc_failed (); j ++) if (inc[j] != (isel ? q->inc[i * q->nn + j] : q->inc[j * q->nn + i])) mc_fail ("saved file has wrong incidence for %s %d: %s", isel ? "element" : "node", i, b);
        free (inc);
      }
    }
  }
  for (bs = 0; bs < 3 && ! mc_failed (); bs ++) {
    f = fmemopen (b, len, "r"); SCOTCH_meshInit (&m2); mc_ops (1);
    if (SCOTCH_meshLoad (&m2, f, bases[bs]) != 0) mc_fail ("saved mesh does not load with base=%d: %s", bases[bs], b);
    else {
      mcmp (q, &m2, bases[bs] == -1 ? q->base : bases[bs], "loaded mesh");
      if (SCOTCH_meshCheck (&m2) != 0) mc_fail ("loaded mesh does not pass the check");
      mc_state (mc_hash (q->hash, &bs, sizeof (int))); if (q->m > 0) mc_nontrivial ();
      if (bs == 0 && ! mc_failed ()) { size_t l2; b2 = slurp (msave, &m2, &l2); if (b2 == NULL || strcmp (b2, b)) mc_fail ("second save differs: %s / %s", b, b2 ? b2 : "(none)"); free (b2); }
    }
    SCOTCH_meshExit (&m2); fclose (f);
  }
  SCOTCH_meshExit (&me); free (b);
  if (! m_same (q)) mc_fail ("the caller's mesh arrays were modified");
}

void mc_run (void) {
  int set = atoi (getenv ("MC_SET")); Shape s; G g; M q; int n, i, b, c, lay, vk, ek, lk; u64 m;
  sh_init (&s);
  if (set == 2) {
    for (n = 1; n <= 5; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (b = 0; b < 3; b ++) for (c = 0; c < LAY_NBR * 27; c ++) {
      if (n == 5 && ! mc_thorough && (c + m) % 27 != 0) continue;
      if (mc_skip ()) continue;
      lay = c % LAY_NBR; vk = (c / LAY_NBR) % 3; ek = (c / LAY_NBR / 3) % 3; lk = c / LAY_NBR / 9;
      sh_mask (&s, n, m); g_make (&g, &s, b == 2 ? 5 : b, lay, vk, ek, lk);
      if (mc_case ("save/load %s", g.desc)) graphcase (&g);
      g_exit (&g);
    }
    for (c = 0; c < 2; c ++) for (i = 0; sh_family (&s, i, c); i ++) for (b = 0; b < 16; b ++) {
      if (mc_skip ()) continue;
      g_make (&g, &s, b & 1, b & 3, (b >> 1) % 3, (b >> 2) % 3, b % 3);
      if (g.n < 280 && mc_case ("save/load %s", g.desc)) graphcase (&g);
      g_exit (&g);
    }
  }
  if (set == 3) {
    int ne, nn;
    for (ne = 1; ne <= 3; ne ++) for (nn = 1; nn <= 3 + mc_thorough; nn ++) for (m = 0; m < (1ULL << (ne * nn)); m ++) for (c = 0; c < 2 * 2 * LAY_NBR * 4; c ++) {
      if (mc_skip ()) continue;
      m_make (&q, ne, nn, m, (c / 2) % 2, c & 1, (c / 4) % LAY_NBR, (c / 16) & 1, (c / 32), 0);
      if (mc_case ("save/load %s", q.desc)) meshcase (&q);
      m_exit (&q);
    }
    for (i = 0; i < 24; i ++) for (c = 0; c < 32; c ++) {
      if (mc_skip ()) continue;
      m_family (&q, i, c & 1, (c >> 1) & 1, (c >> 1) & 3, (c >> 3) & 1, (c >> 4) & 1, 0);
      if (mc_case ("save/load %s", q.desc)) meshcase (&q);
      m_exit (&q);
    }
  }
  sh_exit (&s);
}
