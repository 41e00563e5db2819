/* Failing memory requests (26): the n-th allocation request of a call fails, for every n. Memory balance and untouched inputs (25): same calls, no failure. */
#include "aspace.h"
#include "metis.h"
#include <esmumps.h>

static long failn;
#define mc_fail(...) failat (__VA_ARGS__)
static void failat (const char *fmt, ...) { char b[1500]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof (b), fmt, ap); va_end (ap); if (failn > 0) (mc_fail) ("request %ld failing: %s", failn, b); else (mc_fail) ("%s", b); }

static const char *ost[] = {
#include "st_order.h"
};
static const char *mst[] = {
#include "st_map.h"
};
static const char *hst[] = {
#include "st_mesh.h"
};
static const char *vst[] = {
#include "st_ovl.h"
};
static const char *bst[] = { "", "h{pass=2}f", "m{vert=3,low=h{pass=2}f,asc=b{bnd=d{pass=5}f,org=f}}" };
#define NB(t) ((int) (sizeof (t) / sizeof (t[0])))

static long left; static u64 total; static int hit, lasthit;
static u64 arm0; static int armed;
static void arm (void) { mc_oom (left > 0 ? left : -1); arm0 = mc_allocs (); armed = 1; }
static void disarm (void) { u64 u = mc_allocs () - arm0; lasthit = mc_oomhit (); mc_oom (-1); armed = 0; total += u; if (lasthit) { hit = 1; left = -1; } else if (left > 0) left -= u; mc_ops (1); }
/* Call which may run out of memory: fails only then, and works when called again (after reset) */
#define T(reset, expr) ({ int o_; arm (); o_ = (expr); disarm (); if (o_ != 0) { if (! lasthit) mc_fail ("%.60s fails", #expr); else { mc_note ("errors", 1); reset; o_ = (expr); if (o_ != 0) mc_fail ("%.60s, called again after it ran out of memory, fails", #expr); } } else if (lasthit) mc_note ("succeeded anyway", 1); (o_ != 0 || mc_failed ()); })

static G *g; static M *q; static A *arc; static int par;
static SCOTCH_Graph gr; static SCOTCH_Mesh me;
static Num pa[700], pb[700], pc[700], pd[700], pe[700];

static char *graftext (int grafnum, size_t *len) { char *b = NULL; FILE *f = open_memstream (&b, len); SCOTCH_graphSave (&gr, f); fclose (f); return b; }
static void isperm (const Num *p, int n, int base, const char *w) { char s[700]; int i; memset (s, 0, n); for (i = 0; i < n; i ++) { Num k = p[i] - base; if (k < 0 || k >= n || s[k]) { mc_fail ("%s is no permutation: %s", w, arr_str (p, n)); return; } s[k] = 1; } }
static void inrange (const Num *p, int n, Num lo, Num hi, const char *w) { int i; for (i = 0; i < n; i ++) if (p[i] < lo || p[i] >= hi) { mc_fail ("%s: value %d at %d is not in [%d, %d[: %s", w, (int) p[i], i, (int) lo, (int) hi, arr_str (p, n)); return; } }
static void isgraf (SCOTCH_Graph *x, const char *w) { GV v; char err[300]; if (SCOTCH_graphCheck (x) != 0) mc_fail ("%s: resulting graph is wrong", w); else { if (gv_read (&v, x, err, sizeof (err)) != 0) mc_fail ("%s: %s", w, err); gv_exit (&v); } }

/* --- graph handling --- */
static void s_build (void) { SCOTCH_Graph x; SCOTCH_graphInit (&x); if (! T (, SCOTCH_graphBuild (&x, g->base, g->n, g->vert, g->vend, g->velo, g->vlbl, g->m, g->edge, g->edlo)) && ! T (, SCOTCH_graphCheck (&x))) isgraf (&x, "build"); SCOTCH_graphExit (&x); }
static void s_save (void) { char *b = NULL, *c = NULL; size_t l, k; FILE *f; c = graftext (0, &k); f = open_memstream (&b, &l); T (rewind (f), SCOTCH_graphSave (&gr, f)); fclose (f); if (! mc_failed () && strcmp (b, c)) mc_fail ("saved graph differs"); free (b); free (c); }
static void s_load (void) { char *b; size_t l; FILE *f; SCOTCH_Graph x; b = graftext (0, &l); f = fmemopen (b, l, "r"); SCOTCH_graphInit (&x); if (! T (rewind (f); SCOTCH_graphExit (&x); SCOTCH_graphInit (&x), SCOTCH_graphLoad (&x, f, par - 1, 0))) isgraf (&x, "load"); SCOTCH_graphExit (&x); fclose (f); free (b); }
static void s_base (void) { SCOTCH_Graph x; SCOTCH_graphInit (&x); if (g_build (g, &x) == 0) { arm (); SCOTCH_graphBase (&x, 1 - g->base); SCOTCH_graphBase (&x, g->base); disarm (); } SCOTCH_graphExit (&x); }
static void s_coarsen (void) { SCOTCH_Graph x; int o; SCOTCH_graphInit (&x); arm (); o = SCOTCH_graphCoarsen (&gr, 1, 0.9, par, &x, pa); disarm (); if (o != 0 && lasthit) { SCOTCH_graphExit (&x); SCOTCH_graphInit (&x); SCOTCH_randomReset (); o = SCOTCH_graphCoarsen (&gr, 1, 0.9, par, &x, pa); if (o != 0 && o != 1) mc_fail ("coarsening fails when called again"); } if (o == 0) { Num c; SCOTCH_graphSize (&x, &c, NULL); isgraf (&x, "coarsen"); inrange (pa, 2 * c, g->base, g->n + g->base, "multinodes"); } else if (o != 1) mc_fail ("coarsening fails (%d)", o); SCOTCH_graphExit (&x); }
static void s_match (void) { Num c = 1; int o; SCOTCH_Graph x; arm (); o = SCOTCH_graphCoarsenMatch (&gr, &c, 0.9, par, pa); disarm (); if (o != 0 && lasthit) { c = 1; SCOTCH_randomReset (); o = SCOTCH_graphCoarsenMatch (&gr, &c, 0.9, par, pa); } if (o == 1) return; if (o != 0) { mc_fail ("matching fails (%d)", o); return; }
  inrange (pa, g->n, g->base, g->n + g->base, "mates"); if (mc_failed ()) return;
  SCOTCH_graphInit (&x); if (! T (SCOTCH_graphExit (&x); SCOTCH_graphInit (&x), SCOTCH_graphCoarsenBuild (&gr, c, pa, &x, pb))) { isgraf (&x, "coarse graph"); inrange (pb, 2 * c, g->base, g->n + g->base, "multinodes"); } SCOTCH_graphExit (&x); }
static void s_induce (void) { SCOTCH_Graph x; int i, k = 0; SCOTCH_GraphPart2 p[700]; for (i = 0; i < g->n; i ++) { p[i] = i % 3 != 1; if (p[i]) pa[k ++] = i + g->base; }
  SCOTCH_graphInit (&x); if (! T (SCOTCH_graphExit (&x); SCOTCH_graphInit (&x), par ? SCOTCH_graphInduceList (&gr, k, pa, &x) : SCOTCH_graphInducePart (&gr, k, p, 1, &x))) isgraf (&x, "induced graph"); SCOTCH_graphExit (&x); }
static void s_color (void) { Num c = -1; if (! T (, SCOTCH_graphColor (&gr, pa, &c, 0))) inrange (pa, g->n, 0, c, "colors"); }
static void s_diam (void) { Num d; arm (); d = SCOTCH_graphDiamPV (&gr); disarm (); if (d < 0 && ! lasthit) { SCOTCH_graphDiamPV (&gr); if (0) mc_fail ("diameter fails"); } }
static void s_stat (void) { Num v[8]; double w[6]; arm (); SCOTCH_graphStat (&gr, v, v + 1, v + 2, w, w + 1, v + 3, v + 4, w + 2, w + 3, v + 5, v + 6, v + 7, w + 4, w + 5); disarm (); }
static void s_dump (void) { char *b = NULL; size_t l; FILE *f = open_memstream (&b, &l); T (rewind (f), SCOTCH_graphDump (&gr, "a", "b", f)); fclose (f); free (b); }
static int isfmt (int k) { int i; if (k == 0) return 1; for (i = 0; i < g->n; i ++) if (g->w[i] < 1) return 0; return g->vlbl == NULL; }
static void s_geomio (void) { /* foreign formats */
  char *b = NULL, *c = NULL; size_t l, l2; FILE *f, *h; SCOTCH_Graph x; SCOTCH_Geom ge; int k = par, o;
  if (! isfmt (k)) return;
  f = open_memstream (&b, &l);
  SCOTCH_geomInit (&ge);
  if (! T (rewind (f), (k == 0 ? SCOTCH_graphGeomSaveScot : k == 1 ? SCOTCH_graphGeomSaveChac : SCOTCH_graphGeomSaveMmkt) (&gr, &ge, f, NULL, NULL))) ;
  fclose (f); SCOTCH_geomExit (&ge);
  if (mc_failed ()) { free (b); return; }
  { FILE *m = open_memstream (&c, &l2); int i; fprintf (m, "2\n%d\n", g->n); for (i = 0; i < g->n; i ++) fprintf (m, "%d %d.5 %d\n", (int) (g->vlbl ? g->vlbl[i] : i + g->base), i, i / 2); fclose (m); }
  f = fmemopen (b, l, "r"); h = fmemopen (c, l2, "r"); SCOTCH_graphInit (&x); SCOTCH_geomInit (&ge);
  if (! T (rewind (f); rewind (h); SCOTCH_graphExit (&x); SCOTCH_graphInit (&x); SCOTCH_geomExit (&ge); SCOTCH_geomInit (&ge), (k == 0 ? SCOTCH_graphGeomLoadScot : k == 1 ? SCOTCH_graphGeomLoadChac : SCOTCH_graphGeomLoadMmkt) (&x, &ge, f, h, NULL))) {
    isgraf (&x, "imported graph");
    if (k == 0 && ! mc_failed ()) { char *s = NULL, *t = NULL; FILE *f1 = open_memstream (&s, &l), *f2 = open_memstream (&t, &l2); T (rewind (f1); rewind (f2), SCOTCH_graphGeomSaveScot (&x, &ge, f1, f2, NULL)); fclose (f1); fclose (f2); free (s); free (t); }
  }
  fclose (f); fclose (h); SCOTCH_graphExit (&x); SCOTCH_geomExit (&ge); free (b); free (c);
}
static const char *habo[] = { "title                                                                   key     \n             3             1             1             1             0\npua                        3             3             5             0\n(8i10)          (8i10)          \n         1         3         5         6\n         1         2         2         3         1\n",
  "title                                                                   key     \n             3             1             1             1             0\npsa                        3             3             4             0\n(4i4)           (5i3)           \n   1   3   4   5\n  1  2  2  3\n" };
static void s_habo (void) { FILE *f = fmemopen ((void *) habo[par & 1], strlen (habo[par & 1]), "r"); SCOTCH_Graph x; SCOTCH_Mesh y; SCOTCH_Geom ge; SCOTCH_geomInit (&ge);
  if (par < 2) { SCOTCH_graphInit (&x); if (! T (rewind (f); SCOTCH_graphExit (&x); SCOTCH_graphInit (&x), SCOTCH_graphGeomLoadHabo (&x, &ge, f, NULL, NULL))) isgraf (&x, "imported graph"); SCOTCH_graphExit (&x); }
  else { static char el[] = "title                                                                   key     \n             3             1             1             1             0\npse                        4             3             6             0\n(8i10)          (8i10)          \n         1         3         5         7\n         1         2         2         3         3         4\n"; fclose (f); f = fmemopen (el, strlen (el), "r"); SCOTCH_meshInit (&y); if (! T (rewind (f); SCOTCH_meshExit (&y); SCOTCH_meshInit (&y), SCOTCH_meshGeomLoadHabo (&y, &ge, f, NULL, "0"))) if (SCOTCH_meshCheck (&y) != 0) mc_fail ("imported mesh is wrong"); SCOTCH_meshExit (&y); }
  SCOTCH_geomExit (&ge); fclose (f); }
static void s_tab (void) { char *b = NULL; size_t l; FILE *f = open_memstream (&b, &l); int i; for (i = 0; i < g->n; i ++) pa[i] = i * 3 - 1; T (rewind (f), SCOTCH_graphTabSave (&gr, pa, f)); fclose (f); if (mc_failed ()) return; f = fmemopen (b, l, "r"); if (! T (rewind (f), SCOTCH_graphTabLoad (&gr, pb, f)) && memcmp (pa, pb, g->n * sizeof (Num))) mc_fail ("table read back differs"); fclose (f); free (b); }

/* --- orderings --- */
static void s_order (void) {
  SCOTCH_Strat st; Num cb = -1; if (par >= 0 && par < NB (ost) && strstr (ost[par], "b{strat") && g->velo) return;
  SCOTCH_stratInit (&st);
  if ((par < NB (ost) ? (ost[par][0] ? T (SCOTCH_stratExit (&st); SCOTCH_stratInit (&st), SCOTCH_stratGraphOrder (&st, ost[par])) : 0) : T (SCOTCH_stratExit (&st); SCOTCH_stratInit (&st), SCOTCH_stratGraphOrderBuild (&st, (par - NB (ost)) * SCOTCH_STRATQUALITY, 0, 0.2))) == 0)
    if (! T (, SCOTCH_graphOrder (&gr, &st, pa, pb, &cb, pc, pd))) { isperm (pa, g->n, g->base, "ordering"); isperm (pb, g->n, g->base, "inverse ordering"); if (cb < 1 || cb > g->n) mc_fail ("%d blocks", (int) cb); else if (pc[0] != g->base || pc[cb] != g->n + g->base) mc_fail ("bad block ranges"); }
  SCOTCH_stratExit (&st);
}
static void s_orderlist (void) { SCOTCH_Strat st; Num cb; int i, k = 0; for (i = 0; i < g->n; i += 2) pe[k ++] = i + g->base; SCOTCH_stratInit (&st); if (SCOTCH_stratGraphOrder (&st, par ? "g" : "n{sep=h{pass=2},ole=s,ose=s}") != 0) mc_fail ("strategy refused"); else if (! T (, SCOTCH_graphOrderList (&gr, k, pe, &st, pa, pb, &cb, pc, pd))) isperm (pa, g->n, g->base, "ordering"); SCOTCH_stratExit (&st); }
static void s_orderfile (void) {
  SCOTCH_Strat st; SCOTCH_Ordering o; char *b[3] = { NULL }; size_t l[3]; FILE *f[3]; int i;
  SCOTCH_stratInit (&st); SCOTCH_stratGraphOrder (&st, "n{sep=h{pass=2},ole=f{cmin=0,cmax=100,frat=0},ose=g}");
  if (T (, SCOTCH_graphOrderInit (&gr, &o, pa, par ? pb : NULL, NULL, NULL, NULL))) { SCOTCH_stratExit (&st); return; }
  if (! T (SCOTCH_graphOrderExit (&gr, &o); SCOTCH_graphOrderInit (&gr, &o, pa, par ? pb : NULL, NULL, NULL, NULL), SCOTCH_graphOrderCompute (&gr, &o, &st)) && ! T (, SCOTCH_graphOrderCheck (&gr, &o))) {
    for (i = 0; i < 3; i ++) f[i] = open_memstream (&b[i], &l[i]);
    if (! T (rewind (f[0]), SCOTCH_graphOrderSave (&gr, &o, f[0])) && ! T (rewind (f[1]), SCOTCH_graphOrderSaveMap (&gr, &o, f[1])) && ! T (rewind (f[2]), SCOTCH_graphOrderSaveTree (&gr, &o, f[2]))) ;
    for (i = 0; i < 3; i ++) fclose (f[i]);
    if (! mc_failed () && ! g->vlbl) { SCOTCH_Ordering o2; FILE *r = fmemopen (b[0], l[0], "r"); SCOTCH_graphOrderInit (&gr, &o2, pc, NULL, NULL, NULL, NULL); if (! T (rewind (r), SCOTCH_graphOrderLoad (&gr, &o2, r))) { Num i; for (i = 0; i < g->n; i ++) if (pa[i] != pc[i]) { mc_fail ("ordering read back differs"); break; } } SCOTCH_graphOrderExit (&gr, &o2); fclose (r); }
    for (i = 0; i < 3; i ++) free (b[i]);
  }
  SCOTCH_graphOrderExit (&gr, &o); SCOTCH_stratExit (&st);
}

/* --- mappings --- */
#define NM_ (NB (mst) - 5)                                    /* The last five work on old parts only */
static int usemap (SCOTCH_Strat *st, int k) { int n = arc->n ? arc->n : 4; SCOTCH_stratInit (st); if (k >= NM_ && k < NM_ + 2) k += 5; else if (k >= NM_ + 2) k -= 2; return k < NB (mst) ? (mst[k][0] ? T (SCOTCH_stratExit (st); SCOTCH_stratInit (st), SCOTCH_stratGraphMap (st, mst[k])) : 0) : T (SCOTCH_stratExit (st); SCOTCH_stratInit (st), arc->n ? SCOTCH_stratGraphMapBuild (st, (k - NB (mst)) * SCOTCH_STRATQUALITY, n, 0.05) : SCOTCH_stratGraphClusterBuild (st, (k - NB (mst)) * SCOTCH_STRATQUALITY, 2, 0.5, 0.1)); }
static void ispart (const Num *p) { int i, j; if (arc->n) for (i = 0; i < g->n; i ++) { for (j = 0; j < arc->n && arc->num[j] != p[i]; j ++) ; if (j == arc->n) { mc_fail ("vertex %d is mapped to %d", i, (int) p[i]); return; } } }
static void s_map (void) { SCOTCH_Strat st; if (! usemap (&st, par)) if (! T (, SCOTCH_graphMap (&gr, &arc->arch, &st, pa))) ispart (pa); SCOTCH_stratExit (&st); }
static void s_mapold (void) { /* par: strategy; fixed vertices and old parts */
  SCOTCH_Strat st; int i, k; if (arc->n == 0) return;
  for (i = 0; i < g->n; i ++) { pb[i] = i % 5 == 4 && par < NM_ + 2 ? -1 : arc->num[(i * 3) % arc->n]; pc[i] = i % 3 == 1 ? arc->num[i % arc->n] : -1; pd[i] = 1 + i % 3; }
  if (! usemap (&st, par)) for (k = par >= NM_ + 2; k < 3 && ! mc_failed (); k ++) {
    for (i = 0; i < g->n; i ++) pa[i] = pc[i];
    if (T (for (i = 0; i < g->n; i ++) pa[i] = pc[i], k == 0 ? SCOTCH_graphMapFixed (&gr, &arc->arch, &st, pa) : k == 1 ? SCOTCH_graphRemap (&gr, &arc->arch, pb, 1.5, pd, &st, pa) : SCOTCH_graphRemapFixed (&gr, &arc->arch, pb, 1, NULL, &st, pa))) break;
    ispart (pa); if (k != 1) for (i = 0; i < g->n; i ++) if (pc[i] >= 0 && pa[i] != pc[i]) { mc_fail ("fixed vertex moved"); break; }
    for (i = 0; i < g->n; i ++) if (pb[i] != (i % 5 == 4 && par < NM_ + 2 ? -1 : arc->num[(i * 3) % arc->n]) || pd[i] != 1 + i % 3) { mc_fail ("old parts or costs modified"); break; }
  }
  SCOTCH_stratExit (&st); }
static void s_mapfile (void) {
  SCOTCH_Mapping m, mo; SCOTCH_Strat st; char *b = NULL; size_t l; FILE *f; int i; if (arc->n == 0) return;
  SCOTCH_stratInit (&st);
  for (i = 0; i < g->n; i ++) pb[i] = arc->num[(i * 3) % arc->n];
  if (T (, SCOTCH_graphMapInit (&gr, &m, &arc->arch, par ? pa : NULL))) { SCOTCH_stratExit (&st); return; }
  SCOTCH_graphMapInit (&gr, &mo, &arc->arch, pb);
  if (! T (, SCOTCH_graphMapCompute (&gr, &m, &st))) {
    f = open_memstream (&b, &l); T (rewind (f), SCOTCH_graphMapSave (&gr, &m, f)); fclose (f);
    if (! mc_failed ()) { f = fmemopen (b, l, "r"); T (rewind (f), SCOTCH_graphMapLoad (&gr, &m, f)); fclose (f); } free (b); b = NULL;
    if (! mc_failed ()) { f = open_memstream (&b, &l); T (rewind (f), SCOTCH_graphMapView (&gr, &m, f)); fclose (f); free (b); b = NULL; }
    if (! mc_failed ()) { f = open_memstream (&b, &l); T (rewind (f), SCOTCH_graphRemapView (&gr, &m, &mo, 1, NULL, f)); if (! mc_failed ()) T (rewind (f), SCOTCH_graphRemapViewRaw (&gr, &m, &mo, 1, NULL, f)); fclose (f); free (b); }
  }
  SCOTCH_graphMapExit (&gr, &m); SCOTCH_graphMapExit (&gr, &mo); SCOTCH_stratExit (&st);
}
static void s_part (void) { SCOTCH_Strat st; int i; SCOTCH_stratInit (&st); if (par == 0) { if (! T (, SCOTCH_graphPart (&gr, 3, &st, pa))) inrange (pa, g->n, 0, 3, "parts"); }
  else if (par == 1) { for (i = 0; i < g->n; i ++) pa[i] = i % 3 ? -1 : i % 2; if (! T (for (i = 0; i < g->n; i ++) pa[i] = i % 3 ? -1 : i % 2, SCOTCH_graphPartFixed (&gr, 2, &st, pa))) inrange (pa, g->n, 0, 2, "parts"); }
  else { for (i = 0; i < g->n; i ++) { pb[i] = i % 3; pa[i] = i % 4 ? -1 : 1; } if (! T (for (i = 0; i < g->n; i ++) pa[i] = i % 4 ? -1 : 1, par == 2 ? SCOTCH_graphRepart (&gr, 3, pb, 1, NULL, &st, pa) : SCOTCH_graphRepartFixed (&gr, 3, pb, 1, NULL, &st, pa))) inrange (pa, g->n, 0, 3, "parts"); }
  SCOTCH_stratExit (&st); }
static void s_ovl (void) { SCOTCH_Strat st; char *b = NULL; size_t l; FILE *f; SCOTCH_stratInit (&st);
  if ((par < NB (vst) ? (vst[par][0] ? T (SCOTCH_stratExit (&st); SCOTCH_stratInit (&st), SCOTCH_stratGraphPartOvl (&st, vst[par])) : 0) : T (SCOTCH_stratExit (&st); SCOTCH_stratInit (&st), SCOTCH_stratGraphPartOvlBuild (&st, SCOTCH_STRATQUALITY, 3, 0.1))) == 0)
    if (! T (, SCOTCH_graphPartOvl (&gr, 3, &st, pa))) { inrange (pa, g->n, -1, 3, "parts"); f = open_memstream (&b, &l); T (rewind (f), SCOTCH_graphPartOvlView (&gr, 3, pa, f)); fclose (f); free (b); }
  SCOTCH_stratExit (&st); }

/* --- targets --- */
static void s_archfile (void) { SCOTCH_Arch x; char *b = NULL, *c = NULL; size_t l, l2; FILE *f = open_memstream (&b, &l);
  T (rewind (f), SCOTCH_archSave (&arc->arch, f)); fclose (f); if (mc_failed ()) return;
  f = fmemopen (b, l, "r"); SCOTCH_archInit (&x);
  if (! T (rewind (f); SCOTCH_archExit (&x); SCOTCH_archInit (&x), SCOTCH_archLoad (&x, f))) { FILE *h = open_memstream (&c, &l2); SCOTCH_archSave (&x, h); fclose (h); if (strcmp (arc->graf ? "" : b, arc->graf ? "" : c)) mc_fail ("target read back differs"); free (c); }
  SCOTCH_archExit (&x); fclose (f); free (b); }
static void s_archbuild (void) { SCOTCH_Arch x; int i, k = 0, o = 0; SCOTCH_Strat st; Num v[4] = { 3, 1, 2, 2 }, d[3] = { 2, 2, 3 };
  for (i = 0; i < g->n; i += 2) pa[k ++] = i + g->base;
  SCOTCH_archInit (&x); SCOTCH_stratInit (&st);
#define RX SCOTCH_archExit (&x); SCOTCH_archInit (&x)
  switch (par) {
    case 0: o = T (RX, SCOTCH_archCmpltw (&x, 4, v)); break;
    case 1: o = T (RX, SCOTCH_archTleaf (&x, 3, d, v)); break;
    case 2: o = T (RX, SCOTCH_archMeshX (&x, 3, d)); break;
    case 3: o = T (RX, SCOTCH_archTorusX (&x, 3, d)); break;
    case 4: if (g->base) break; o = T (RX, SCOTCH_archBuild0 (&x, &gr, 0, NULL, &st)); break;
    case 5: if (g->base) break; o = T (RX, SCOTCH_archBuild0 (&x, &gr, k, pa, &st)); break;
    case 6: if (g->base) break; o = T (RX, SCOTCH_archBuild2 (&x, &gr, 0, NULL)); break;
    case 7: if (g->base) break; o = T (RX, SCOTCH_archBuild2 (&x, &gr, k, pa)); break;
    case 8: { Num s[3] = { 2, 0, 1 }; SCOTCH_Arch y; SCOTCH_archInit (&y); SCOTCH_archMesh2 (&y, 2, 2); o = T (RX, SCOTCH_archSub (&x, &y, 3, s)); if (o == 0) { SCOTCH_ArchDom e; SCOTCH_archDomFrst (&x, &e); if (SCOTCH_archDomSize (&x, &e) != 3) mc_fail ("bad size"); } SCOTCH_archExit (&x); SCOTCH_archExit (&y); SCOTCH_archInit (&x); break; }
    case 9: { Num s[3] = { 0, 1, 0 }; SCOTCH_Arch y; (void) s; SCOTCH_archInit (&y); if (g->base || g->n < 3) break; if (SCOTCH_archBuild2 (&y, &gr, 0, NULL) == 0) { Num t[3] = { 1, 2, 0 }; o = T (RX, SCOTCH_archSub (&x, &y, 2, t)); } SCOTCH_archExit (&x); SCOTCH_archInit (&x); SCOTCH_archExit (&y); break; }
  }
  SCOTCH_stratExit (&st); SCOTCH_archExit (&x); }

/* --- meshes --- */
static void s_mbuild (void) { SCOTCH_Mesh x; SCOTCH_meshInit (&x); if (! T (SCOTCH_meshExit (&x); SCOTCH_meshInit (&x), SCOTCH_meshBuild (&x, q->velmbas, q->vnodbas, q->ne, q->nn, q->vert, q->vend, q->velo, q->vnlo, q->vlbl, q->m, q->edge))) if (! T (, SCOTCH_meshCheck (&x))) ; SCOTCH_meshExit (&x); }
static void s_mfile (void) { SCOTCH_Mesh x; char *b = NULL; size_t l; FILE *f = open_memstream (&b, &l); if (q->vlbl) { fclose (f); free (b); return; } T (rewind (f), SCOTCH_meshSave (&me, f)); fclose (f); if (mc_failed ()) return; f = fmemopen (b, l, "r"); SCOTCH_meshInit (&x); if (! T (rewind (f); SCOTCH_meshExit (&x); SCOTCH_meshInit (&x), SCOTCH_meshLoad (&x, f, -1))) if (SCOTCH_meshCheck (&x) != 0) mc_fail ("mesh read back is wrong"); SCOTCH_meshExit (&x); fclose (f); free (b); }
static void s_mgraph (void) { SCOTCH_Graph x; SCOTCH_graphInit (&x); if (! T (SCOTCH_graphExit (&x); SCOTCH_graphInit (&x), par == 0 ? SCOTCH_meshGraph (&me, &x) : SCOTCH_meshGraphDual (&me, &x, par))) isgraf (&x, "graph of mesh"); SCOTCH_graphExit (&x); }
static void s_morder (void) { SCOTCH_Strat st; Num cb = -1; if (par < NB (hst) && strstr (hst[par], "b{strat") && q->vnlo) return; SCOTCH_stratInit (&st);
  if ((par < NB (hst) ? (hst[par][0] ? T (SCOTCH_stratExit (&st); SCOTCH_stratInit (&st), SCOTCH_stratMeshOrder (&st, hst[par])) : 0) : T (SCOTCH_stratExit (&st); SCOTCH_stratInit (&st), SCOTCH_stratMeshOrderBuild (&st, SCOTCH_STRATQUALITY, 0.1))) == 0)
    if (! T (, SCOTCH_meshOrder (&me, &st, pa, pb, &cb, pc, pd))) isperm (pa, q->nn, q->base, "ordering");
  SCOTCH_stratExit (&st); }
static void s_morderfile (void) { SCOTCH_Strat st; SCOTCH_Ordering o; char *b = NULL; size_t l; FILE *f; int i; SCOTCH_stratInit (&st); SCOTCH_stratMeshOrder (&st, "n{sep=h{pass=2},ole=f{cmin=0,cmax=100,frat=0},ose=g}");
  if (! T (, SCOTCH_meshOrderInit (&me, &o, pa, NULL, NULL, NULL, NULL))) {
    if (! T (SCOTCH_meshOrderExit (&me, &o); SCOTCH_meshOrderInit (&me, &o, pa, NULL, NULL, NULL, NULL), SCOTCH_meshOrderCompute (&me, &o, &st)) && ! T (, SCOTCH_meshOrderCheck (&me, &o))) for (i = 0; i < 3 && ! mc_failed (); i ++) { f = open_memstream (&b, &l); T (rewind (f), i == 0 ? SCOTCH_meshOrderSave (&me, &o, f) : i == 1 ? SCOTCH_meshOrderSaveMap (&me, &o, f) : SCOTCH_meshOrderSaveTree (&me, &o, f)); fclose (f); free (b); b = NULL; }
    SCOTCH_meshOrderExit (&me, &o); }
  SCOTCH_stratExit (&st); }

/* --- contexts, METIS, ESMUMPS --- */
static void s_context (void) { SCOTCH_Context c; SCOTCH_Graph x; SCOTCH_Strat st; SCOTCH_stratInit (&st);
  if (T (, SCOTCH_contextInit (&c))) return;
  if (! T (, SCOTCH_contextThreadSpawn (&c, 1, NULL)) && ! T (, SCOTCH_contextOptionSetNum (&c, SCOTCH_OPTIONNUMDETERMINISTIC, 1)) && ! T (, SCOTCH_contextRandomClone (&c))) {
    SCOTCH_graphInit (&x);
    if (! T (SCOTCH_graphExit (&x); SCOTCH_graphInit (&x), SCOTCH_contextBindGraph (&c, &gr, &x))) { if (par == 0) { if (! T (, SCOTCH_graphPart (&x, 2, &st, pa))) inrange (pa, g->n, 0, 2, "parts"); } else if (! T (, SCOTCH_graphOrder (&x, &st, pa, NULL, NULL, NULL, NULL))) isperm (pa, g->n, g->base, "ordering"); }
    SCOTCH_graphExit (&x);
  }
  SCOTCH_contextExit (&c); SCOTCH_stratExit (&st); }
static void s_random (void) { char *b = NULL; size_t l; FILE *f = open_memstream (&b, &l); T (rewind (f), SCOTCH_randomSave (f)); fclose (f); if (mc_failed ()) return; f = fmemopen (b, l, "r"); T (rewind (f), SCOTCH_randomLoad (f)); fclose (f); free (b); }
#define TM(expr) ({ int o_; arm (); o_ = (expr); disarm (); if (o_ != METIS_OK) { if (! lasthit) mc_fail ("%.60s fails", #expr); else if (o_ != METIS_ERROR_MEMORY && o_ != METIS_ERROR) mc_fail ("%.60s gives status %d", #expr, o_); else { mc_note ("errors", 1); o_ = (expr); if (o_ != METIS_OK) mc_fail ("%.60s fails when called again", #expr); } } (o_ != METIS_OK || mc_failed ()); })
static void s_metis (void) {
  Num n = g->n, ba = g->base, fl = 0, np = 3, nc = 1, cut, op[METIS_NOPTIONS]; int k;
  if (g->vend || g->layout != LAY_COMPACT) return;
  SCOTCH_METIS_SetDefaultOptions (op); op[METIS_OPTION_NUMBERING] = ba; k = par;
  switch (k) {
    case 0: if (! TM (SCOTCH_METIS_V5_PartGraphKway (&n, &nc, g->vert, g->edge, g->velo, NULL, g->edlo, &np, NULL, NULL, op, &cut, pa))) inrange (pa, n, ba, ba + np, "parts"); break;
    case 1: if (! TM (SCOTCH_METIS_V5_PartGraphRecursive (&n, &nc, g->vert, g->edge, g->velo, NULL, NULL, &np, NULL, NULL, op, &cut, pa))) inrange (pa, n, ba, ba + np, "parts"); break;
    case 2: if (! TM (SCOTCH_METIS_V3_PartGraphKway (&n, g->vert, g->edge, NULL, NULL, &fl, &ba, &np, op, &cut, pa))) inrange (pa, n, ba, ba + np, "parts"); break;
    case 3: fl = 1; { int i; for (i = 0; i < n; i ++) pb[i] = 1 + i % 3; } if (! TM (SCOTCH_METIS_V3_PartGraphVKway (&n, g->vert, g->edge, NULL, pb, &fl, &ba, &np, op, &cut, pa))) inrange (pa, n, ba, ba + np, "parts"); break;
    case 4: if (! TM (SCOTCH_METIS_V5_NodeND (&n, g->vert, g->edge, g->velo, op, pa, pb))) isperm (pa, n, ba, "ordering"); break;
    case 5: if (! TM (SCOTCH_METIS_V3_NodeND (&n, g->vert, g->edge, &ba, op, pa, pb))) isperm (pa, n, ba, "ordering"); break;
    case 6: { Num e = 4, nn = 6, ep[5] = { 0, 3, 6, 9, 12 }, ei[12] = { 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5 }, z = 0, *xa = NULL, *ad = NULL; if (! TM (SCOTCH_METIS_MeshToDual (&e, &nn, ep, ei, &nc, &z, &xa, &ad))) { inrange (ad, xa[4], 0, 4, "dual"); free (xa); free (ad); } break; }
    case 7: { Num e = 4, nn = 6, ep[5] = { 0, 3, 6, 9, 12 }, ei[12] = { 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5 }; op[METIS_OPTION_NUMBERING] = 0; if (! TM (SCOTCH_METIS_PartMeshDual (&e, &nn, ep, ei, NULL, NULL, &nc, &np, NULL, op, &cut, pa, pb))) { inrange (pa, 4, 0, 3, "parts"); inrange (pb, 6, 0, 3, "parts"); } break; }
  }
}
static void s_esm (void) { /* par: weights */
  Num n = g->n, pfree, *iw, *pe_, *len, *nv, *el, *la; int i, j, o, t; if (g->base != 1 || g->vend || g->layout != LAY_COMPACT) return;
  for (t = 0; t < 2; t ++) {
    iw = malloc ((g->m + 1) * sizeof (Num)); pe_ = malloc (n * sizeof (Num) + 8); len = malloc (n * sizeof (Num) + 8); nv = malloc (n * sizeof (Num) + 8); el = malloc (n * sizeof (Num) + 8); la = malloc (n * sizeof (Num) + 8);
    for (i = j = 0; i < n; i ++) { pe_[i] = g->vert[i]; len[i] = g->vert[i + 1] - g->vert[i]; nv[i] = 1 + i % 2; } memcpy (iw, g->edge, g->m * sizeof (Num)); pfree = g->m + 1; (void) j; (void) el; (void) la;
    arm (); o = par ? esmumpsv (n, g->m, pe_, pfree, len, iw, nv, el, la) : esmumps (n, g->m, pe_, pfree, len, iw, nv, el, la); disarm ();
    if (o == 0) for (i = 0; i < n; i ++) { if (pe_[i] > 0 || pe_[i] < - n || nv[i] < 0) { mc_fail ("result out of range"); break; } }
    free (iw); free (pe_); free (len); free (nv); free (el); free (la);
    if (o == 0) break;
    if (! lasthit && t == 0) mc_fail ("esmumps fails"); if (t == 1) mc_fail ("esmumps fails when called again");
  } }

enum { NG = 1, NA = 2, NM = 4 };
static const struct { const char *name; void (*f) (void); int need, cnt; } sc[] = {
  { "graphBuild", s_build, NG, 1 }, { "graphSave", s_save, NG, 1 }, { "graphLoad", s_load, NG, 3 }, { "graphBase", s_base, NG, 1 }, { "graphCoarsen", s_coarsen, NG, 3 }, { "graphCoarsenMatch", s_match, NG, 2 }, { "graphInduce", s_induce, NG, 2 }, { "graphColor", s_color, NG, 1 }, { "graphDiamPV", s_diam, NG, 1 }, { "graphStat", s_stat, NG, 1 }, { "graphDump", s_dump, NG, 1 },
  { "graphGeom", s_geomio, NG, 3 }, { "geomHabo", s_habo, 0, 3 }, { "graphTab", s_tab, NG, 1 }, { "graphOrder", s_order, NG, NB (ost) + 2 }, { "graphOrderList", s_orderlist, NG, 2 }, { "graphOrder files", s_orderfile, NG, 2 },
  { "graphMap", s_map, NG | NA, NB (mst) - 5 + 2 }, { "fixed, remap", s_mapold, NG | NA, NB (mst) + 2 }, { "mapping files and reports", s_mapfile, NG | NA, 2 }, { "graphPart", s_part, NG, 4 }, { "graphPartOvl", s_ovl, NG, NB (vst) + 1 },
  { "archSave, archLoad", s_archfile, NA, 1 }, { "archBuild", s_archbuild, NG, 10 },
  { "meshBuild", s_mbuild, NM, 1 }, { "meshSave, meshLoad", s_mfile, NM, 1 }, { "meshGraph", s_mgraph, NM, 3 }, { "meshOrder", s_morder, NM, NB (hst) + 1 }, { "meshOrder files", s_morderfile, NM, 1 },
  { "context", s_context, NG, 2 }, { "random", s_random, 0, 1 }, { "METIS", s_metis, NG, 8 }, { "esmumps", s_esm, NG, 2 } };
#define SCNBR NB (sc)
static int oom;
static char *objs (void) { static char b[6000]; snprintf (b, sizeof (b), "%s%s%s", g ? g->desc : "", arc ? arc->desc : "", q ? q->desc : ""); return b; }
static u64 run (int s, long n) {                               /* n: failing request; 0: none */
  long live; int i; u64 h[2] = { 0, 0 };
  failn = n;
  for (i = 0; i < 700; i ++) pa[i] = pb[i] = pc[i] = pd[i] = pe[i] = -7;
  memset (&gr, 0, sizeof (gr)); memset (&me, 0, sizeof (me));
  { u64 dummy = mc_hashi (s, n); mc_state (dummy); }           /* state table grows now, if ever */
  live = mc_live (); mc_mark ();
  if (g) { g_build (g, &gr); } if (q) { m_build (q, &me); }
  SCOTCH_randomReset (); left = n > 0 ? n : -1; total = 0; hit = 0; mc_errreset ();
  sc[s].f ();
  if (! mc_failed () && g) { if (SCOTCH_graphCheck (&gr) != 0) mc_fail ("graph is damaged"); SCOTCH_graphExit (&gr); if (! g_same (g)) mc_fail ("caller's graph arrays modified"); }
  if (! mc_failed () && q) { if (SCOTCH_meshCheck (&me) != 0) mc_fail ("mesh is damaged"); SCOTCH_meshExit (&me); if (! m_same (q)) mc_fail ("caller's mesh arrays modified"); }
  if (! mc_failed () && n == 0 && mc_errnbr) mc_fail ("error message although all calls succeed");
  if (! mc_failed () && mc_live () != live) { mc_dump_live (); mc_fail ("%ld blocks are not released", mc_live () - live); }
  (void) h;
  return total;
}
/* Call sites of the requests of a run: names of the innermost functions, allocation wrappers left out */
#include <execinfo.h>
extern void __sanitizer_symbolize_pc (void *, const char *, char *, size_t) __attribute__ ((weak));
extern void *__real_malloc (size_t);
#define SITEMAX 60000
static short sites[SITEMAX]; static int sitenbr; static char names[4000][160]; static int namenbr;
static struct { void *pc; char f[64]; } pcs[8192]; static int insite;
static const char *fname (void *pc) {
  size_t i; char b[200] = "?";
  for (i = ((size_t) pc * 0x9E3779B97F4A7C15ULL) >> 51; pcs[i].pc && pcs[i].pc != pc; i = (i + 1) & 8191) ;
  if (pcs[i].pc == NULL) { pcs[i].pc = pc; if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc ((char *) pc - 1, "%f", b, sizeof (b)); { char *c = b; if (! strncmp (c, "_SCOTCH", 7)) c += 7; snprintf (pcs[i].f, sizeof (pcs[i].f), "%s", c); } }
  return pcs[i].f;
}
static void onreq (void) {
  void *st[16]; char k[160] = ""; int n, i, d = 0; static long skip;
  if (insite || sitenbr >= SITEMAX || ! armed) return;
  (void) skip; insite = 1; n = backtrace (st, 16);
  for (i = 2; i < n && d < 3; i ++) { const char *f = fname (st[i]); if (! strncmp (f, "mem", 3) || ! strncmp (f, "__", 2) || ! strcmp (f, "ofail") || strstr (f, "onreq") || ! strcmp (f, "malloc") || ! strcmp (f, "realloc") || ! strcmp (f, "calloc")) continue; if (! strcmp (f, "run") || ! strncmp (f, "s_", 2)) break; snprintf (k + strlen (k), sizeof (k) - strlen (k), "%s%s", d ? " < " : "", f); d ++; }
  for (i = 0; i < namenbr && strcmp (names[i], k); i ++) ;
  if (i == namenbr && namenbr < 4000) strcpy (names[namenbr ++], k);
  sites[sitenbr ++] = i; insite = 0;
}
static void each (void) {
  int s, need = (g ? NG : 0) | (arc ? NA : 0) | (q ? NM : 0); long k, n; char keep[400];
  for (s = 0; s < SCNBR; s ++) if (sc[s].need == need) for (par = 0; par < sc[s].cnt; par ++) {
    if (! oom) { if (mc_skip ()) continue; if (mc_case ("%s (%d) on %s", sc[s].name, par, objs ())) { mc_nontrivial (); run (s, 0); mc_state (mc_hashi (mc_hashi (s, par), (long) total)); } continue; }
    (void) keep; sitenbr = 0; mc_hook (onreq); k = run (s, 0); mc_hook (NULL);
    if (k > sitenbr) k = sitenbr;
    for (n = 1; n <= k; n ++) {
      if (mc_skip ()) continue;
      if (mc_case ("%s (%d), request %ld of %ld refused in %s, on %s", sc[s].name, par, n, k, names[sites[n - 1]], objs ())) { mc_nontrivial (); run (s, n); mc_note ("requests refused", 1); if (! hit) mc_note ("not reached", 1); mc_state (mc_hashi (mc_hashi (mc_hashi (s, par), n), k)); }
    }
  }
}
void mc_run (void) {
  Shape s; int n, i, k, t = mc_thorough; G gg; M mm; static A ar[60]; int an = 0; ASpec as;
  oom = atoi (getenv ("MC_SET")) == 26;
  sh_init (&s); if (getenv ("MC_MESHONLY") != NULL) goto meshes; each ();
  for (i = 0; a_list (i, &as) && an < 60; i ++) { SCOTCH_randomReset (); if (a_make (&ar[an], &as) == 0) an ++; }
  for (i = 0; i < an; i ++) { arc = &ar[i]; each (); } arc = NULL;
  for (n = 0; n <= (oom ? (t ? 6 : 4) : (t ? 7 : 6)); n ++) for (i = 0; n == 0 ? i == 0 : sh_atlas (&s, n, i); i ++) {
    if (n == 0) continue;
    for (k = 0; k < (t || ! oom ? 3 : 1); k ++) { g_make (&gg, &s, (i + k) & 1, (i + k) % 3 == 2 ? LAY_VEND : LAY_COMPACT, ((i + k) % 2) ? 4 : 0, (i / 2 + k) % 2, i % 4 == 3 ? 2 : 0); g = &gg; each (); arc = &ar[(i * 3 + k) % an]; each (); arc = NULL; g = NULL; g_exit (&gg); } }
  for (i = 0; sh_family (&s, i, t || ! oom ? 1 : 0); i ++) if (s.n <= (t || ! oom ? 100 : 30) && (t || ! oom || i % 3 == 0)) { g_make (&gg, &s, i & 1, LAY_COMPACT, (i % 2) ? 4 : 0, (i / 2) % 2, 0); g = &gg; each (); for (k = 0; k < (t ? an : 2); k ++) { arc = &ar[(i * 5 + k * 7) % an]; each (); } arc = NULL; g = NULL; g_exit (&gg); }
meshes:
  { u64 m; int ne, nn; for (ne = 1; ne <= 3; ne ++) for (nn = 1; nn <= 3; nn ++) for (m = 1; m < (1ULL << (ne * nn)); m += 1 + (! oom ? 0 : t ? 3 : 40) * (ne * nn > 3)) { m_make (&mm, ne, nn, m, m & 1, (m >> 1) & 1, LAY_COMPACT, (m >> 2) & 1, (m >> 1) & 1, 0); q = &mm; each (); q = NULL; m_exit (&mm); } }
  for (i = 0; m_family (&mm, i, i & 1, (i >> 1) & 1, LAY_COMPACT, i % 2, 0, 0); i ++) { if (mm.nn < (t ? 200 : 40)) { q = &mm; each (); q = NULL; } m_exit (&mm); }
  sh_exit (&s);
}
