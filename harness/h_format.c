/* Foreign formats: independent writers of every header and layout variant of Chaco, Matrix Market, Harwell-Boeing (graph, mesh) and geometry files, imported and compared with what the file describes; export followed by import. */
#include "gspace.h"
#include <stdarg.h>

static char err[500];
#define BS 20000
static char B[BS]; static int bl;
static void out (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
static void out (const char *f, ...) { va_list a; va_start (a, f); bl += vsnprintf (B + bl, BS - bl, f, a); va_end (a); if (bl >= BS) { fprintf (stderr, "buffer\n"); abort (); } }
static void crlf (void) { char t[BS]; int i, k = 0; for (i = 0; i < bl; i ++) { if (B[i] == '\n') t[k ++] = '\r'; t[k ++] = B[i]; } memcpy (B, t, k); B[bl = k] = 0; }
static const char *shown (void) { static char t[900]; int i, k = 0; for (i = 0; i < bl && k < 880; i ++) if (B[i] == '\n') { t[k ++] = '|'; } else if (B[i] == '\r') { t[k ++] = '\\'; t[k ++] = 'r'; } else t[k ++] = B[i]; t[k] = 0; return t; }

/* what the file describes */
typedef struct { int n, base; int lab, vel, edl; Num w[300], lbl[300], *e; } X;
static void xinit (X *x, int n, int base) { int i; memset (x, 0, sizeof (*x)); x->n = n; x->base = base; x->e = calloc (n * n + 1, sizeof (Num)); for (i = 0; i < n; i ++) { x->w[i] = 1; x->lbl[i] = base + i; } }
static void cmp (const X *x, SCOTCH_Graph *gr, const char *what) {
  GV v; int i, j, n = x->n; Num m = 0;
  if (gv_read (&v, gr, err, sizeof (err)) != 0) mc_fail ("%s: %s: %s", what, err, shown ());
  else if (SCOTCH_graphCheck (gr) != 0) mc_fail ("%s: imported graph does not pass the check: %s", what, shown ());
  else {
    for (i = 0; i < n * n; i ++) m += x->e[i] != 0;
    if (v.n != n || v.base != x->base || v.m != m) mc_fail ("%s: %d vertices, base %d, %d arcs instead of %d, %d, %d: %s", what, v.n, (int) v.base, (int) v.m, n, x->base, (int) m, shown ());
    for (i = 0; i < n && ! mc_failed (); i ++) {
      if (v.w[i] != x->w[i]) mc_fail ("%s: vertex %d has load %d: %s", what, i, (int) v.w[i], shown ());
      else if (x->lab && ! v.haslbl) mc_fail ("%s: labels lost: %s", what, shown ());
      else if (v.haslbl && v.lbl[i] != x->lbl[i]) mc_fail ("%s: vertex %d has label %d: %s", what, i, (int) v.lbl[i], shown ());
      for (j = 0; j < n && ! mc_failed (); j ++) if (v.mult[(size_t) i * n + j] != (x->e[i * n + j] != 0) || (v.mult[(size_t) i * n + j] && v.ew[(size_t) i * n + j] != x->e[i * n + j])) mc_fail ("%s: edge %d-%d is %d times of load %d instead of %d: %s", what, i, j, (int) v.mult[(size_t) i * n + j], (int) v.ew[(size_t) i * n + j], (int) x->e[i * n + j], shown ());
    }
    mc_state (gv_hash (&v));
  }
  gv_exit (&v);
}
typedef int (*LD) (SCOTCH_Graph *, SCOTCH_Geom *, FILE *, FILE *, const char *);
/* import of buffer; must: 1 must be accepted, 0 may be refused */
static void import (const X *x, LD ld, const char *str, int must, const char *what) {
  SCOTCH_Graph gr; SCOTCH_Geom ge; FILE *f; int r;
  if (mc_failed ()) return;
  f = fmemopen (B, bl, "r"); SCOTCH_graphInit (&gr); SCOTCH_geomInit (&ge); mc_ops (1);
  r = ld (&gr, &ge, f, NULL, str); fclose (f);
  if (r == 0) { if (x == NULL) mc_fail ("%s: accepted: %s", what, shown ()); else cmp (x, &gr, what); }
  else if (must) mc_fail ("%s: file refused: %s", what, shown ());
  SCOTCH_geomExit (&ge); SCOTCH_graphExit (&gr);
}

/* ---- Chaco */
/* layout variant: comments (0 none, 1 top, 2 everywhere), separator, end of lines, header style */
static void chacout (const G *g, int lab, int vel, int edl, int var) {
  static const char *seps[] = { " ", "\t", "   " }; const char *s = seps[var % 3]; int com = (var / 3) % 3, hd = (var / 9) % 4, tail = (var / 36) % 3; int i, j, k, n = g->n, fl = 100 * lab + 10 * vel + edl;
  bl = 0;
  if (com) out ("%% A comment\n"); if (com == 2) out ("%%\n%%%% another 3 4 5\n");
  if (hd == 1) out (" %d%s%d%s%03d", n, s, (int) g->m / 2, s, fl);
  else if (hd == 2 && fl == 0) out ("%d%s%d", n, s, (int) g->m / 2);
  else if (hd == 3) out ("%d%s%d%s%d 1", n, s, (int) g->m / 2, s, fl);      /* METIS: one weight per vertex */
  else out ("%d%s%d%s%d", n, s, (int) g->m / 2, s, fl);
  out ("%s\n", tail == 1 ? " " : "");
  for (i = 0; i < n; i ++) {
    if (com == 2) out ("%% vertex %d\n", i);
    k = 0;
#define SP (k ++ ? s : hd == 1 ? " " : "")
    if (lab) out ("%s%d", SP, (int) (g->vlbl[i] - g->base + 1));
    if (vel) out ("%s%d", SP, (int) g->w[i]);
    for (j = 0; j < n; j ++) { int t = (var & 1) ? n - 1 - j : j; if (g->ew[(size_t) i * n + t] != 0) { out ("%s%d", SP, (int) (lab ? g->vlbl[t] - g->base : t) + 1); if (edl) out ("%s%d", s, (int) g->ew[(size_t) i * n + t]); } }
    if (tail == 1) out ("  "); if (tail != 2 || i < n - 1) out ("\n");
  }
  if (tail == 1) out ("\n");
}
static void xg (X *x, const G *g, int base, int lab, int vel, int edl) {
  int i; xinit (x, g->n, base); x->lab = lab; x->vel = vel; x->edl = edl;
  for (i = 0; i < g->n; i ++) { if (vel) x->w[i] = g->w[i]; if (lab) x->lbl[i] = g->vlbl[i] - g->base + base; }
  for (i = 0; i < g->n * g->n; i ++) if (g->ew[i] != 0) x->e[i] = edl ? g->ew[i] : 1;
}
static void chaccase (const G *g) {
  SCOTCH_Graph gr; FILE *f; X x; int var, lab = g->vlbl != NULL, vel = g->velo != NULL, edl = g->edlo != NULL, i, must = 1; char *b = NULL; size_t l;
  for (i = 0; i < g->n; i ++) if (g->w[i] < 1 || (lab && (g->vlbl[i] < g->base || g->vlbl[i] >= g->base + g->n))) must = 0;   /* the format numbers vertices from 1 to n and has positive loads */
  for (i = 0; i < g->n * g->n; i ++) if (edl && g_adj (g, i / g->n, i % g->n) && g->ew[i] < 1) must = 0;
  xg (&x, g, 1, lab, vel, edl);
  for (var = 0; var < 108 && ! mc_failed (); var ++) { chacout (g, lab, vel, edl, var); import (&x, SCOTCH_graphGeomLoadChac, (var & 1) ? NULL : "", must, "Chaco"); if (var < 3 && g->n > 0) { crlf (); import (&x, SCOTCH_graphGeomLoadChac, NULL, must, "Chaco, carriage returns"); } }
  if (! mc_failed ()) {
    g_build (g, &gr); f = open_memstream (&b, &l); mc_ops (1);
    if (SCOTCH_graphGeomSaveChac (&gr, NULL, f, NULL, NULL) != 0) mc_fail ("not exported to Chaco");
    fclose (f);
    if (l < BS) { memcpy (B, b, l + 1); bl = l; import (&x, SCOTCH_graphGeomLoadChac, NULL, must, "Chaco export"); }
    free (b); SCOTCH_graphExit (&gr);
  }
  free (x.e);
}

/* ---- Matrix Market and Harwell-Boeing: patterns with diagonal */
typedef struct { int n, k; int r[400], c[400]; } P;                      /* list of entries, 0-based */
static void pmask (P *p, int n, u64 mask) { int i; p->n = n; p->k = 0; for (i = 0; i < n * n; i ++) if ((mask >> i) & 1) { p->r[p->k] = i / n; p->c[p->k ++] = i % n; } }
static void xp (X *x, const P *p, int base) { int i; xinit (x, p->n, base); for (i = 0; i < p->k; i ++) if (p->r[i] != p->c[i]) x->e[p->r[i] * p->n + p->c[i]] = x->e[p->c[i] * p->n + p->r[i]] = 1; }
static void mmktout (const P *p, int base, int var) {
  static const char *head[] = { "%%MatrixMarket matrix coordinate pattern symmetric", "%%MatrixMarket matrix coordinate real general", "%%MatrixMarket MATRIX Coordinate Integer General", "%%MatrixMarket   matrix  coordinate\tcomplex hermitian", "%%MatrixMarket matrix coordinate real skew-symmetric" };
  static const char *val[] = { "", " 1.5e-3", "\t-2", "  1.0 -2.5E+01", " -7.25" };
  int h = var % 5, com = (var / 5) % 3, ord = (var / 15) % 4, sp = (var / 60) % 3, tail = (var / 180) % 2, i, j, dup;
  bl = 0; out ("%s\n", head[h]);
  if (com) out ("%% comment 1 2 3\n"); if (com == 2) { out ("%%\n"); out ("%%"); for (i = 0; i < 100; i ++) out (" 12345678"); out ("\n"); }
  dup = (ord == 3);
  out (sp == 2 ? "  %d   %d\t%d \n" : "%d %d %d\n", p->n, p->n, p->k * (dup ? 2 : 1));
  for (dup = (ord == 3); dup >= 0; dup --) for (i = 0; i < p->k; i ++) { j = (ord == 1) ? p->k - 1 - i : (ord == 2) ? ((p->k % 7) ? (i * 7) % p->k : i) : i; out (sp == 1 ? "%d\t%d%s" : sp == 2 ? "  %d   %d%s " : "%d %d%s", p->r[j] + base, p->c[j] + base, val[h]); if (! tail || dup || i < p->k - 1) out ("\n"); }
}
static const struct { int base; const char *str; } mb[] = { { 1, NULL }, { 1, "" }, { 1, "1" }, { 0, "0" }, { 5, "5" } };
static void mmktcase (const P *p, int big) {
  X x; int v, b; char what[100];
  for (b = 0; b < 5; b ++) { xp (&x, p, mb[b].base); for (v = 0; v < 360 && ! mc_failed (); v += big ? 1 : 17) { mmktout (p, mb[b].base, (v + b * 3) % 360); snprintf (what, sizeof (what), "Matrix Market, base string \"%s\"", mb[b].str ? mb[b].str : "(null)"); import (&x, SCOTCH_graphGeomLoadMmkt, mb[b].str, 1, what); if (v == 17 || v == 0) { crlf (); import (&x, SCOTCH_graphGeomLoadMmkt, mb[b].str, 1, "Matrix Market, carriage returns"); } } free (x.e); }
  if (p->n > 0 && ! mc_failed ()) {                                       /* dense format, lower case integers: the file describes another matrix */
    int i; X xd; P q; q.n = p->n; q.k = 0;
    bl = 0; out ("%%%%MatrixMarket matrix array integer general\n%d %d\n", p->n, p->n);
    for (i = 0; i < p->n * p->n; i ++) { int j, on = 0; for (j = 0; j < p->k; j ++) if (p->r[j] == i % p->n && p->c[j] == i / p->n) on = 1; out ("%d\n", on ? 1 : 0); if (on) { q.r[q.k] = i % p->n; q.c[q.k ++] = i / p->n; } }
    xp (&xd, &q, 1); import (&xd, SCOTCH_graphGeomLoadMmkt, NULL, 0, "Matrix Market, dense"); free (xd.e);
    bl = 0; out ("%%%%MatrixMarket matrix coordinate pattern general\n%d %d %d\n", p->n, p->n + 1, p->k); for (i = 0; i < p->k; i ++) out ("%d %d\n", p->r[i] + 1, p->c[i] + 1); out ("%s", ""); 
    import (NULL, SCOTCH_graphGeomLoadMmkt, NULL, 0, "Matrix Market, rectangular");
  }
}
/* Harwell-Boeing text of one matrix */
static void habonum (const int *t, int n, int per, int len, int skip, int pad) { int i; for (i = 0; i < n; i ++) { if (i % per == 0) out ("%*s", skip, ""); out ("%*d", len, t[i]); if (i % per == per - 1 || i == n - 1) { if (pad) { int c = skip + len * (i % per + 1); if (c < 80) out ("%*s", 80 - c, ""); } out ("\n"); } } }
static const struct { int per, len, skip; const char *f; } hf[] = { { 16, 5, 0, "(16I5)" }, { 3, 4, 0, "(3I4)" }, { 26, 3, 0, "(26i3)" }, { 1, 8, 0, "(I8)" }, { 10, 8, 0, "(10I8.8)" }, { 4, 3, 2, "(2X,4I3)" }, { 2, 6, 1, "(1x,2i6)" }, { 1, 2, 0, " (1I2)" } };
static int haboone (const P *p, int var, int elem, int nelt) {
  int fc = var % 8, fr = (var / 8) % 8, ty = (var / 64) % 4, rhs = (var / 256) % 2, pad = (var / 512) % 2, val = (var / 1024) % 2; int ptr[100], ind[400], i, j, k = 0, nc, nr, nv; static const char *tyt[] = { "RSA", "PUA", "CSA", "pua" }, *tye[] = { "RSE", "PUE", "CSE", "pse" };
  for (j = 0; j < (elem ? nelt : p->n); j ++) { ptr[j] = k + 1; for (i = 0; i < p->k; i ++) if (p->c[i] == j) ind[k ++] = p->r[i] + 1; }
  ptr[j ++] = k + 1; 
  if (hf[fc].len < 2 && k > 8) return 0; if (hf[fr].len < 2 && p->n > 8) return 0;
  if (ty == 1 || ty == 3) val = 0;
  nc = (j + hf[fc].per - 1) / hf[fc].per; nr = (k + hf[fr].per - 1) / hf[fr].per; nv = val ? (k + 3) / 4 : 0;
  out ("%-72s%-8s\n", "A matrix  with 12 34 numbers in its title", "KEY 7");
  out ("%14d%14d%14d%14d", nc + nr + nv + rhs, nc, nr, nv); if (rhs || (var & 1)) out ("%14d%*s", rhs, pad * 10, ""); out ("\n");
  out ("%-14s%14d%14d%14d", (elem ? tye : tyt)[ty], p->n, elem ? nelt : p->n, k); if (elem || (var & 2)) out ("%14d", elem ? k : 0); out ("\n");
  out ("%-16s%-16s%-20s%-20s\n", hf[fc].f, hf[fr].f, "(4E16.8)", rhs ? "(4E16.8)" : "");
  if (rhs) out ("F             %14d%14d\n", 1, 0);
  habonum (ptr, j, hf[fc].per, hf[fc].len, hf[fc].skip, pad); habonum (ind, k, hf[fr].per, hf[fr].len, hf[fr].skip, pad);
  for (i = 0; i < (val ? k : 0); i ++) out ("%16.8E%s", 1.5 + i, (i % 4 == 3 || i == k - 1) ? "\n" : "");
  if (rhs) out ("%16.8E\n", 3.5);
  return 1;
}
static void habocase (const P *p, int big) {
  X x; int v, v2; P o; static const char *tag[] = { "0", "1", "2" }; char what[100];
  xp (&x, p, 1); pmask (&o, 2, 7);
  for (v = 0; v < 2048 && ! mc_failed (); v += big ? 1 : 37) {
    bl = 0; v2 = big ? v : (v + 11 * p->k + 3 * p->n) % 2048; if (! haboone (p, v2, 0, 0)) continue;
    snprintf (what, sizeof (what), "Harwell-Boeing, variant %d", v2);
    import (&x, SCOTCH_graphGeomLoadHabo, (v & 1) ? NULL : "0", 1, what);
    if (v % 5 == 0) { crlf (); import (&x, SCOTCH_graphGeomLoadHabo, "", 1, "Harwell-Boeing, carriage returns"); }
    if (v % 3 == 0) { int t; for (t = 1; t < 3; t ++) { bl = 0; haboone (&o, v2 ^ 1289, 0, 0); if (t == 2) haboone (&o, v2 ^ 300, 0, 0); haboone (p, v2, 0, 0); haboone (&o, v2, 0, 0); snprintf (what, sizeof (what), "Harwell-Boeing, matrix %d of a file, variant %d", t, v2); import (&x, SCOTCH_graphGeomLoadHabo, tag[t], 1, what); } }
  }
  free (x.e);
}

/* ---- meshes: entries (r node, c element) */
static void mimport (const P *p, int ne, const char *str, const char *what, SCOTCH_Mesh *have) {
  SCOTCH_Mesh me, *mp = have ? have : &me; SCOTCH_Geom ge; FILE *f; int r = 0, e, j; Num eb, nb, nel, nno, m, dg, *vert, *vend, *velo, *vnlo, *vlbl, *edge, k, base = 1;
  if (mc_failed ()) return;
  if (! have) { f = fmemopen (B, bl, "r"); SCOTCH_meshInit (&me); SCOTCH_geomInit (&ge); mc_ops (1); r = SCOTCH_meshGeomLoadHabo (&me, &ge, f, NULL, str); fclose (f); }
  if (r != 0) { mc_fail ("%s: file refused: %s", what, shown ()); SCOTCH_geomExit (&ge); SCOTCH_meshExit (&me); return; }
  SCOTCH_meshData (mp, &eb, &nb, &nel, &nno, &vert, &vend, &velo, &vnlo, &vlbl, &m, &edge, &dg);
  if (SCOTCH_meshCheck (mp) != 0) mc_fail ("%s: imported mesh does not pass the check: %s", what, shown ());
  else if (nel != ne || nno != p->n || m != 2 * p->k) mc_fail ("%s: %d elements, %d nodes, %d arcs: %s", what, (int) nel, (int) nno, (int) m, shown ());
  else if (nb != base || eb != base + nno) mc_fail ("%s: elements start at %d, nodes at %d: %s", what, (int) eb, (int) nb, shown ());
  else {
    unsigned char *in = calloc (ne * p->n + 1, 1), *no = calloc (ne * p->n + 1, 1), *ex = calloc (ne * p->n + 1, 1);
    for (j = 0; j < p->k; j ++) ex[p->c[j] * p->n + p->r[j]] ++;
    for (e = 0; e < ne + p->n && ! mc_failed (); e ++) { Num x = e < ne ? eb + e : nb + e - ne; for (k = vert[x - base]; k < (vend ? vend[x - base] : vert[x - base + 1]); k ++) { Num t = edge[k - base] - (e < ne ? nb : eb); if (t < 0 || t >= (e < ne ? p->n : ne)) { mc_fail ("%s: arc out of range: %s", what, shown ()); break; } if (e < ne) in[e * p->n + t] ++; else no[t * p->n + e - ne] ++; } }
    if (! mc_failed () && (memcmp (in, ex, ne * p->n) || memcmp (no, ex, ne * p->n))) mc_fail ("%s: adjacency differs: %s", what, shown ());
    mc_state (mc_hash (ne * 100 + p->n, in, ne * p->n)); free (in); free (no); free (ex);
  }
  if (! have) { SCOTCH_geomExit (&ge); SCOTCH_meshExit (&me); }
}
static void mhabocase (const P *p, int ne, int big) {
  int v, v2; P o; char what[100]; static const char *tag[] = { "0", "1", "2" };
  pmask (&o, 2, 7);
  for (v = 0; v < 2048 && ! mc_failed (); v += big ? 1 : 37) {
    bl = 0; v2 = big ? v : (v + 11 * p->k + 3 * ne) % 2048; if (! haboone (p, v2, 1, ne)) continue;
    snprintf (what, sizeof (what), "elemental Harwell-Boeing, variant %d", v2);
    mimport (p, ne, (v & 1) ? NULL : "0", what, NULL);
    if (v % 5 == 0) { crlf (); mimport (p, ne, "", "elemental Harwell-Boeing, carriage returns", NULL); }
    if (v % 3 == 0) { int t; for (t = 1; t < 3; t ++) { bl = 0; haboone (&o, v2 ^ 1289, 1, 2); if (t == 2) haboone (&o, v2 ^ 300, 1, 2); haboone (p, v2, 1, ne); haboone (&o, v2, 1, 2); snprintf (what, sizeof (what), "elemental Harwell-Boeing, matrix %d of a file, variant %d", t, v2); mimport (p, ne, tag[t], what, NULL); } }
  }
}

/* ---- geometry */
static double co (int v, int d) { static const double t[] = { 0.0, 1.0, -1.0, 0.5, 1024.25, -3.125, 1e6 }; return t[(v * 3 + d * 2) % 7] + v; }
static int geomread (SCOTCH_Geom *ge, int n, int dim, int off, const char *what) {
  Num d; double *t; int i, k;
  SCOTCH_geomData (ge, &d, &t);
  if (d != dim) { mc_fail ("%s: dimension %d instead of %d: %s", what, (int) d, dim, shown ()); return 1; }
  for (i = 0; i < n; i ++) for (k = 0; k < dim; k ++) if (t[(off + i) * dim + k] != co (i, k)) { mc_fail ("%s: coordinate %d of vertex %d is %g instead of %g: %s", what, k, i, t[(off + i) * dim + k], co (i, k), shown ()); return 1; }
  return 0;
}
/* order: 0 ascending, 1 descending, 2 shuffled; extra: lines for vertices which do not exist (below, between, above) */
static void geomout (int n, const Num *lbl, int dim, int var) {
  int ord = var % 3, ex = (var / 3) % 3, sty = (var / 9) % 2, i, j, k; Num mx = 0, mn = 0;
  for (i = 0; i < n; i ++) { if (i == 0 || lbl[i] > mx) mx = lbl[i]; if (i == 0 || lbl[i] < mn) mn = lbl[i]; }
  bl = 0; out (sty ? "%d\n%d\n" : "  %d %d\n", dim, n + ex);
  if (ex) { out ("%d", (int) (ord == 1 ? mx + 3 : mn - 2)); for (k = 0; k < dim; k ++) out (" 77.0"); out ("\n"); }
  for (i = 0; i < n; i ++) { j = ord == 1 ? n - 1 - i : ord == 2 ? ((n % 3) ? (i * 3 + 1) % n : i) : i; out ("%d", (int) lbl[j]); for (k = 0; k < dim; k ++) out (sty ? "\t%.10e" : " %.6f", co (j, k)); out ("\n"); }
  if (ex == 2) { out ("%d", (int) (ord == 1 ? mn - 4 : mx + 1)); for (k = 0; k < dim; k ++) out (" -77"); out ("\n"); }
}
static void ggeomcase (const G *g) {
  SCOTCH_Graph gr, g2; SCOTCH_Geom ge, ge2; Num lbl[300]; int dim, v, i, mode; FILE *f, *h; char *a = NULL, *b = NULL; size_t la, lb; X x;
  for (i = 0; i < g->n; i ++) lbl[i] = g->vlbl ? g->vlbl[i] : g->base + i;
  xg (&x, g, g->base, g->vlbl != NULL, g->velo != NULL, g->edlo != NULL); if (g->vlbl) for (i = 0; i < g->n; i ++) x.lbl[i] = g->vlbl[i];
  g_build (g, &gr);
  for (dim = 1; dim <= 3 && ! mc_failed (); dim ++) for (v = 0; v < 18 && ! mc_failed (); v ++) {
    geomout (g->n, lbl, dim, v); SCOTCH_geomInit (&ge); mc_ops (1);
    f = fmemopen (B, bl, "r"); i = SCOTCH_graphGeomLoadScot (&gr, &ge, NULL, f, NULL); fclose (f);
    if (i != 0) mc_fail ("geometry refused: %s", shown ());
    else if (g->n > 0 && geomread (&ge, g->n, dim, 0, "graph geometry") == 0) {
      f = open_memstream (&a, &la); h = open_memstream (&b, &lb); mc_ops (1);
      if (SCOTCH_graphGeomSaveScot (&gr, &ge, f, h, NULL) != 0) mc_fail ("graph and geometry not saved");
      fclose (f); fclose (h);
      for (mode = 0; mode < 2 && ! mc_failed (); mode ++) {              /* into a fresh geometry, into the one in use */
        SCOTCH_graphInit (&g2); SCOTCH_geomInit (&ge2); f = fmemopen (a, la, "r"); h = fmemopen (b, lb, "r"); mc_ops (1);
        memcpy (B, b, lb + 1); bl = lb;
        if (SCOTCH_graphGeomLoadScot (&g2, mode ? &ge : &ge2, f, h, NULL) != 0) mc_fail ("saved graph and geometry refused: %s", shown ());
        else { cmp (&x, &g2, "graph saved with geometry"); if (! mc_failed ()) geomread (mode ? &ge : &ge2, g->n, dim, 0, "saved geometry"); }
        fclose (f); fclose (h); SCOTCH_graphExit (&g2); SCOTCH_geomExit (&ge2);
      }
      free (a); free (b); a = b = NULL;
    }
    SCOTCH_geomExit (&ge);
  }
  SCOTCH_graphExit (&gr); free (x.e);
}
static void mgeomcase (const M *m) {
  SCOTCH_Mesh me, m2; SCOTCH_Geom ge, ge2; Num lbl[300]; int dim, v, i; FILE *f, *h; char *a = NULL, *b = NULL; size_t la, lb;
  for (i = 0; i < m->nn; i ++) lbl[i] = m->vlbl ? m->vlbl[m->vnodbas - m->base + i] : m->vnodbas + i;
  m_build (m, &me);
  for (dim = 1; dim <= 3 && ! mc_failed (); dim ++) for (v = 0; v < 18 && ! mc_failed (); v ++) {
    geomout (m->nn, lbl, dim, v); SCOTCH_geomInit (&ge); mc_ops (1);
    f = fmemopen (B, bl, "r"); i = SCOTCH_meshGeomLoadScot (&me, &ge, NULL, f, NULL); fclose (f);
    if (i != 0) mc_fail ("mesh geometry refused: %s", shown ());
    else if (m->nn > 0 && geomread (&ge, m->nn, dim, 0, "mesh geometry") == 0) {
      f = open_memstream (&a, &la); h = open_memstream (&b, &lb); mc_ops (1);
      if (SCOTCH_meshGeomSaveScot (&me, &ge, f, h, NULL) != 0) mc_fail ("mesh and geometry not saved");
      fclose (f); fclose (h);
      SCOTCH_meshInit (&m2); SCOTCH_geomInit (&ge2); f = fmemopen (a, la, "r"); h = fmemopen (b, lb, "r"); mc_ops (1);
      memcpy (B, b, lb + 1); bl = lb;
      if (SCOTCH_meshGeomLoadScot (&m2, &ge2, f, h, NULL) != 0) mc_fail ("saved mesh and geometry refused: %s", shown ());
      else { if (SCOTCH_meshCheck (&m2) != 0) mc_fail ("saved mesh does not pass the check"); geomread (&ge2, m->nn, dim, 0, "saved mesh geometry"); }
      fclose (f); fclose (h); SCOTCH_meshExit (&m2); SCOTCH_geomExit (&ge2); free (a); free (b); a = b = NULL;
    }
    SCOTCH_geomExit (&ge);
  }
  SCOTCH_meshExit (&me);
}

static int big;
static void graphs (Shape *s, int bases, void (*fn) (const G *), const char *nm) {
  static const int bs[] = { 1, 0, 5 }; static const int lks[] = { 0, 1, 3, 2 }; int b, lay, vk, ek, lk; G g;
  for (b = 0; b < bases; b ++) for (vk = 0; vk < 3; vk ++) for (ek = 0; ek < 2; ek ++) for (lk = 0; lk < 4; lk ++) {
    lay = (b + vk + ek + lk) % LAY_NBR;
    if (mc_skip ()) continue;
    g_make (&g, s, bs[b], lay, vk, ek, lks[lk]);
    if (mc_case ("%s %s", nm, g.desc)) { SCOTCH_randomReset (); if (g.m > 0) mc_nontrivial (); fn (&g); if (! g_same (&g)) mc_fail ("graph arrays modified"); }
    g_exit (&g);
  }
}
void mc_run (void) {
  int set = atoi (getenv ("MC_SET") ? getenv ("MC_SET") : "1"), n, i, first, lk, base, ne; u64 mask; Shape s; P p;
  big = mc_thorough;
  sh_init (&s);
  if (set == 1 || set == 5) {
    for (n = 0; n <= (set == 1 ? 4 : 3); n ++) for (mask = 0; mask < ((u64) 1 << sh_maskbits (n)); mask ++) { sh_mask (&s, n, mask); graphs (&s, (set == 5 || big) ? 3 : n < 4 ? 2 : 1, set == 1 ? chaccase : ggeomcase, set == 1 ? "Chaco" : "geometry"); }
    for (n = 5; n <= (big ? 6 : 5); n ++) for (i = 0; sh_atlas (&s, n, i); i ++) graphs (&s, big ? 3 : 1, set == 1 ? chaccase : ggeomcase, set == 1 ? "Chaco" : "geometry");
    for (i = 0; sh_family (&s, i, 0); i ++) if (s.n <= 30) graphs (&s, 1, set == 1 ? chaccase : ggeomcase, set == 1 ? "Chaco" : "geometry");
  }
  if (set == 2 || set == 3) {
    for (n = 0; n <= 4; n ++) for (mask = 0; mask < ((u64) 1 << (n * n)); mask ++) {
      int full = (n < 3) || (n == 3 && big); if (n == 4 && ! big && (mask % 13) != 5) continue;
      if (mc_skip ()) continue;
      pmask (&p, n, mask);
      if (mc_case ("%s pattern n=%d mask=%llx", set == 2 ? "Matrix Market" : "Harwell-Boeing", n, (unsigned long long) mask)) { if (p.k) mc_nontrivial (); if (set == 2) mmktcase (&p, full); else habocase (&p, full); }
    }
    for (i = 0; sh_family (&s, i, 0); i ++) if (s.n <= 40 && s.m <= 190) {
      int j; if (mc_skip ()) continue;
      p.n = s.n; p.k = 0; for (j = 0; j < s.m; j ++) { p.r[p.k] = s.e[j][j & 1]; p.c[p.k ++] = s.e[j][1 - (j & 1)]; } for (j = 0; j < s.n && p.k < 399; j += 2) { p.r[p.k] = p.c[p.k] = j; p.k ++; }
      if (mc_case ("%s pattern of %s", set == 2 ? "Matrix Market" : "Harwell-Boeing", s.name)) { mc_nontrivial (); if (set == 2) mmktcase (&p, 1); else habocase (&p, 0); }
    }
    if (set == 2) {                                                       /* export of graphs */
      for (n = 0; n <= 5; n ++) for (mask = 0; mask < ((u64) 1 << sh_maskbits (n)); mask ++) for (base = 0; base < 2; base ++) for (lk = 0; lk < 3; lk ++) {
        G g; SCOTCH_Graph gr; FILE *f; char *b = NULL; size_t l; X x; int j;
        if (mc_skip ()) continue;
        sh_mask (&s, n, mask); g_make (&g, &s, base, (int) (mask % LAY_NBR), 0, 0, lk == 2 ? 3 : lk);
        if (mc_case ("Matrix Market export %s", g.desc)) {
          g_build (&g, &gr); f = open_memstream (&b, &l); mc_ops (1); if (g.m) mc_nontrivial ();
          if (SCOTCH_graphGeomSaveMmkt (&gr, NULL, f, NULL, NULL) != 0) mc_fail ("not exported");
          fclose (f); memcpy (B, b, l + 1); bl = l; free (b); SCOTCH_graphExit (&gr);
          xinit (&x, n, 1); for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) if (g.ew[(size_t) i * n + j]) { int u = g.vlbl ? g.vlbl[i] - base : i, v = g.vlbl ? g.vlbl[j] - base : j; x.e[u * n + v] = 1; }
          import (&x, SCOTCH_graphGeomLoadMmkt, NULL, 1, "Matrix Market export"); free (x.e);
        }
        g_exit (&g);
      }
    }
  }
  if (set == 4) for (ne = 0; ne <= 4; ne ++) for (n = 0; n <= (ne <= 3 ? 4 : 3); n ++) for (mask = 0; mask < ((u64) 1 << (ne * n)); mask ++) {
    if (ne * n == 12 && ! big && mask % 11 != 3) continue;
    if (mc_skip ()) continue;
    p.n = n; p.k = 0; for (i = 0; i < ne * n; i ++) if ((mask >> i) & 1) { p.r[p.k] = i % n; p.c[p.k ++] = i / n; }
    if (mc_case ("elemental Harwell-Boeing ne=%d nn=%d mask=%llx", ne, n, (unsigned long long) mask)) { if (p.k) mc_nontrivial (); mhabocase (&p, ne, ne * n <= 4 || big); }
  }
  if (set == 5) {
    M m; for (ne = 1; ne <= 3; ne ++) for (n = 1; n <= 3; n ++) for (mask = 0; mask < ((u64) 1 << (ne * n)); mask += (ne * n == 9 && ! big) ? 7 : 1) for (first = 0; first < 2; first ++) for (lk = 0; lk < 2; lk ++) for (base = 0; base < 2; base ++) {
      if (mc_skip ()) continue;
      m_make (&m, ne, n, mask, base, first, (int) (mask & 3), 0, 0, lk);
      if (mc_case ("geometry %s", m.desc)) { mc_nontrivial (); mgeomcase (&m); }
      m_exit (&m);
    }
  }
  sh_exit (&s);
}
