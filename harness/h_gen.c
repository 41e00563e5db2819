/* Generators of graphs, meshes and targets (38): every program x dimensions x options, against independent definitions of the families. */
#include "prog.h"
#include "gspace.h"
#include "scotch.h"

/* --- reading of graph files --- */
typedef struct { long n, m, base; int *deg; unsigned char *a; int *mul; } GF;
static void gf_exit (GF *g) { free (g->deg); free (g->a); g->deg = NULL; g->a = NULL; }
static int gf_read (GF *g, Tk *t, long nmax) {                /* unweighted, unlabelled graph: adjacency matrix with multiplicities */
  long i, j, k, d, f, tot = 0;
  g->deg = NULL; g->a = NULL;
  if (tk_num (t) != 0) { mc_fail ("not a graph file (version)"); return 0; }
  g->n = tk_num (t); g->m = tk_num (t); g->base = tk_num (t); f = tk_num (t);
  if (t->bad || g->n < 0 || g->n > nmax || f != 0) { mc_fail ("bad header (%ld vertices, %ld arcs, base %ld, flags %ld)", g->n, g->m, g->base, f); return 0; }
  g->deg = calloc (g->n + 1, sizeof (int)); g->a = calloc (g->n * g->n + 1, 1);
  for (i = 0; i < g->n; i ++) {
    d = tk_num (t); if (t->bad || d < 0 || d > g->n) { mc_fail ("bad degree of vertex %ld", i); return 0; }
    tot += g->deg[i] = d;
    for (k = 0; k < d; k ++) {
      j = tk_num (t) - g->base;
      if (t->bad || j < 0 || j >= g->n) { mc_fail ("bad neighbor %ld of vertex %ld", j, i); return 0; }
      if (g->a[i * g->n + j]) { mc_fail ("neighbor %ld twice around vertex %ld", j, i); return 0; }
      g->a[i * g->n + j] = 1;
    }
  }
  if (tot != g->m) { mc_fail ("%ld arcs announced, %ld written", g->m, tot); return 0; }
  return 1;
}
typedef int (*Adj) (long, long, const int *);
static int gf_match (const GF *g, long n, long base, Adj adj, const int *d) {
  long i, j;
  if (g->n != n) { mc_fail ("%ld vertices for %ld", g->n, n); return 0; }
  if (g->base != base) { mc_fail ("base %ld for %ld", g->base, base); return 0; }
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++)
    if ((g->a[i * n + j] != 0) != (adj (i, j, d) != 0)) { mc_fail ("edge %ld-%ld is %s", i, j, g->a[i * n + j] ? "superfluous" : "missing"); return 0; }
  return 1;
}
static int loads (const char *text, int mesh) {                /* the library accepts the file, and its checker too */
  FILE *f; int o; SCOTCH_Graph g; SCOTCH_Mesh m;
  pr_write ("t.load", text); f = pr_open ("t.load", "r");
  if (mesh) { SCOTCH_meshInit (&m); o = SCOTCH_meshLoad (&m, f, -1); if (o == 0) o = 2 * SCOTCH_meshCheck (&m); SCOTCH_meshExit (&m); }
  else { SCOTCH_graphInit (&g); o = SCOTCH_graphLoad (&g, f, -1, 0); if (o == 0) o = 2 * SCOTCH_graphCheck (&g); SCOTCH_graphExit (&g); }
  if (o == 0) { int c; while ((c = getc (f)) == ' ' || c == '\n' || c == '\t'); ungetc (c, f); }
  fclose (f); mc_ops (1);
  if (o != 0) mc_fail ("the file written is %s by the library (%s)", (o == 1) ? "refused" : "found inconsistent", mc_errbuf);
  return o == 0;
}

/* --- families --- */
static int gap (int a, int b, int d, int torus) {              /* 0 same, 1 next to each other along one dimension, 2 farther */
  int x = abs (a - b); if (x == 0) return 0;
  return (x == 1 || (torus && x == d - 1)) ? 1 : 2;
}
static int adj_m2 (long i, long j, const int *d) {             /* d: dimX, dimY, torus, 8 neighbors */
  int x = gap (i % d[0], j % d[0], d[0], d[2]), y = gap (i / d[0], j / d[0], d[1], d[2]);
  return i != j && (d[3] ? (x <= 1 && y <= 1) : (x + y == 1));
}
static int adj_m3 (long i, long j, const int *d) {             /* d: dimX, dimY, dimZ, torus */
  int x = gap (i % d[0], j % d[0], d[0], d[3]), y = gap (i / d[0] % d[1], j / d[0] % d[1], d[1], d[3]), z = gap (i / d[0] / d[1], j / d[0] / d[1], d[2], d[3]);
  return x + y + z == 1;
}
static int adj_hy (long i, long j, const int *d) { long k = i ^ j; return k && (k & (k - 1)) == 0; }
static int succ (long i, long j, int d) { return ((i << 1) & ((1 << d) - 1)) == (j & ~1L); }
static int adj_ub2 (long i, long j, const int *d) { return i != j && (succ (i, j, d[0]) || succ (j, i, d[0])); }
static int adj_ccc (long i, long j, const int *d) {
  int n = d[0], l = i >> n, m = i & ((1 << n) - 1), l2 = j >> n, m2 = j & ((1 << n) - 1);
  if (i == j) return 0;
  return (m == m2) ? (abs (l - l2) == 1 || abs (l - l2) == n - 1) : (l == l2 && (m ^ m2) == (1 << l));
}
static int adj_fft (long i, long j, const int *d) {
  int n = d[0], l = i >> n, m = i & ((1 << n) - 1), l2 = j >> n, m2 = j & ((1 << n) - 1), t;
  if (l > l2) { t = l; l = l2; l2 = t; }
  return l2 == l + 1 && (m == m2 || (m ^ m2) == (1 << l));
}

/* Geometry: n lines "label coordinates" */
static int geom (Tk *t, int dim, long n, long base, void (*at) (long, const int *, double *), const int *d) {
  long i; int k; double x[3];
  if (tk_num (t) != dim || tk_num (t) != n || t->bad) { mc_fail ("bad geometry header"); return 0; }
  for (i = 0; i < n; i ++) {
    at (i, d, x);
    if (tk_num (t) != i + base) { mc_fail ("bad label in the %ld-th line of the geometry", i); return 0; }
    for (k = 0; k < dim; k ++) { double y = tk_real (t); if (t->bad || y != x[k]) { mc_fail ("coordinate %d of vertex %ld is %g for %g", k, i, y, x[k]); return 0; } }
  }
  return 1;
}
static void at_m2 (long i, const int *d, double *x) { x[0] = i % d[0]; x[1] = d[4] ? d[1] - 1 - i / d[0] : i / d[0]; }
static void at_m3 (long i, const int *d, double *x) { x[0] = i % d[0]; x[1] = i / d[0] % d[1]; if (d[4]) x[1] = d[1] - 1 - x[1]; x[2] = i / d[0] / d[1]; }
static void at_mm2 (long i, const int *d, double *x) {
  int e = d[0] * d[1];
  if (i < e) { x[0] = i % d[0] + .5; x[1] = d[1] - 1 - i / d[0] + .5; }
  else { i -= e; x[0] = i % (d[0] + 1); x[1] = d[1] - i / (d[0] + 1); }
}
static void at_mm3 (long i, const int *d, double *x) {
  int e = d[0] * d[1] * d[2];
  if (i < e) { x[0] = i % d[0] + .5; x[1] = d[1] - 1 - i / d[0] % d[1] + .5; x[2] = i / d[0] / d[1] + .5; }
  else { i -= e; x[0] = i % (d[0] + 1); x[1] = d[1] - i / (d[0] + 1) % (d[1] + 1); x[2] = i / (d[0] + 1) / (d[1] + 1); }
}

static int ctr;
static const char *pick (const char *a, const char *b) { return (ctr ++ & 1) ? b : a; }

/* --- grids --- */
static void grid (int dim, const int *d, int torus, int five, int base, int y, int geo, int file) {   /* geo: 0 none, 1 file, 2 standard output, 3 named standard output */
  char c[400], dd[60]; int k = 0, st, v[6]; Tk t; GF g; char *gt = NULL; long n = (long) d[0] * d[1] * (dim == 3 ? d[2] : 1);
  const char *nm = (dim == 2) ? "gmk_m2" : "gmk_m3";
  int pos;
  ctr = d[0] + 2 * d[1] + torus + geo + base + 1; pos = ctr % 3;
  if (dim == 2 && d[1] == 1 && ! file && (ctr & 2)) snprintf (dd, sizeof (dd), "%d", d[0]);     /* dimensions left out are equal to one */
  else if (dim == 2) snprintf (dd, sizeof (dd), "%d %d", d[0], d[1]);
  else snprintf (dd, sizeof (dd), "%d %d %d", d[0], d[1], d[2]);
  k = snprintf (c, sizeof (c), "%s", nm);
  if (pos == 0) k += snprintf (c + k, sizeof (c) - k, " %s", dd);
  if (torus) k += snprintf (c + k, sizeof (c) - k, " %s", pick ("-t", "-T"));
  if (five) k += snprintf (c + k, sizeof (c) - k, " %s", pick ("-e", "-E"));
  if (y) k += snprintf (c + k, sizeof (c) - k, " %s", pick ("-y", "-Y"));
  if (pos == 1) k += snprintf (c + k, sizeof (c) - k, " %s", dd);
  if (geo) k += snprintf (c + k, sizeof (c) - k, " %s%s", pick ("-g", "-G"), (geo == 1) ? "t.xyz" : (geo == 2) ? "" : "-");
  if (base >= 0) k += snprintf (c + k, sizeof (c) - k, " %s%d", pick ("-b", "-B"), base);
  if (pos == 2) k += snprintf (c + k, sizeof (c) - k, " %s", dd);
  if (file) k += snprintf (c + k, sizeof (c) - k, " t.grf");
  if (! mc_case ("%s", c)) return;
  pr_unlink ("t.grf"); pr_unlink ("t.xyz");
  st = pr_run ("%s", c); if (! pr_ok (st)) return;
  memset (&t, 0, sizeof (t)); t.p = gt = file ? pr_read ("t.grf") : strdup (pr_out);
  if (gt == NULL) { mc_fail ("no graph file written"); return; }
  if (! loads (gt, 0)) { free (gt); return; }
  v[0] = d[0]; v[1] = d[1]; v[4] = y;
  if (dim == 2) { v[2] = torus; v[3] = five; } else { v[2] = d[2]; v[3] = torus; }
  if (gf_read (&g, &t, 5000) && gf_match (&g, n, (base > 0) ? 1 : 0, (dim == 2) ? adj_m2 : adj_m3, v)) {
    if (n > 1) mc_nontrivial (); mc_state (mc_hash (n, g.a, n * n));
    if (geo && (geo == 1 || file)) {
      char *x; Tk s = { 0 };
      if (! tk_end (&t)) mc_fail ("the graph file goes on after the graph");
      s.p = x = (geo == 1) ? pr_read ("t.xyz") : strdup (pr_out);
      if (x == NULL) mc_fail ("no geometry file written");
      else if (geom (&s, dim, n, g.base, (dim == 2) ? at_m2 : at_m3, v) && ! tk_end (&s)) mc_fail ("the geometry file goes on");
      free (x);
    }
    else if (geo) geom (&t, dim, n, g.base, (dim == 2) ? at_m2 : at_m3, v);
    if (! mc_failed () && (geo == 0 || geo >= 2) && ! (geo && file) && ! tk_end (&t)) mc_fail ("the output goes on after its end");
    if (! geo && file && pr_out[0]) mc_fail ("something was written on the standard output");
  }
  gf_exit (&g); free (gt);
}

/* --- other graphs --- */
static void onegraph (const char *nm, int d, Adj adj, int file) {
  GF g; Tk t = { 0 }; char *x; int v[1] = { d };
  if (! mc_case ("%s %d %s", nm, d, file ? "to a file" : "")) return;
  if (! pr_ok (file ? pr_run ("%s %d t.grf", nm, d) : pr_run ("%s %d", nm, d))) return;
  t.p = x = file ? pr_read ("t.grf") : strdup (pr_out);
  if (loads (x, 0) && gf_read (&g, &t, 5000)) { if (gf_match (&g, 1L << d, 0, adj, v) && ! tk_end (&t)) mc_fail ("the file goes on after the graph"); mc_nontrivial (); mc_state (mc_hash (d, g.a, g.n * g.n)); gf_exit (&g); }
  free (x);
}

/* --- meshes --- */
static void mesh (int dim, const int *d, int geo, int file) {
  char c[300], dd[60]; int k = 0, i, j, q, ne, nn, bad = 0; Tk t = { 0 }; char *x; unsigned char *inc; long vn, vm, vedg, eb, nb, base, f, arcs = 0, r;
  ne = d[0] * d[1] * (dim == 3 ? d[2] : 1); nn = (d[0] + 1) * (d[1] + 1) * (dim == 3 ? d[2] + 1 : 1);
  if (dim == 2 && d[1] == 1 && ! file) snprintf (dd, sizeof (dd), "%d", d[0]);
  else if (dim == 2) snprintf (dd, sizeof (dd), "%d %d", d[0], d[1]);
  else if (d[2] == 1 && ! file) snprintf (dd, sizeof (dd), "%d %d", d[0], d[1]);
  else snprintf (dd, sizeof (dd), "%d %d %d", d[0], d[1], d[2]);
  ctr = d[0] + d[1] + geo;
  k = snprintf (c, sizeof (c), "%s", (dim == 2) ? "mmk_m2" : "mmk_m3");
  if (ctr % 2 == 0) k += snprintf (c + k, sizeof (c) - k, " %s", dd);
  if (geo) k += snprintf (c + k, sizeof (c) - k, " %s%s", pick ("-g", "-G"), (geo == 1) ? "t.xyz" : (geo == 2) ? "" : "-");
  ctr = d[0] + d[1] + geo;
  if (ctr % 2 == 1) k += snprintf (c + k, sizeof (c) - k, " %s", dd);
  if (file) k += snprintf (c + k, sizeof (c) - k, " t.msh");
  if (! mc_case ("%s", c)) return;
  pr_unlink ("t.msh"); pr_unlink ("t.xyz");
  if (! pr_ok (pr_run ("%s", c))) return;
  t.p = x = file ? pr_read ("t.msh") : strdup (pr_out);
  if (x == NULL) { mc_fail ("no mesh file written"); return; }
  if (! loads (x, 1)) { free (x); return; }
  if (tk_num (&t) != 1) mc_fail ("not a mesh file");
  vm = tk_num (&t); vn = tk_num (&t); vedg = tk_num (&t); eb = tk_num (&t); nb = tk_num (&t); f = tk_num (&t);
  if (mc_failed () || t.bad || vm != ne || vn != nn || f != 0) { mc_fail ("header: %ld elements, %ld nodes, flags %ld", vm, vn, f); free (x); return; }
  base = (eb < nb) ? eb : nb;
  if (nb != eb + ne && eb != nb + nn) { mc_fail ("element base %ld and node base %ld", eb, nb); free (x); return; }
  inc = calloc (ne * nn, 1);
  for (q = 0; q < 2 && ! bad; q ++) {                          /* both lists, in the order of their numbers */
    int el = (q == 0) == (eb < nb), cnt = el ? ne : nn, oth = el ? nn : ne;
    for (i = 0; i < cnt && ! bad; i ++) {
      k = tk_num (&t); arcs += k;
      for (j = 0; j < k && ! bad; j ++) {
        r = tk_num (&t) - base;                                /* ends are numbered within their own kind */
        if (t.bad || r < 0 || r >= oth) bad = 1;
        else { unsigned char *p = &inc[el ? i * nn + r : r * nn + i]; if (*p & (1 << q)) bad = 1; *p |= 1 << q; }
      }
    }
  }
  if (bad) { mc_fail ("bad adjacency of vertex of rank %d", i - 1); free (x); free (inc); return; }
  if (arcs != vedg) mc_fail ("%ld arcs announced, %ld written", vedg, arcs);
  for (i = 0; i < ne && ! mc_failed (); i ++) for (j = 0; j < nn; j ++) {
    int ex = i % d[0], ey = i / d[0] % d[1], ez = i / d[0] / d[1], nx = j % (d[0] + 1), ny = j / (d[0] + 1) % (d[1] + 1), nz = j / (d[0] + 1) / (d[1] + 1);
    int in = (nx == ex || nx == ex + 1) && (ny == ey || ny == ey + 1) && (dim == 2 || nz == ez || nz == ez + 1);
    if (inc[i * nn + j] != (in ? 3 : 0)) { mc_fail ("element %d and node %d: incidence %d for %d", i, j, inc[i * nn + j], in ? 3 : 0); break; }
  }
  mc_nontrivial (); mc_state (mc_hash (ne, inc, (size_t) ne * nn));
  free (inc);
  if (geo && (geo == 1 || file) && ! mc_failed ()) {
    Tk s = { 0 }; char *y; s.p = y = (geo == 1) ? pr_read ("t.xyz") : strdup (pr_out);
    if (y == NULL) mc_fail ("no geometry written");
    else if (geom (&s, dim, ne + nn, 0, (dim == 2) ? at_mm2 : at_mm3, d) && ! tk_end (&s)) mc_fail ("the geometry file goes on");
    free (y);
    if (! tk_end (&t)) mc_fail ("the mesh file goes on after the mesh");
  }
  else if (geo && ! mc_failed ()) geom (&t, dim, ne + nn, 0, (dim == 2) ? at_mm2 : at_mm3, d);
  if (! mc_failed () && ! tk_end (&t)) mc_fail ("the output goes on after its end");
  free (x);
}

/* --- targets given as decompositions --- */
typedef struct { long n, max; long *lab, *w, *dom; int *dist; } DF;
static void df_exit (DF *d) { free (d->lab); free (d->w); free (d->dom); free (d->dist); memset (d, 0, sizeof (*d)); }
static int df_read (DF *d, const char *x) {
  Tk t = { x, 0 }; long i, j;
  memset (d, 0, sizeof (*d));
  if (! tk_word (&t, "deco") || tk_num (&t) != 0) { mc_fail ("not a 'deco 0' target"); return 0; }
  d->n = tk_num (&t); d->max = tk_num (&t);
  if (t.bad || d->n < 1 || d->n > 5000) { mc_fail ("bad header: %ld terminals", d->n); return 0; }
  d->lab = malloc (d->n * sizeof (long)); d->w = malloc (d->n * sizeof (long)); d->dom = malloc (d->n * sizeof (long)); d->dist = calloc (d->n * d->n, sizeof (int));
  for (i = 0; i < d->n; i ++) { d->lab[i] = tk_num (&t); d->w[i] = tk_num (&t); d->dom[i] = tk_num (&t); }
  for (i = 1; i < d->n; i ++) for (j = 0; j < i; j ++) d->dist[i * d->n + j] = d->dist[j * d->n + i] = tk_num (&t);
  if (t.bad || ! tk_end (&t)) { mc_fail ("wrong number of figures in the target file"); return 0; }
  return 1;
}
static int cmpl (const void *a, const void *b) { long x = *(const long *) a, y = *(const long *) b; return (x > y) - (x < y); }
static int df_tree (const DF *d) {                             /* terminal numbers are the leaves of a full binary tree */
  long *s = malloc (d->n * sizeof (long)), i, j, mx = 0; double kraft = 0; int ok = 1;
  for (i = 0; i < d->n; i ++) { s[i] = d->dom[i]; if (d->dom[i] > mx) mx = d->dom[i]; }
  qsort (s, d->n, sizeof (long), cmpl);
  for (i = 0; i < d->n && ok; i ++) {
    long a; double w = 1;
    if (s[i] < 1) { mc_fail ("terminal domain number %ld", s[i]); ok = 0; break; }
    if (i && s[i] == s[i - 1]) { mc_fail ("terminal domain number %ld is used twice", s[i]); ok = 0; break; }
    for (a = s[i] >> 1; a >= 1; a >>= 1) { w /= 2; if (bsearch (&a, s, d->n, sizeof (long), cmpl)) { mc_fail ("terminal domain %ld lies below terminal domain %ld", s[i], a); ok = 0; break; } }
    kraft += w;
  }
  if (ok && (kraft < 1 - 1e-9)) { mc_fail ("the terminal domains do not cover the decomposition tree"); ok = 0; }
  if (ok && d->max != mx) { mc_fail ("the biggest domain number is %ld, %ld is announced", mx, d->max); ok = 0; }
  free (s); return ok;
}
static int *hops (long n, Adj adj, const int *v) {
  int *q = malloc (n * sizeof (int)), *r = malloc (n * n * sizeof (int)), *st = malloc ((n + 1) * sizeof (int)), *nb = NULL; long i, j, k, c = 0, h, t, cap = 0;
  for (i = 0; i < n; i ++) { st[i] = c; for (j = 0; j < n; j ++) if (adj (i, j, v)) { if (c == cap) nb = realloc (nb, (cap = 2 * cap + 64) * sizeof (int)); nb[c ++] = j; } }
  st[n] = c;
  for (i = 0; i < n; i ++) {
    for (j = 0; j < n; j ++) r[i * n + j] = -1;
    r[i * n + i] = 0; q[0] = i; h = 0; t = 1;
    while (h < t) { j = q[h ++]; for (k = st[j]; k < st[j + 1]; k ++) if (r[i * n + nb[k]] < 0) { r[i * n + nb[k]] = r[i * n + j] + 1; q[t ++] = nb[k]; } }
  }
  free (q); free (st); free (nb); return r;
}
static char *lib_save (const char *text) {                     /* loads a target in the library and saves it again */
  FILE *f; SCOTCH_Arch a; char *r = NULL; int o;
  pr_write ("t.a0", text); f = pr_open ("t.a0", "r"); SCOTCH_archInit (&a); mc_errreset ();
  o = SCOTCH_archLoad (&a, f); fclose (f); mc_ops (1);
  if (o != 0) { mc_fail ("the library refuses the target (%s)", mc_errbuf); return NULL; }
  f = pr_open ("t.a1", "w"); o = SCOTCH_archSave (&a, f); fclose (f); SCOTCH_archExit (&a);
  if (o != 0) { mc_fail ("the target cannot be saved"); return NULL; }
  r = pr_read ("t.a1"); return r;
}
static void target (const char *nm, const char *args, long n, Adj adj, const int *v, int file, int meth) {
  DF d; char *x; long i, j; int *ref;
  if (! mc_case ("%s %s%s", nm, args, file ? " to a file" : "")) return;
  pr_unlink ("t.tgt");
  if (! pr_ok (pr_run ("%s %s%s", nm, args, file ? " t.tgt" : ""))) return;
  x = file ? pr_read ("t.tgt") : strdup (pr_out);
  if (x == NULL) { mc_fail ("no target file written"); return; }
  if (df_read (&d, x)) {
    ref = hops (n, adj, v);
    if (d.n != n) mc_fail ("%ld terminals for %ld", d.n, n);
    else {
      for (i = 0; i < n && ! mc_failed (); i ++) {
        if (d.lab[i] != i || d.w[i] != 1) { mc_fail ("terminal %ld has label %ld and weight %ld", i, d.lab[i], d.w[i]); break; }
        for (j = 0; j < n; j ++) if (d.dist[i * n + j] != ref[i * n + j]) { mc_fail ("distance between %ld and %ld is %d for %d", i, j, d.dist[i * n + j], ref[i * n + j]); break; }
      }
      if (! mc_failed () && df_tree (&d)) {
        char *y, *z;
        if (meth) {                                            /* grids: each domain is a rectangle, cut as asked */
          long a;
          for (a = 1; a <= d.max && ! mc_failed (); a ++) {
            long b[3][5]; int s;                               /* boxes of the domain and of its halves: x0 x1 y0 y1 count */
            for (s = 0; s < 3; s ++) { b[s][0] = b[s][2] = 9999; b[s][1] = b[s][3] = -1; b[s][4] = 0; }
            for (i = 0; i < n; i ++) {
              long k = d.dom[i], l = 0; while (k > a) { l = k & 1; k >>= 1; } if (k != a) continue;
              for (s = 0; s < 3; s += (s == 0 && l) ? 2 : (s == 0) ? 1 : 3) {
                long px = i % v[0], py = i / v[0];
                if (px < b[s][0]) b[s][0] = px; if (px > b[s][1]) b[s][1] = px; if (py < b[s][2]) b[s][2] = py; if (py > b[s][3]) b[s][3] = py; b[s][4] ++;
                if (d.dom[i] == a) break;
              }
            }
            if (b[0][4] <= 1) continue;
            for (s = 0; s < 3; s ++) if (b[s][4] != (b[s][1] - b[s][0] + 1) * (b[s][3] - b[s][2] + 1)) mc_fail ("a domain of number %ld is not a rectangle", a);
            if (mc_failed ()) break;
            { long w = b[0][1] - b[0][0] + 1, h = b[0][3] - b[0][2] + 1, cuty = (b[1][2] != b[2][2]), l1 = cuty ? b[1][3] - b[1][2] + 1 : b[1][1] - b[1][0] + 1, l2 = cuty ? b[2][3] - b[2][2] + 1 : b[2][1] - b[2][0] + 1;
              if (labs (l1 - l2) > 1) mc_fail ("domain %ld is cut in %ld and %ld", a, l1, l2);
              if (meth == 1 && (cuty ? h < w : w < h)) mc_fail ("nested dissection cuts the smallest dimension of domain %ld", a);
              if (meth == 2 && ! cuty && h > 1) mc_fail ("one-way dissection cuts domain %ld along x before y is done", a);
            }
          }
        }
        mc_nontrivial ();
        if ((y = mc_failed () ? NULL : lib_save (x)) != NULL) {  /* compiling the target gives what the library holds */
          pr_write ("t.in", x); pr_unlink ("t.out");
          if (pr_ok ((n & 1) ? pr_run ("acpl t.in t.out") : pr_run ("acpl <t.in"))) {
            z = (n & 1) ? pr_read ("t.out") : strdup (pr_out);
            if (z == NULL || strcmp (z, y)) mc_fail ("acpl does not write the same target as the library");
            else {
              char *u; Tk t = { z, 0 };
              if (! tk_word (&t, "deco") || tk_num (&t) != 1 || tk_num (&t) != n) mc_fail ("bad header of the compiled target");
              if ((u = lib_save (z)) != NULL) { if (strcmp (u, z)) mc_fail ("the compiled target is not saved as it was loaded"); free (u); }
            }
            free (z);
          }
          mc_state (mc_hash (n, y, strlen (y)));
          free (y);
        }
      }
    }
    free (ref);
  }
  df_exit (&d); free (x);
}

/* --- graphs turned into targets --- */
static void grf (const G *g, u64 sub, int deco2, int kind, int strat, int seq) {
  FILE *f; SCOTCH_Graph gr, g2; SCOTCH_Arch a; SCOTCH_Strat st; Num list[32]; int n = 0, i, o; char *x = NULL, *y; SCOTCH_Num *vl = NULL;
  static const char *str[] = { "", "gfx", "(g|h)fx", "hfx" };
  if (! mc_case ("amk_grf of %s subset %llx deco %d list %d strategy %d", g->desc, (unsigned long long) sub, deco2 ? 2 : 0, kind, strat)) return;
  g_build (g, &gr); f = pr_open ("t.grf", "w"); SCOTCH_graphSave (&gr, f); fclose (f); SCOTCH_graphExit (&gr);
  f = pr_open ("t.lst", "w");
  for (i = 0; i < g->n; i ++) if (sub >> i & 1) list[n ++] = i;
  fprintf (f, "%d\n", n);
  for (i = 0; i < n; i ++) { int k = (seq & 1) ? n - 1 - i : i; fprintf (f, "%ld\n", (long) (g->vlbl ? g->vlbl[list[k]] : list[k] + g->base)); }
  fclose (f);
  pr_unlink ("t.tgt");
  o = pr_run ("amk_grf t.grf t.tgt%s%s%s%s", deco2 ? " -2" : "", kind ? " -lt.lst" : "", strat ? " -b" : "", str[strat]);
  if (deco2 && g->base != 0 && o != 0) { pr_refused (o); return; }    /* restriction of these targets, which is reported */
  if (! pr_ok (o)) return;
  x = pr_read ("t.tgt"); if (x == NULL) { mc_fail ("no target written"); return; }
  f = pr_open ("t.grf", "r"); SCOTCH_graphInit (&g2); SCOTCH_graphLoad (&g2, f, -1, 0); fclose (f);
  SCOTCH_graphData (&g2, NULL, NULL, NULL, NULL, NULL, &vl, NULL, NULL, NULL);
  for (i = 0; i < n; i ++) list[i] += g->base;
  SCOTCH_archInit (&a); SCOTCH_stratInit (&st); SCOTCH_randomReset (); if (strat) SCOTCH_stratGraphBipart (&st, str[strat]);
  if (g->vlbl == NULL) ; else { int p, q; for (p = 0; p < n; p ++) for (q = p + 1; q < n; q ++) if (g->vlbl[list[q] - g->base] < g->vlbl[list[p] - g->base]) { Num t = list[p]; list[p] = list[q]; list[q] = t; } }
  o = deco2 ? SCOTCH_archBuild2 (&a, &g2, kind ? n : 0, kind ? list : NULL) : SCOTCH_archBuild0 (&a, &g2, kind ? n : 0, kind ? list : NULL, &st);
  mc_ops (1);
  if (o != 0) mc_fail ("the library refuses what the program accepts");
  else {
    f = pr_open ("t.tg2", "w"); SCOTCH_archSave (&a, f); fclose (f); y = pr_read ("t.tg2");
    if (strcmp (x, y)) mc_fail ("the target differs from the one of the library for the same vertices");
    mc_state (mc_hash (n, y, strlen (y))); if (n > 1) mc_nontrivial ();
    free (y);
    if (! mc_failed () && (y = lib_save (x)) != NULL) free (y);
  }
  SCOTCH_archExit (&a); SCOTCH_stratExit (&st); SCOTCH_graphExit (&g2); free (x);
}

/* --- graphs of meshes --- */
static void msh (M *q, int k, int how) {
  FILE *f; SCOTCH_Mesh m; SCOTCH_Graph g; char *x, *y; int o;
  if (! mc_case ("gmk_msh %s %d of %s", k ? "dual" : "primal", k, q->desc)) return;
  if (m_build (q, &m) != 0) { mc_fail ("mesh refused"); return; }
  f = pr_open ("t.msh", "w"); SCOTCH_meshSave (&m, f); fclose (f); SCOTCH_meshExit (&m);
  pr_unlink ("t.grf");
  if (k == 0) o = how ? pr_run ("gmk_msh t.msh t.grf") : pr_run ("gmk_msh <t.msh");
  else if (k == 1) o = how ? pr_run ("gmk_msh t.msh t.grf -d") : pr_run ("gmk_msh <t.msh -D1");
  else o = how ? pr_run ("gmk_msh -d%d t.msh t.grf", k) : pr_run ("gmk_msh <t.msh -D%d", k);
  if (! pr_ok (o)) return;
  x = how ? pr_read ("t.grf") : strdup (pr_out); if (x == NULL) { mc_fail ("no graph written"); return; }
  f = pr_open ("t.msh", "r"); SCOTCH_meshInit (&m); SCOTCH_meshLoad (&m, f, -1); fclose (f); SCOTCH_graphInit (&g);
  o = k ? SCOTCH_meshGraphDual (&m, &g, k) : SCOTCH_meshGraph (&m, &g); mc_ops (1);
  if (o != 0) mc_fail ("the library refuses what the program accepts");
  else {
    f = pr_open ("t.gr2", "w"); SCOTCH_graphSave (&g, f); fclose (f); y = pr_read ("t.gr2");
    if (strcmp (x, y)) mc_fail ("the graph differs from the one of the library");
    mc_state (mc_hash (k, y, strlen (y))); mc_nontrivial ();
    free (y);
  }
  SCOTCH_graphExit (&g); SCOTCH_meshExit (&m);
  if (! mc_failed ()) loads (x, 0);
  free (x);
}

void mc_run (void) {
  int d[3], t, e, b, y, ge, i, k, n; u64 mask; char a[100];
  int mx2 = mc_thorough ? 8 : 5, mx3 = mc_thorough ? 5 : 3;
  d[2] = 1;
  for (d[0] = 1; d[0] <= mx2; d[0] ++) for (d[1] = 1; d[1] <= mx2; d[1] ++)
    for (t = 0; t < 2; t ++) for (e = 0; e < 2; e ++) for (b = -1; b < 2; b ++) for (y = 0; y < 2; y ++) for (ge = 0; ge < 4; ge ++) {
      if (ge == 0 && y) continue;
      if (! mc_thorough && ge >= 2 && (d[0] + d[1] + t + e + b) % 3) continue;
      grid (2, d, t, e, b, y, ge, (d[0] + d[1] + e + b + y + 2) & 1);
    }
  for (d[0] = 1; d[0] <= mx3; d[0] ++) for (d[1] = 1; d[1] <= mx3; d[1] ++) for (d[2] = 1; d[2] <= mx3; d[2] ++)
    for (t = 0; t < 2; t ++) for (b = -1; b < 2; b ++) for (y = 0; y < 2; y ++) for (ge = 0; ge < 4; ge ++) {
      if (ge == 0 && y) continue;
      if (! mc_thorough && ge >= 2 && (d[0] + d[1] + d[2] + t + b) % 3) continue;
      grid (3, d, t, 0, b, y, ge, (d[0] + d[1] + d[2] + b + y + 2) & 1);
    }
  { static const int big[][3] = { { 16, 9, 1 }, { 1, 40, 1 }, { 33, 2, 1 }, { 2, 17, 1 }, { 12, 12, 1 }, { 4, 5, 6 }, { 7, 2, 3 }, { 2, 2, 9 }, { 9, 1, 2 }, { 1, 6, 4 } };
    for (i = 0; i < 10; i ++) for (t = 0; t < 2; t ++) for (e = 0; e < 2; e ++) for (ge = 0; ge < 2; ge ++) { if (i < 5) grid (2, big[i], t, e, 1, i & 1, ge, ge); else if (e == 0) grid (3, big[i], t, 0, 1, i & 1, ge, ge); } }
  for (i = 1; i <= 10; i ++) for (k = 0; k < 2; k ++) { onegraph ("gmk_hy", i, adj_hy, k); onegraph ("gmk_ub2", i, adj_ub2, k); }
  for (d[0] = 1, d[2] = 1; d[0] <= mx2; d[0] ++) for (d[1] = 1; d[1] <= mx2; d[1] ++) for (ge = 0; ge < 4; ge ++) for (k = 0; k < 2; k ++) mesh (2, d, ge, k);
  for (d[0] = 1; d[0] <= mx3 + 1; d[0] ++) for (d[1] = 1; d[1] <= mx3 + 1; d[1] ++) for (d[2] = 1; d[2] <= mx3 + 1; d[2] ++) for (ge = 0; ge < 4; ge ++) for (k = 0; k < 2; k ++) { if (! mc_thorough && (ge + k + d[0] + d[1] + d[2]) % 2) continue; mesh (3, d, ge, k); }
  for (d[0] = 1; d[0] <= mx2 + 3; d[0] ++) for (d[1] = 1; d[1] <= mx2 + 3; d[1] ++) for (k = 0; k < 3; k ++) {
    int v[4] = { d[0], d[1], 0, 0 };
    snprintf (a, sizeof (a), "%d %d%s", d[0], d[1], (k == 0) ? "" : (k == 1) ? ((d[0] & 1) ? " -mn" : " -MN") : ((d[0] & 1) ? " -mo" : " -MO"));
    target ("amk_m2", a, d[0] * d[1], adj_m2, v, (d[0] + d[1]) & 1, (k == 2) ? 2 : 1);
  }
  for (i = 1; i <= (mc_thorough ? 10 : 8); i ++) for (k = 0; k < 2; k ++) { snprintf (a, sizeof (a), "%d", i); target ("amk_hy", a, 1L << i, adj_hy, &i, k, 0); }
  for (i = 1; i <= (mc_thorough ? 8 : 7); i ++) for (k = 0; k < 2; k ++) { snprintf (a, sizeof (a), "%d", i); target ("amk_ccc", a, (long) i << i, adj_ccc, &i, k, 0); }
  for (i = 1; i <= (mc_thorough ? 7 : 6); i ++) for (k = 0; k < 2; k ++) { snprintf (a, sizeof (a), "%d", i); target ("amk_fft2", a, (long) (i + 1) << i, adj_fft, &i, k, 0); }
  for (i = 1; i <= 12; i ++) for (k = 1; k <= 12; k ++) if (mc_case ("amk_p2 %d %d", i, k)) {
    SCOTCH_Arch ar; FILE *f; int o = (i & 1) ? pr_run ("amk_p2 %d %d t.tgt", i, k) : (k == 1) ? pr_run ("amk_p2 %d", i) : pr_run ("amk_p2 %d %d", i, k);
    if (pr_ok (o)) {
      char *x = (i & 1) ? pr_read ("t.tgt") : strdup (pr_out); Tk tk = { x, 0 };
      if (x == NULL) mc_fail ("no target written");
      else {
        if (! tk_word (&tk, "cmpltw") || tk_num (&tk) != 2 || tk_num (&tk) != i || tk_num (&tk) != k || ! tk_end (&tk)) mc_fail ("not the weighted path");
        else { pr_write ("t.a0", x); f = pr_open ("t.a0", "r"); SCOTCH_archInit (&ar); if (SCOTCH_archLoad (&ar, f) != 0) mc_fail ("refused by the library"); else if (SCOTCH_archSize (&ar) != 2) mc_fail ("size"); SCOTCH_archExit (&ar); fclose (f); }
        mc_state (mc_hash (1, x, strlen (x))); mc_nontrivial (); free (x);
      }
    }
  }
  /* graphs turned into targets: all vertex subsets of connected labelled graphs */
  { Shape s; G g; int seq = 0; sh_init (&s);
    for (n = 1; n <= (mc_thorough ? 5 : 4); n ++) for (mask = 0; mask < (1ULL << sh_maskbits (n)); mask ++) {
      u64 sub; int deco2, kind;
      if (n == 4 && ! mc_thorough && mask % 3) continue;
      sh_mask (&s, n, mask); g_make (&g, &s, (n + mask) & 1, LAY_COMPACT, (mask / 2) % 2, (mask / 3) % 3, mask % 3);
      if (g_comp (&g, NULL, NULL) == 1) for (sub = 1; sub < (1ULL << n); sub ++) for (deco2 = 0; deco2 < 2; deco2 ++)
        for (kind = (sub == (1ULL << n) - 1) ? 0 : 1; kind < 2; kind ++) { seq ++; grf (&g, sub, deco2, kind, (deco2 || g.velo || g.edlo) ? 0 : seq % 4, seq); }
      g_exit (&g);
    }
    for (i = 0; sh_family (&s, i, 0); i ++) if (s.n <= 24 && s.n > 4) {
      g_make (&g, &s, i & 1, LAY_COMPACT, i % 2, (i / 2) % 2, i % 3);
      if (g_comp (&g, NULL, NULL) == 1) for (k = 0; k < 8; k ++) {
        u64 sub = (k < 2) ? ~0ULL : (0x5555aaaa3333ccccULL >> (k * 3)) ; sub &= (1ULL << s.n) - 1; if (sub == 0) sub = 1;
        grf (&g, sub, k & 1, k >= 2, ((k & 1) || g.velo || g.edlo) ? 0 : (i + k / 2) % 4, i + k);
      }
      g_exit (&g);
    }
    sh_exit (&s); }
  /* graphs of meshes */
  { M q; int ne, nn, x = 0;
    for (ne = 1; ne <= 3; ne ++) for (nn = 1; nn <= 3; nn ++) for (mask = 0; mask < (1ULL << (ne * nn)); mask ++) {
      if (! mc_thorough && ne * nn > 6 && mask % 7) continue;
      for (k = 0; k <= 3; k ++) { x ++; m_make (&q, ne, nn, mask, x & 1, (x >> 1) & 1, LAY_COMPACT, (x / 3) % 2, (x / 5) % 2, 0); msh (&q, k, x & 1); m_exit (&q); }
    }
    for (i = 0; m_family (&q, i, i & 1, (i >> 1) & 1, LAY_COMPACT, i % 2, (i / 2) % 2, 0); i ++) { for (k = 0; k <= 4; k ++) msh (&q, k, k & 1); m_exit (&q); } }
}
