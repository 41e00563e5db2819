/* Command-line programs (39). Set 1: graph tool chains; set 2: viewer, meshes and targets; set 3: invalid command lines and files. */
#include <math.h>
#include "prog.h"
#include "gspace.h"
#include "scotch.h"

/* --- graph files --- */
static char gtext[60000];
static const char *gfile (const G *g) {                       /* own writer of the centralized graph format */
  char *p = gtext, *e = gtext + sizeof (gtext); int i, k;
  p += snprintf (p, e - p, "0\n%d %d\n%d %d%d%d\n", g->n, (int) g->m, g->base, g->vlbl != NULL, g->edlo != NULL, g->velo != NULL);
  for (i = 0; i < g->n; i ++) {
    Num b = g->vert[i], n = (g->vend ? g->vend[i] : g->vert[i + 1]);
    if (g->vlbl) p += snprintf (p, e - p, "%d ", (int) g->vlbl[i]);
    if (g->velo) p += snprintf (p, e - p, "%d ", (int) g->velo[i]);
    p += snprintf (p, e - p, "%d", (int) (n - b));
    for (k = b; k < n; k ++) {
      Num j = g->edge[k - g->base];
      if (g->edlo) p += snprintf (p, e - p, " %d", (int) g->edlo[k - g->base]);
      p += snprintf (p, e - p, " %d", (int) (g->vlbl ? g->vlbl[j - g->base] : j));
    }
    p += snprintf (p, e - p, "\n");
  }
  return gtext;
}
typedef struct { long n, m, base; int pl, pe, pv; long *lbl, *w, *ew, *deg; int *ad; } RF;
static void rf_exit (RF *r) { free (r->lbl); free (r->w); free (r->ew); free (r->ad); free (r->deg); memset (r, 0, sizeof (*r)); }
static int rf_body (RF *r, Tk *t, long *nb, long *idx) {
  long i, j, k, l;
  for (i = k = 0; i < r->n; i ++) {
    r->lbl[i] = r->pl ? tk_num (t) : r->base + i; r->w[i] = r->pv ? tk_num (t) : 1; r->deg[i] = tk_num (t); idx[i] = k;
    if (t->bad || r->deg[i] < 0 || k + r->deg[i] > r->m) return 1;
    for (j = 0; j < r->deg[i]; j ++, k ++) { nb[2 * k] = r->pe ? tk_num (t) : 1; nb[2 * k + 1] = tk_num (t); }
  }
  if (t->bad || k != r->m) return 1;
  for (i = 0; i < r->n; i ++) for (j = 0; j < r->deg[i]; j ++) {
    for (l = 0; l < r->n && r->lbl[l] != nb[2 * (idx[i] + j) + 1]; l ++) ;
    if (l == r->n) return 1;
    r->ad[i * r->n + l] ++; r->ew[i * r->n + l] = nb[2 * (idx[i] + j)];
  }
  return 0;
}
static int rf_alloc (RF *r) {
  if (r->n < 0 || r->n > 290 || r->m < 0 || r->m > r->n * r->n) return 1;
  r->lbl = calloc (r->n + 1, sizeof (long)); r->w = calloc (r->n + 1, sizeof (long)); r->deg = calloc (r->n + 1, sizeof (long));
  r->ew = calloc (r->n * r->n + 1, sizeof (long)); r->ad = calloc (r->n * r->n + 1, sizeof (int));
  return 0;
}
static int rf_read (RF *r, const char *b) {                   /* independent reader */
  Tk t = { b, 0 }; long f, *nb, *idx; int o;
  memset (r, 0, sizeof (*r));
  if (b == NULL || tk_num (&t) != 0) return 1;
  r->n = tk_num (&t); r->m = tk_num (&t); r->base = tk_num (&t); f = tk_num (&t); r->pl = f / 100; r->pe = (f / 10) % 10; r->pv = f % 10;
  if (t.bad || rf_alloc (r)) return 1;
  nb = calloc (2 * r->m + 1, sizeof (long)); idx = calloc (r->n + 1, sizeof (long));
  o = rf_body (r, &t, nb, idx) || ! tk_end (&t);
  free (nb); free (idx);
  return o;
}
static int rf_same (const RF *r, const G *g, int base, int lbl, int wt, const char *what) {   /* file describes the graph; lbl, wt: labels, weights kept */
  int i, j, n = g->n;
  if (r->n != n || r->m != g->m || r->base != base) { mc_fail ("%s: %ld vertices, %ld arcs, base %ld", what, r->n, r->m, r->base); return 0; }
  for (i = 0; i < n; i ++) {
    long l = (lbl && g->vlbl) ? g->vlbl[i] : i + base;
    if (lbl && r->lbl[i] != l) { mc_fail ("%s: vertex %d is labelled %ld instead of %ld", what, i, r->lbl[i], l); return 0; }
    if ((wt & 1) && r->w[i] != g->w[i]) { mc_fail ("%s: vertex %d has load %ld instead of %d", what, i, r->w[i], (int) g->w[i]); return 0; }
    for (j = 0; j < n; j ++) {
      if (r->ad[i * n + j] != g_adj (g, i, j)) { mc_fail ("%s: arc %d-%d written %d times", what, i, j, r->ad[i * n + j]); return 0; }
      if ((wt & 2) && r->ad[i * n + j] && r->ew[i * n + j] != (g->ew ? g->ew[i * n + j] : 1)) { mc_fail ("%s: arc %d-%d has load %ld instead of %d", what, i, j, r->ew[i * n + j], g->ew ? (int) g->ew[i * n + j] : 1); return 0; }
    }
  }
  return 1;
}
static int near (double a, double b) { double d = fabs (a - b), m = fmax (fabs (a), fabs (b)); return d <= 1e-5 * m + 1e-9; }

static char *line (const char *text, const char *key) {       /* rest of the line beginning with a key */
  static char b[8][300]; static int k; const char *p, *e; size_t n = strlen (key);
  for (p = text; p && *p; p = (e = strchr (p, '\n')) ? e + 1 : NULL) if (strncmp (p, key, n) == 0) { k = (k + 1) & 7; e = strchr (p, '\n'); snprintf (b[k], sizeof (b[k]), "%.*s", (int) (e ? e - p - n : strlen (p) - n), p + n); return b[k]; }
  return "";
}

/* --- gtst --- */
typedef struct { double mn, mx, sum, avg, dlt; } St;
static St stat (const double *v, int n) {
  St s = { 0, 0, 0, 0, 0 }; int i;
  for (i = 0; i < n; i ++) { if (i == 0 || v[i] < s.mn) s.mn = v[i]; if (i == 0 || v[i] > s.mx) s.mx = v[i]; s.sum += v[i]; }
  if (n) { s.avg = s.sum / n; for (i = 0; i < n; i ++) s.dlt += fabs (v[i] - s.avg); s.dlt /= n; }
  return s;
}
static void figures (const char *text, const char *key, St s) {
  double r[5]; char *l = line (text, key);
  if (sscanf (l, "\tmin=%lf\tmax=%lf\tsum=%lf\tavg=%lf\tdlt=%lf", r, r + 1, r + 2, r + 3, r + 4) != 5) { mc_fail ("'%s': no '%s' line", pr_cmd, key); return; }
  if (r[0] != s.mn || r[1] != s.mx || r[2] != s.sum || ! near (r[3], s.avg) || ! near (r[4], s.dlt)) mc_fail ("'%s' says '%s%s', should be min %g max %g sum %g avg %g dlt %g", pr_cmd, key, l, s.mn, s.mx, s.sum, s.avg, s.dlt);
  mc_ops (1);
}
static void gtst (const G *g, int form) {
  double *v = malloc ((g->n * g->n + g->n + 1) * sizeof (double)); int i, j, k; char *b; St vs, ds, es;
  if (! pr_ok (form == 0 ? pr_run ("gtst g.grf t.out") : form == 1 ? pr_run ("gtst <g.grf") : pr_run ("gtst - - <g.grf"))) { free (v); return; }
  b = form ? strdup (pr_out) : pr_read ("t.out"); if (b == NULL) b = strdup ("");
  for (i = 0; i < g->n; i ++) v[i] = g->w[i];
  vs = stat (v, g->n);
  for (i = 0; i < g->n; i ++) for (v[i] = j = 0; j < g->n; j ++) v[i] += g_adj (g, i, j);
  ds = stat (v, g->n);
  for (i = k = 0; i < g->n; i ++) for (j = 0; j < g->n; j ++) if (g_adj (g, i, j)) v[k ++] = g->ew ? g->ew[i * g->n + j] : 1;
  es = stat (v, k); es.sum /= 2;                         /* each edge counted once */
  if (atol (line (b, "S\tVertex\tnbr=")) != g->n || atol (line (b, "S\tEdge\tnbr=")) != g->m / 2) mc_fail ("'%s' counts '%s' vertices and '%s' edges", pr_cmd, line (b, "S\tVertex\tnbr="), line (b, "S\tEdge\tnbr="));
  figures (b, "S\tVertex load", vs); figures (b, "S\tVertex degree", ds); figures (b, "S\tEdge load", es);
  free (b); free (v);
}

/* --- library side --- */
static int lload (SCOTCH_Graph *gr, const char *name, int flag) { FILE *f = pr_open (name, "r"); int o; SCOTCH_graphInit (gr); o = SCOTCH_graphLoad (gr, f, -1, flag); fclose (f); if (o != 0) mc_fail ("library cannot load '%s': %s", name, mc_errbuf); return o == 0; }
static int same (const char *name, const char *want, const char *what) {
  char *b = pr_read (name); int o = b && strcmp (b, want) == 0;
  if (! o) { char *p = b ? b : ""; const char *q = want; int k = 0; while (*p && *p == *q) { p ++; q ++; k ++; } mc_fail ("'%s': %s is not what the library computes: byte %d, '%.20s' for '%.20s'", pr_cmd, what, k, p, q); }
  free (b); mc_ops (1); return o;
}

/* --- gord, gotst --- */
static const struct { const char *o; int val; const char *strat; const char *ctx; } gords[] = {
  { "", 0, NULL, "" }, { " -cq", SCOTCH_STRATQUALITY, NULL, "" }, { " -cs", SCOTCH_STRATSPEED, NULL, "" }, { " -cb", SCOTCH_STRATBALANCE, NULL, "" }, { " -cT", SCOTCH_STRATSAFETY, NULL, "" }, { " -CBQ", -1, NULL, "" },
  { " -cbsT", SCOTCH_STRATBALANCE | SCOTCH_STRATSPEED | SCOTCH_STRATSAFETY, NULL, "" }, { " -os", 0, "s", "" }, { " -Og{pass=3}", 0, "g{pass=3}", "" },
  { " -on{sep=h{pass=2},ole=d{cmin=0,cmax=10,frat=0.1},ose=s}", 0, "n{sep=h{pass=2},ole=d{cmin=0,cmax=10,frat=0.1},ose=s}", "" }, { " -on{sep=/(vert>2)?m{vert=4,low=h,asc=f}:;,ole=f{cmin=0,cmax=100,frat=0},ose=g}", 0, "n{sep=/(vert>2)?m{vert=4,low=h,asc=f}:;,ole=f{cmin=0,cmax=100,frat=0},ose=g}", "" },
  { " -oc{rat=0.7,cpr=n{sep=g,ole=s,ose=s},unc=n{sep=h,ole=s,ose=s}}", 0, "c{rat=0.7,cpr=n{sep=g,ole=s,ose=s},unc=n{sep=h,ole=s,ose=s}}", "" }, { " -Cd", 0, NULL, "d" }, { " -Cf", 0, NULL, "f" }, { " -Cd,f", 0, NULL, "d,f" } };
#define GORDNBR ((int) (sizeof (gords) / sizeof (gords[0])))

static void gotst (const G *g, const char *ord, int noweight) { /* dense symbolic factorization of the ordering read back */
  int n = g->n, i, j, k, *at = calloc (n + 1, sizeof (int)), *fa = calloc (n + 1, sizeof (int)), *lev = calloc (n + 1, sizeof (int)), *son = calloc (n + 1, sizeof (int)); char *a = calloc (n * n + 1, 1); Tk t = { ord, 0 };
  double nnz = 0, opc = 0, *h = calloc (n + 1, sizeof (double)), r[8]; St s; int hn = 0; char *b;
  if (tk_num (&t) != n) { mc_fail ("ordering file has a bad header"); goto out; }
  for (i = 0; i < n; i ++) at[i] = -1;
  for (i = 0; i < n; i ++) {
    long l = tk_num (&t), p = tk_num (&t); int q;
    for (q = 0; q < n && (g->vlbl ? g->vlbl[q] : q + g->base) != p; q ++) ;
    p = q;
    for (j = 0; j < n && (g->vlbl ? g->vlbl[j] : j + g->base) != l; j ++) ;
    if (t.bad || j == n || p < 0 || p >= n || at[p] != -1) { mc_fail ("ordering file: bad line %d (%ld, %ld)", i, l, p); goto out; }
    at[p] = j;
  }
  if (! tk_end (&t)) { mc_fail ("ordering file is too long"); goto out; }
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) a[i * n + j] = g_adj (g, at[i], at[j]) > 0;
  for (k = 0; k < n; k ++) for (i = k + 1; i < n; i ++) if (a[k * n + i]) for (j = k + 1; j < n; j ++) if (a[k * n + j] && i != j) a[i * n + j] = 1;
  for (k = 0; k < n; k ++) { for (i = k + 1; i < n && ! a[k * n + i]; i ++) ; fa[k] = i < n ? i : -1; if (i < n) son[i] ++; }
  for (k = n - 1; k >= 0; k --) lev[k] = fa[k] < 0 ? 1 : lev[fa[k]] + 1;
  for (k = 0; k < n; k ++) {
    double w = noweight ? 1 : g->w[at[k]], f = w;
    for (i = k + 1; i < n; i ++) if (a[k * n + i]) f += noweight ? 1 : g->w[at[i]];
    nnz += f * w; opc += f * f * w;
    if (son[k] == 0) h[hn ++] = lev[k];
  }
  s = stat (h, hn);
  if (g->vlbl) { pr_refused (pr_run ("gotst g.grf g.ord t.out")); goto out; } /* loading of labelled orderings: not supported by the library */
  if (! pr_ok (noweight ? pr_run ("gotst -v g.grf g.ord t.out") : pr_run ("gotst g.grf g.ord t.out"))) goto out;
  b = pr_read ("t.out"); if (b == NULL) b = strdup ("");
  if (sscanf (b, "O\tLeaf=%lf O\tHeight min=%lf\tmax=%lf\tavg=%lf\tdlt=%lf (%*f) O\tNNZ=%lf O\tOPC=%lf", r, r + 1, r + 2, r + 3, r + 4, r + 5, r + 6) != 7) mc_fail ("'%s': output not understood: %.200s", pr_cmd, b);
  else if (r[0] != hn || r[1] != s.mn || r[2] != s.mx || ! near (r[3], s.avg) || fabs (r[4] - s.dlt) > 2e-6 || ! near (r[5], nnz) || ! near (r[6], opc))
    mc_fail ("'%s' says leaf=%g min=%g max=%g avg=%g dlt=%g nnz=%g opc=%g, should be %d %g %g %g %g %g %g", pr_cmd, r[0], r[1], r[2], r[3], r[4], r[5], r[6], hn, s.mn, s.mx, s.avg, s.dlt, nnz, opc);
  mc_ops (1);
  free (b);
out:
  free (at); free (fa); free (lev); free (son); free (a); free (h);
}
static void gord (const G *g, int k, int x) {
  SCOTCH_Graph gr, cg; SCOTCH_Context ct; SCOTCH_Ordering od; SCOTCH_Strat st; Num *perm = malloc (g->n * sizeof (Num) + 8); char *b, *buf; size_t len; FILE *f; int i, val = gords[k].val;
  if (val == -1) return;
  pr_unlink ("g.ord"); pr_unlink ("g.map"); pr_unlink ("g.tre");
  i = (x & 1) ? pr_run ("gord -mg.map%s g.grf g.ord t.log -vst -tg.tre", gords[k].o) : pr_run ("gord%s -vS -Tg.tre <g.grf - - t.log -Mg.map", gords[k].o);
  if (! pr_ok (i)) { free (perm); return; }
  if (! (x & 1)) pr_write ("g.ord", pr_out);
  if (lload (&gr, "g.grf", 2)) {
    SCOTCH_randomReset (); SCOTCH_contextInit (&ct); if (gords[k].ctx[0]) SCOTCH_contextOptionParse (&ct, gords[k].ctx);
    SCOTCH_stratInit (&st); if (val) SCOTCH_stratGraphOrderBuild (&st, val, 0, 0.2); if (gords[k].strat) SCOTCH_stratGraphOrder (&st, gords[k].strat);
    SCOTCH_contextBindGraph (&ct, &gr, &cg);
    SCOTCH_graphOrderInit (&gr, &od, perm, NULL, NULL, NULL, NULL);
    if (SCOTCH_graphOrderCompute (&cg, &od, &st) != 0) mc_fail ("the library cannot order: %s", mc_errbuf);
    else for (i = 0; i < 4; i ++) {
      f = open_memstream (&buf, &len);
      switch (i) { case 0: SCOTCH_graphOrderSave (&gr, &od, f); break; case 1: SCOTCH_graphOrderSaveMap (&gr, &od, f); break; case 2: SCOTCH_graphOrderSaveTree (&gr, &od, f); break; default: fprintf (f, "S\tStrat="); SCOTCH_stratSave (&st, f); fputc ('\n', f); }
      fclose (f);
      if (i < 3) same (i == 0 ? "g.ord" : i == 1 ? "g.map" : "g.tre", buf, i == 0 ? "ordering" : i == 1 ? "mapping" : "tree");
      else { b = pr_read ("t.log"); if (b == NULL || strncmp (b, buf, len)) mc_fail ("'%s': strategy '%.60s' is not the one used", pr_cmd, b ? b : ""); free (b); }
      free (buf);
    }
    SCOTCH_graphOrderExit (&gr, &od); SCOTCH_graphExit (&cg); SCOTCH_stratExit (&st); SCOTCH_contextExit (&ct);
  }
  SCOTCH_graphExit (&gr);
  if (! mc_failed ()) { b = pr_read ("g.ord"); gotst (g, b, 0); if (g->velo) gotst (g, b, 1); free (b); }
  free (perm);
}

/* --- gmap, gpart, gmtst --- */
static const char *targets[] = { "cmplt 3\n", "cmplt 2\n", "hcub 2\n", "mesh2D 2 2\n", "torus2D 3 2\n", "tleaf 2 2 4 2 1\n", "cmpltw 3 1 2 1\n", "mesh3D 2 1 2\n", "cmplt 1\n" };
typedef struct { const char *o; int flag, val; double kbal; int kind; const char *strat, *ctx; } Mo; /* kind: 1 fixed, 2 old mapping, 4 ratio, 8 costs, 16 overlap, 32 clustering */
static const Mo maps[] = {
  { "", 0, 0, 0.01, 0, NULL, "" }, { " -b0.1", 0, 0, 0.1, 0, NULL, "" }, { " -cq", 0, SCOTCH_STRATQUALITY, 0.01, 0, NULL, "" }, { " -Cf -cRs", 0, SCOTCH_STRATRECURSIVE | SCOTCH_STRATSPEED, 0.01, 0, NULL, "f" }, { " -cbt -B0.5", 0, SCOTCH_STRATBALANCE | SCOTCH_STRATSAFETY, 0.5, 0, NULL, "" },
  { " -sv", 1, 0, 0.01, 0, NULL, "" }, { " -Se", 2, 0, 0.01, 0, NULL, "" }, { " -sEV -cr", 3, SCOTCH_STRATRECURSIVE, 0.01, 0, NULL, "" }, { " -mr{job=t,bal=0.05,map=t,poli=S,sep=h{pass=3}f{move=20,pass=2}}", 0, 0, 0, 0, "r{job=t,bal=0.05,map=t,poli=S,sep=h{pass=3}f{move=20,pass=2}}", "" }, { " -Cd", 0, 0, 0.01, 0, NULL, "d" },
  { " -ffix", 0, 0, 0.01, 1, NULL, "" }, { " -cs -Ffix", 0, SCOTCH_STRATSPEED, 0.01, 1, NULL, "" }, { " -roold", 0, 0, 0.01, 2, NULL, "" }, { " -Roold -rr2.5", 0, 0, 0.01, 6, NULL, "" }, { " -roold -rvcost -cq", 0, SCOTCH_STRATQUALITY, 0.01, 10, NULL, "" }, { " -rOold -RVcost -rR0.5 -ffix", 0, 0, 0.01, 15, NULL, "" },
  { " -o", 0, 0, 0.01, 16, NULL, "" }, { " -O -b0.2 -cs", 0, SCOTCH_STRATSPEED, 0.2, 16, NULL, "" }, { " -sv -o", 1, 0, 0.01, 16, NULL, "" }, { " -q", 0, 0, 0.01, 32, NULL, "" }, { " -Q -b0.3", 0, 0, 0.3, 32, NULL, "" }, { " -cs -q", 0, SCOTCH_STRATSPEED, 0.01, 32, NULL, "" } };
#define MAPNBR ((int) (sizeof (maps) / sizeof (maps[0])))

static int isopt (const Mo *m, char c) { const char *p; for (p = m->o; (p = strchr (p, '-')) != NULL; p ++) if ((p[1] | 32) == c && p[1] != 'C') return 1; return 0; }
static void gmap (const G *g, int k, int tg, int x) {
  const Mo *m = &maps[k]; SCOTCH_Graph gr, cg; SCOTCH_Context ct; SCOTCH_Arch ar; SCOTCH_Strat st; SCOTCH_Mapping mp, mo; int n = g->n, i, j, o, part, nbr = 2 + (tg % 3); long *fix = malloc ((n + 1) * sizeof (long)), *old = malloc ((n + 1) * sizeof (long)), *lab = malloc ((n + 1) * sizeof (long));
  Num *pt = malloc ((n + 1) * sizeof (Num)), *vm = malloc ((n + 1) * sizeof (Num)), size; char *buf = NULL, *b; size_t len; FILE *f; double rat = (m->kind & 4) ? (strstr (m->o, "2.5") ? 2.5 : 0.5) : 1;
  part = (m->kind & 48) || (x & 2);                            /* gpart, or gmap */
  if (m->kind & 32) nbr = 1 + tg % 4;
  SCOTCH_archInit (&ar);
  if (part) { char s[40]; snprintf (s, sizeof (s), "cmplt %d\n", nbr); pr_write ("g.tgt", s); } else pr_write ("g.tgt", targets[tg % 9]);
  if (m->kind & 32) SCOTCH_archVcmplt (&ar);
  else { f = pr_open ("g.tgt", "r"); o = SCOTCH_archLoad (&ar, f); fclose (f); if (o) { mc_fail ("target refused: %s", mc_errbuf); goto out; } }
  size = (m->kind & 32) ? nbr : SCOTCH_archSize (&ar);
  for (i = 0; i < n; i ++) { lab[i] = g->vlbl ? g->vlbl[i] : i + g->base; fix[i] = (i % 3 == 1) ? (i * 2 + x) % size : -1; old[i] = (i * 3 + x / 2) % size; }
  f = pr_open ("fix", "w"); fprintf (f, "%d\n", n); for (i = n - 1; i >= 0; i --) fprintf (f, "%ld\t%ld\n", lab[i], fix[i]); fclose (f);
  f = pr_open ("old", "w"); fprintf (f, "%d\n", n); for (i = 0; i < n; i ++) fprintf (f, "%ld\t%ld\n", lab[i], old[i]); fclose (f);
  f = pr_open ("cost", "w"); fprintf (f, "%d\n", n); for (i = 0; i < n; i ++) fprintf (f, "%ld\t%d\n", lab[i], 1 + i % 4); fclose (f);
  pr_unlink ("g.map"); pr_unlink ("t.log");
  if (part) o = (x & 1) ? pr_run ("gpart%s %d g.grf g.map t.log -vsm", m->o, nbr) : pr_run ("gpart %d%s <g.grf -vS -vM - g.map t.log", nbr, m->o);
  else o = (x & 1) ? pr_run ("gmap%s g.grf g.tgt g.map t.log -vsm", m->o) : pr_run ("gmap g.grf - -vMS%s <g.tgt g.map t.log", m->o);
  if (! pr_ok (o)) goto out;
  if (lload (&gr, "g.grf", m->flag)) {
    SCOTCH_randomReset (); SCOTCH_contextInit (&ct); SCOTCH_stratInit (&st); if (m->ctx[0]) SCOTCH_contextOptionParse (&ct, m->ctx);
    if (m->val || isopt (m, 'b')) {
      if (m->kind & 16) SCOTCH_stratGraphPartOvlBuild (&st, m->val, size, m->kbal);
      else if (m->kind & 32) SCOTCH_stratGraphClusterBuild (&st, m->val, size, 1.0, m->kbal);
      else SCOTCH_stratGraphMapBuild (&st, m->val, size, m->kbal);
    }
    if (m->strat) SCOTCH_stratGraphMap (&st, m->strat);
    for (i = 0; i < n; i ++) { pt[i] = fix[i]; vm[i] = 1 + i % 4; }
    SCOTCH_contextBindGraph (&ct, &gr, &cg);
    f = open_memstream (&buf, &len);
    if (m->kind & 16) { o = SCOTCH_graphPartOvl (&cg, size, &st, pt); SCOTCH_graphTabSave (&gr, pt, f); }
    else {
      Num *op = malloc ((n + 1) * sizeof (Num)); for (i = 0; i < n; i ++) op[i] = old[i];
      SCOTCH_graphMapInit (&gr, &mp, &ar, pt); SCOTCH_graphMapInit (&gr, &mo, &ar, op);
      if (m->kind & 2) o = (m->kind & 1) ? SCOTCH_graphRemapFixedCompute (&cg, &mp, &mo, rat, (m->kind & 8) ? vm : NULL, &st) : SCOTCH_graphRemapCompute (&cg, &mp, &mo, rat, (m->kind & 8) ? vm : NULL, &st);
      else o = (m->kind & 1) ? SCOTCH_graphMapFixedCompute (&cg, &mp, &st) : SCOTCH_graphMapCompute (&cg, &mp, &st);
      SCOTCH_graphMapSave (&gr, &mp, f);
      if (o == 0) {
        char *v = NULL; size_t l; FILE *w = open_memstream (&v, &l);
        fprintf (w, "S\tStrat="); SCOTCH_stratSave (&st, w); fputc ('\n', w);
        if (m->kind & 2) SCOTCH_graphRemapView (&gr, &mp, &mo, rat, (m->kind & 8) ? vm : NULL, w); else SCOTCH_graphMapView (&gr, &mp, w);
        fclose (w); same ("t.log", v, "report"); free (v);
      }
      SCOTCH_graphMapExit (&gr, &mp); SCOTCH_graphMapExit (&gr, &mo); free (op);
    }
    fclose (f);
    if (o != 0) mc_fail ("the library cannot map: %s", mc_errbuf);
    else { same ("g.map", buf, "mapping");
      for (i = 0; i < n; i ++) {
        if (pt[i] < ((m->kind & 16) ? -1 : 0) || (pt[i] >= size && ! (m->kind & 32))) mc_fail ("vertex %d is mapped to %d", i, (int) pt[i]);
        if ((m->kind & 1) && fix[i] >= 0 && pt[i] != fix[i]) mc_fail ("fixed vertex %d of part %ld is mapped to %d", i, fix[i], (int) pt[i]);
      } }
    free (buf); buf = NULL;
    SCOTCH_graphExit (&cg); SCOTCH_stratExit (&st); SCOTCH_contextExit (&ct);
  }
  SCOTCH_graphExit (&gr);
  if (! mc_failed () && ! (m->kind & 32)) {                    /* figures, from the mapping file */
    SCOTCH_graphInit (&gr); f = pr_open ("g.grf", "r"); SCOTCH_graphLoad (&gr, f, -1, 0); fclose (f);
    f = open_memstream (&buf, &len);
    if (m->kind & 16) SCOTCH_graphPartOvlView (&gr, size, pt, f);
    else { SCOTCH_graphMapInit (&gr, &mp, &ar, pt); SCOTCH_graphMapView (&gr, &mp, f); SCOTCH_graphMapExit (&gr, &mp); }
    fclose (f);
    if (pr_ok ((x & 4) ? pr_run ("gmtst%s g.grf g.tgt g.map t.out", (m->kind & 16) ? " -o" : "") : pr_run ("gmtst g.grf g.tgt -%s <g.map t.out", (m->kind & 16) ? " -O" : ""))) same ("t.out", buf, "report");
    if (! (m->kind & 16) && ! mc_failed ()) {                  /* and the cut, by hand */
      double ld[64] = { 0 }, mn = 1e9, mx = 0; int used = 0, a1, a2; b = pr_read ("t.out");
      for (i = 0; i < n; i ++) ld[pt[i]] += g->w[i];
      { char *seen = calloc (size + 1, 1); for (i = 0; i < n; i ++) seen[pt[i]] = 1; for (j = 0; j < size; j ++) if (seen[j]) { used ++; if (ld[j] < mn) mn = ld[j]; if (ld[j] > mx) mx = ld[j]; } free (seen); }
      if (b && sscanf (line (b, "M\tProcessors "), "%d/%d", &a1, &a2) == 2 && (a1 != used || a2 != size)) mc_fail ("'%s' says %d/%d processors, %d/%d are used", pr_cmd, a1, a2, used, (int) size);
      free (b);
    }
    SCOTCH_graphExit (&gr); free (buf);
  }
out:
  SCOTCH_archExit (&ar);
  free (fix); free (old); free (lab); free (pt); free (vm);
}

/* --- gbase, gscat, gcv --- */
static void gtools (const G *g, int x) {
  RF r; char *b; int base, i, j, k;
  for (base = 0; base < 2; base ++) {                          /* base change */
    if (! pr_ok ((x & 1) ? pr_run ("gbase %d g.grf t.grf", base) : pr_run ("gbase <g.grf %d - t.grf", base))) return;
    b = pr_read ("t.grf");
    if (rf_read (&r, b) != 0) mc_fail ("'%s': not a graph file", pr_cmd); else rf_same (&r, g, base, g->vlbl == NULL, 3, pr_cmd);
    if (g->vlbl && ! mc_failed ()) for (i = 0; i < g->n; i ++) if (r.lbl[i] != g->vlbl[i]) mc_fail ("'%s': vertex %d labelled %ld instead of %d", pr_cmd, i, r.lbl[i], (int) g->vlbl[i]);
    rf_exit (&r); free (b);
  }
  for (k = 1; k <= 3 && ! mc_failed (); k ++) {                /* scattering */
    int mode = (x + k) % 3, min = (mode == 0) ? 0 : g->n / k, cnt = 0; long arcs = 0; char nm[20]; Tk t; RF q; long *nb, *idx;
    if (mode == 2) min = (min > 1) ? min - 1 : 0;
    if (min > 0 ? ! pr_ok (pr_run ("gscat %d -i%d g.grf s%%r", k, min)) : ! pr_ok ((x & 1) ? pr_run ("gscat %d g.grf s%%r", k) : pr_run ("gscat %d - s%%r <g.grf", k))) return;
    memset (&q, 0, sizeof (q)); q.n = g->n; q.m = g->m; q.base = g->base; rf_alloc (&q);
    q.pl = g->vlbl != NULL; q.pe = g->edlo != NULL; q.pv = g->velo != NULL;
    nb = calloc (2 * q.m + 1, sizeof (long)); idx = calloc (q.n + 1, sizeof (long));
    { char *all = calloc (1, 100000), *a = all;
      for (j = 0; j < k && ! mc_failed (); j ++) {
        long h[9], c, e, wc = (min > 0) ? (j < k - 1 ? min : g->n - min * (k - 1)) : (g->n + k - 1 - j) / k, f = g->vlbl ? 100 : 0; char *s;
        snprintf (nm, sizeof (nm), "s%d", j); b = pr_read (nm); if (b == NULL) { mc_fail ("'%s': no file for process %d", pr_cmd, j); break; }
        t.p = b; t.bad = 0; for (i = 0; i < 9; i ++) h[i] = tk_num (&t); c = h[5]; e = h[6]; f += (g->edlo ? 10 : 0) + (g->velo ? 1 : 0);
        if (t.bad || h[0] != 2 || h[1] != k || h[2] != j || h[3] != g->n || h[4] != g->m || c != wc || h[7] != g->base || h[8] != f) { mc_fail ("'%s': bad header of file %d (%ld %ld %ld %ld %ld %ld %ld %ld %ld)", pr_cmd, j, h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]); free (b); break; }
        { long d = 0; for (i = cnt; i < cnt + c; i ++) d += (g->vend ? g->vend[i] : g->vert[i + 1]) - g->vert[i]; if (d != e) mc_fail ("'%s': %ld arcs announced in file %d, %ld expected", pr_cmd, e, j, d); }
        cnt += c; arcs += e; s = (char *) t.p; a += sprintf (a, "%s\n", s); free (b);
      }
      if (! mc_failed ()) { t.p = all; t.bad = 0; if (cnt != g->n || arcs != g->m || rf_body (&q, &t, nb, idx) || ! tk_end (&t)) mc_fail ("'%s': files do not hold the graph", pr_cmd); else rf_same (&q, g, g->base, 1, 3, pr_cmd); }
      free (all); }
    rf_exit (&q); free (nb); free (idx);
  }
  if (mc_failed ()) return;
  pr_unlink ("t.geo");
  if (! pr_ok (pr_run ("gcv -is -os g.grf t.grf t.geo"))) return;
  b = pr_read ("t.grf"); if (rf_read (&r, b) != 0) mc_fail ("'%s': not a graph file", pr_cmd); else rf_same (&r, g, g->base, 1, 3, pr_cmd); rf_exit (&r); free (b);
  if (mc_failed () || ! pr_ok ((x & 1) ? pr_run ("gcv -is -OC g.grf t.chac t.geo") : pr_run ("gcv -Is -Oc <g.grf - t.chac t.geo"))) return;
  for (i = k = 0; i < g->n; i ++) if (g->w[i] < 1 || (g->vlbl && (g->vlbl[i] + 1 - g->base < 1 || g->vlbl[i] + 1 - g->base > g->n))) k ++; /* not expressible in Chaco format */
  if (k) pr_refused (pr_run ("gcv -ic t.chac -oS t.grf t.geo"));
  else {
    if (! pr_ok (pr_run ("gcv -ic t.chac -oS t.grf t.geo"))) return;
    b = pr_read ("t.grf"); if (rf_read (&r, b) != 0) mc_fail ("'%s': not a graph file", pr_cmd); else rf_same (&r, g, r.base, 0, 3, pr_cmd); rf_exit (&r); free (b);
  }
  if (mc_failed () || g->n < 1 || g->vlbl || ! pr_ok (pr_run ("gcv -is -om g.grf t.mmk t.geo"))) return;
  if (! pr_ok (pr_run ("gcv -iM -os t.mmk t.grf t.geo"))) return;
  b = pr_read ("t.grf"); if (rf_read (&r, b) != 0) mc_fail ("'%s': not a graph file", pr_cmd); else rf_same (&r, g, r.base, 0, 0, pr_cmd); rf_exit (&r); free (b);
}

/* --- gout --- */
static int edges (const G *g, const unsigned char *seen, const int *lab, int cut, const char *what) {
  int i, j; for (i = 0; i < g->n; i ++) for (j = i + 1; j < g->n; j ++) {
    int w = g_adj (g, i, j) && (! cut || lab[i] == lab[j]);
    if (seen[i * g->n + j] + seen[j * g->n + i] != w) { mc_fail ("'%s': %s: edge %d-%d drawn %d times instead of %d", pr_cmd, what, i, j, seen[i * g->n + j] + seen[j * g->n + i], w); return 0; } }
  return 1;
}
static void gout (const G *g, int x) {
  static const char *opts[] = { "", "-Oi", "-Oi{c}", "-Oi{g,r}", "-Ov", "-oV{r}", "-Ov{v}", "-Ot", "-Ot{b,r}", "-Ot{c,v,d}", "-OT{a}", "-Op", "-Op{g,e,l,a,r}", "-Op{c,f,s,d,v,x=0.1,X=0.9,y=0.2,Y=0.7}", "-Op{e,l,d}" };
  int n = g->n, i, k, dim = 1 + x % 3, nomap = (x >> 1) & 1, lab[300]; unsigned char *seen = malloc (n * n + 1); FILE *f; char *b, *p; double c[300][3]; const char *gp = (x % 5 == 0) ? " -gr" : (x % 5 == 1) ? " -Gp" : "";
  f = pr_open ("g.xyz", "w"); fprintf (f, "%d\n%d\n", dim, n);
  for (i = 0; i < n; i ++) { c[i][0] = i * 1.5 - 2; c[i][1] = (i * i) % 7; c[i][2] = i % 3 + 0.25; }
  for (k = 0; k < n; k ++) { i = (x & 4) ? n - 1 - k : k; fprintf (f, "%d\t%g", (int) (g->vlbl ? g->vlbl[i] : i + g->base), c[i][0]); if (dim > 1) fprintf (f, "\t%g", c[i][1]); if (dim > 2) fprintf (f, "\t%g", c[i][2]); fprintf (f, "\n"); }
  fclose (f);
  for (i = 0; i < n; i ++) { if (dim < 3) c[i][2] = 0; if (dim < 2) c[i][1] = 0; if (x % 5 == 0 && dim < 3) { double t = c[i][1]; c[i][1] = c[i][0]; c[i][0] = - t; } if (x % 5 == 1 && dim == 3) { double t = c[i][1]; c[i][1] = c[i][2]; c[i][2] = t; } }
  f = pr_open ("g.map", "w"); fprintf (f, "%d\n", n - (n > 2)); for (i = 0; i < n; i ++) { lab[i] = (n > 2 && i == 1) ? -1 : (i * 5 + x) % 3 * 9; if (i != 1 || n <= 2) fprintf (f, "%d\t%d\n", (int) (g->vlbl ? g->vlbl[i] : i + g->base), lab[i]); if (nomap) lab[i] = -1; } fclose (f);
  for (k = 0; k < (int) (sizeof (opts) / sizeof (opts[0])) && ! mc_failed (); k ++) {
    char type = opts[k][0] ? opts[k][2] | 32 : 'v'; int cut = strchr (opts[k], '{') && strchr (strchr (opts[k], '{'), 'r') != NULL, cnt = 0;
    pr_unlink ("t.pic");
    if (! pr_ok (pr_run ("gout%s %s%s g.grf g.xyz g.map t.pic", gp, opts[k], nomap ? " -mn" : ""))) break;
    b = pr_read ("t.pic"); if (b == NULL) { mc_fail ("'%s': no output", pr_cmd); break; }
    memset (seen, 0, n * n);
    if (type == 'i') {
      int prev = -1, r, l;
      if (strncmp (b, "#Inventor V2.0 ascii\n", 21)) mc_fail ("'%s': bad header", pr_cmd);
      p = strstr (b, "point [");
      if (p) { p += 7; for (i = 0; i < n; i ++) { double a[3]; if (sscanf (p, "%lf%lf%lf%n", a, a + 1, a + 2, &l) != 3 || ! near (a[0], c[i][0]) || ! near (a[1], c[i][1]) || ! near (a[2], c[i][2])) { mc_fail ("'%s': bad coordinates of vertex %d: %.40s", pr_cmd, i, p); break; } p += l; while (*p == ',') p ++; } }
      p = strstr (b, "coordIndex [");
      if (p) for (p += 12; sscanf (p, "%d%n", &r, &l) == 1; p += l + (p[l] == ',')) { if (r < -1 || r >= n) { mc_fail ("'%s': vertex index %d", pr_cmd, r); break; } if (prev >= 0 && r >= 0) seen[prev * n + r] ++; prev = r; }
      edges (g, seen, lab, cut, "Inventor");
    }
    else if (type == 'v') {
      int a, m, l, r, prev;
      if (strncmp (b, "# vtk DataFile Version 2.0\n", 27)) mc_fail ("'%s': bad header", pr_cmd);
      p = strstr (b, "\nPOINTS ");
      if (p) {
        if (sscanf (p, " POINTS %d float%n", &a, &l) != 1 || a != n) mc_fail ("'%s': %d points", pr_cmd, a);
        else for (p += l, i = 0; i < n; i ++) { double d[3]; if (sscanf (p, "%lf%lf%lf%n", d, d + 1, d + 2, &l) != 3 || ! near (d[0], c[i][0]) || ! near (d[1], c[i][1]) || ! near (d[2], c[i][2])) { mc_fail ("'%s': bad coordinates of vertex %d: %.40s", pr_cmd, i, p); break; } p += l; }
        p = strstr (b, "\nCELLS ");
        if (! mc_failed () && (p == NULL || sscanf (p, " CELLS %d %d%n", &a, &m, &l) != 2)) mc_fail ("'%s': no cells", pr_cmd);
        else if (! mc_failed ()) for (p += l, i = 0; i < a; i ++) { int q, z; if (sscanf (p, "%d%n", &q, &l) != 1) { mc_fail ("'%s': bad cell", pr_cmd); break; } p += l; m -= q + 1;
          for (prev = -1, z = 0; z < q; z ++) { if (sscanf (p, "%d%n", &r, &l) != 1 || r < 0 || r >= n) { mc_fail ("'%s': bad cell point", pr_cmd); break; } p += l; if (prev >= 0) seen[prev * n + r] ++; prev = r; } }
        if (! mc_failed () && m != 0) mc_fail ("'%s': cell sizes do not add up (%d)", pr_cmd, m);
        p = strstr (b, "LOOKUP_TABLE default\n");
        if (p == NULL) mc_fail ("'%s': no values", pr_cmd); else for (p += 21, i = 0; i < n; i ++) { if (sscanf (p, "%d%n", &r, &l) != 1 || r != lab[i] + 1) { mc_fail ("'%s': vertex %d has value %d, part is %d", pr_cmd, i, r, lab[i]); break; } p += l; }
      }
      edges (g, seen, lab, cut, "VTK");
    }
    else if (type == 't') {
      int e, s, d;
      if (strncmp (b, "(tlp \"2.0\"\n", 11)) mc_fail ("'%s': bad header", pr_cmd);
      for (p = b; (p = strstr (p, "\n(edge ")) != NULL; p ++, cnt ++) { if (sscanf (p, " (edge %d %d %d)", &e, &s, &d) != 3 || e != cnt + g->base || s < g->base || d < g->base || s >= n + g->base || d >= n + g->base) { mc_fail ("'%s': bad edge %.30s", pr_cmd, p); break; } seen[(s - g->base) * n + d - g->base] ++; }
      if (! mc_failed ()) edges (g, seen, lab, 0, "Tulip");
      p = strstr (b, "viewLayout\"\n"); if (p == NULL) mc_fail ("'%s': no layout", pr_cmd); else for (p += 12, i = 0; i < n; i ++) { double a[3]; int l; if (sscanf (p, " (node %d \"(%lf,%lf,%lf)\")%n", &e, a, a + 1, a + 2, &l) != 4 || e != i + g->base || ! near (a[0], c[i][0]) || ! near (a[1], c[i][1]) || ! near (a[2], c[i][2])) { mc_fail ("'%s': bad position of vertex %d: %.50s", pr_cmd, i, p); break; } p += l; }
      if (strchr (opts[k], 'd') && ! mc_failed ()) {           /* disks: part of the way to the closest neighbor */
        double ratio = -1; p = strstr (b, "viewSize\"");
        if (p == NULL || (p = strstr (p, "\n(node")) == NULL) mc_fail ("'%s': no disks", pr_cmd);
        else for (i = 0; i < n; i ++) { double a[3], dm = 1e30; int l, j; for (j = 0; j < n; j ++) if (g_adj (g, i, j)) { double q = 0; for (l = 0; l < 3; l ++) q += (c[i][l] - c[j][l]) * (c[i][l] - c[j][l]); if (q < dm) dm = q; } dm = sqrt (dm);
          if (sscanf (p, " (node %d \"(%lf,%lf,%lf)\")%n", &e, a, a + 1, a + 2, &l) != 4) { mc_fail ("'%s': bad disk %.50s", pr_cmd, p); break; }
          if (ratio < 0) ratio = a[0] / dm; else if (fabs (a[0] - ratio * dm) > 1e-4 * (1 + fabs (a[0]))) { mc_fail ("'%s': disk of vertex %d has size %g, closest neighbor at %g, ratio of first disk %g", pr_cmd, i, a[0], dm, ratio); break; }
          p += l; }
      }
    }
    else if (strncmp (b, strchr (opts[k], 'e') ? "%!PS-Adobe-2.0 EPSF-2.0\n" : "%!PS-Adobe-2.0\n", strchr (opts[k], 'e') ? 24 : 15) || (p = strstr (b, "grestore\n")) == NULL || (strstr (p, "showpage") != NULL) != (strchr (opts[k], 'e') == NULL)) mc_fail ("'%s': not a PostScript file of this kind", pr_cmd);
    mc_ops (1);
    free (b);
  }
  if (! mc_failed ()) for (k = 0; k < 2; k ++) {               /* matrix: lower triangle, as rows */
    int a, l, m;
    if (! pr_ok (k ? pr_run ("gout -Om{e} -gn -mn g.grf - - t.pic") : pr_run ("gout -gN -MN -Om{f} <g.grf - - - t.pic"))) break;
    b = pr_read ("t.pic"); memset (seen, 0, n * n);
    p = b ? strstr (b, "setgray newpath\n") : NULL; if (p == NULL) { mc_fail ("'%s': no matrix", pr_cmd); free (b); break; }
    for (p += 16, i = 0; i < n; i ++) { int diag = 0;
      if (sscanf (p, "%d%n", &a, &l) != 1 || a != i) { mc_fail ("'%s': bad row %d: %.20s", pr_cmd, i, p); break; }
      for (p += l; sscanf (p, "%d%n", &a, &l) == 1; ) { char cc; int z = 1; p += l; if (sscanf (p, " %c%n", &cc, &l) != 1) break; if (cc != 'c') { sscanf (p, "%d%n", &z, &l); p += l; sscanf (p, " %c%n", &cc, &l); } p += l; for (m = a; m < a + z && m < n; m ++) { if (m == i) diag ++; else seen[i * n + m] ++; } }
      if (diag != 1) mc_fail ("'%s': diagonal of row %d drawn %d times", pr_cmd, i, diag);
      while (*p == ' ' || *p == '\n') p ++; if (*p == 'p') p ++; }
    if (! mc_failed ()) edges (g, seen, lab, 0, "matrix");
    free (b);
  }
  free (seen);
}

/* --- meshes --- */
static void mwrite (const M *q) {                             /* own writer of the mesh format */
  FILE *f = pr_open ("m.msh", "w"); int i, k, n = q->ne + q->nn; int base = q->base;
  fprintf (f, "1\n%d %d %d\n%d %d %d%d%d\n", q->ne, q->nn, (int) q->m, (int) q->velmbas, (int) q->vnodbas, 0, 0, (q->velo || q->vnlo) ? 1 : 0);
  for (i = base; i < n + base; i ++) {
    int el = i >= q->velmbas && i < q->velmbas + q->ne, u = el ? i - q->velmbas : i - q->vnodbas; int d = 0;
    if (q->velo || q->vnlo) fprintf (f, "%d ", el ? (int) q->ew[u] : (int) q->nw[u]);
    for (k = 0; k < (el ? q->nn : q->ne); k ++) d += el ? q->inc[u * q->nn + k] : q->inc[k * q->nn + u];
    fprintf (f, "%d", d);
    for (k = 0; k < (el ? q->nn : q->ne); k ++) if (el ? q->inc[u * q->nn + k] : q->inc[k * q->nn + u]) fprintf (f, " %d", k + base);
    fprintf (f, "\n");
  }
  fclose (f);
}
static void mesh (const M *q, int x) {
  static const char *mo[] = { "", " -cq", " -Cbs", " -cT", " -os", " -on{sep=h{pass=2},ole=s,ose=s}", " -Og{pass=2}" }; static const int mv[] = { 0, SCOTCH_STRATQUALITY, SCOTCH_STRATBALANCE | SCOTCH_STRATSPEED, SCOTCH_STRATSAFETY, 0, 0, 0 };
  double v[200]; int i, j, k; char *b, *buf; size_t len; FILE *f; SCOTCH_Mesh me; SCOTCH_Strat st; SCOTCH_Ordering od; Num perm[100];
  mwrite (q);
  if (! pr_ok ((x & 1) ? pr_run ("mtst m.msh t.out") : pr_run ("mtst <m.msh - t.out"))) return;
  b = pr_read ("t.out"); if (b == NULL) { mc_fail ("no output"); return; }
  if (atol (line (b, "S\tElements\tnbr=")) != q->ne || atol (line (b, "S\tNodes\tnbr=")) != q->nn || atol (line (b, "S\tEdge\tnbr=")) != q->m / 2) mc_fail ("'%s': bad sizes", pr_cmd);
  for (i = 0; i < q->nn; i ++) v[i] = q->nw[i]; figures (b, "S\tNode load", stat (v, q->nn));
  for (i = 0; i < q->ne; i ++) for (v[i] = j = 0; j < q->nn; j ++) v[i] += q->inc[i * q->nn + j]; figures (b, "S\tElement degree", stat (v, q->ne));
  for (j = 0; j < q->nn; j ++) for (v[j] = i = 0; i < q->ne; i ++) v[j] += q->inc[i * q->nn + j]; figures (b, "S\tNode degree", stat (v, q->nn));
  free (b);
  k = x % 7;
  pr_unlink ("m.ord"); pr_unlink ("m.map"); pr_unlink ("m.tre");
  if (! pr_ok ((x & 1) ? pr_run ("mord%s m.msh m.ord t.log -mm.map -tm.tre -vst", mo[k]) : pr_run ("mord -Tm.tre -Mm.map -vs%s - <m.msh m.ord t.log", mo[k]))) return;
  SCOTCH_meshInit (&me); f = pr_open ("m.msh", "r"); i = SCOTCH_meshLoad (&me, f, -1); fclose (f);
  if (i != 0) mc_fail ("the library refuses the mesh");
  else {
    SCOTCH_randomReset (); SCOTCH_stratInit (&st); if (mv[k]) SCOTCH_stratMeshOrderBuild (&st, mv[k], 0.1); else if (mo[k][0]) SCOTCH_stratMeshOrder (&st, mo[k] + 3);
    SCOTCH_meshOrderInit (&me, &od, perm, NULL, NULL, NULL, NULL);
    if (SCOTCH_meshOrderCompute (&me, &od, &st) != 0) mc_fail ("the library cannot order: %s", mc_errbuf);
    else for (i = 0; i < 3; i ++) {
      f = open_memstream (&buf, &len); if (i == 0) SCOTCH_meshOrderSave (&me, &od, f); else if (i == 1) SCOTCH_meshOrderSaveMap (&me, &od, f); else SCOTCH_meshOrderSaveTree (&me, &od, f); fclose (f);
      same (i == 0 ? "m.ord" : i == 1 ? "m.map" : "m.tre", buf, i == 0 ? "ordering" : i == 1 ? "mapping" : "tree"); free (buf);
    }
    SCOTCH_meshOrderExit (&me, &od); SCOTCH_stratExit (&st);
  }
  SCOTCH_meshExit (&me);
  if (mc_failed () || ! pr_ok (pr_run ("mcv -is m.msh t.msh -os"))) return;  /* conversion to the same format: same mesh */
  SCOTCH_meshInit (&me); f = pr_open ("t.msh", "r"); i = f ? SCOTCH_meshLoad (&me, f, -1) : 1; if (f) fclose (f);
  if (i != 0) mc_fail ("'%s': not a mesh file", pr_cmd);
  else {
    Num ve, vn, ne, nn, m, *vt, *nd, *el, *nl, *lb, *ed, mx; int ok; char *seen = calloc (q->ne * q->nn + 1, 1);
    SCOTCH_meshData (&me, &ve, &vn, &ne, &nn, &vt, &nd, &el, &nl, &lb, &m, &ed, &mx);
    ok = ne == q->ne && nn == q->nn && m == q->m && ve == q->velmbas && vn == q->vnodbas;
    if (ok) for (i = 0; i < ne; i ++) { Num bb = ve < vn ? ve : vn; if (q->velo && el && el[i] != q->ew[i]) ok = 0; for (k = vt[i + ve - bb]; k < nd[i + ve - bb]; k ++) { j = ed[k - bb] - vn; if (j < 0 || j >= nn || seen[i * nn + j]) { ok = 0; break; } seen[i * nn + j] = 1; } }
    if (ok && nl) for (i = 0; i < nn; i ++) if (q->vnlo && nl[i] != q->nw[i]) ok = 0;
    if (ok) for (i = 0; i < ne * nn; i ++) if (seen[i] != q->inc[i]) ok = 0;
    if (! ok) mc_fail ("'%s': mesh changed", pr_cmd);
    free (seen);
  }
  SCOTCH_meshExit (&me);
}

/* --- targets --- */
static int adist (int kind, const int *d, int a, int b) {
  int k, x = 0;
  switch (kind) {
    case 0: return a != b;                                     /* complete */
    case 1: return __builtin_popcount (a ^ b);
    case 2: case 3: for (k = 0; k < d[0]; k ++) { int u = abs (a % d[k + 1] - b % d[k + 1]); if (kind == 3 && u > d[k + 1] / 2) u = d[k + 1] - u; x += u; a /= d[k + 1]; b /= d[k + 1]; } return x;
    default: { int lev, sz = 1; for (lev = d[0] - 1; lev >= 0 && a != b; lev --) { a /= d[1 + 2 * lev]; b /= d[1 + 2 * lev]; x = d[2 + 2 * lev]; (void) sz; } return x; }   /* tree leaf: cost of the highest level crossed */
  }
}
static void atst (int kind, const int *d, const char *text, int n, int x) {
  double *v = malloc ((n * n + 1) * sizeof (double)), r[4]; int i, j, k = 0; char *b, *l; St s;
  if (! mc_case ("atst of %s", text)) { free (v); return; }
  for (i = 0; i < n; i ++) for (j = i + 1; j < n; j ++) v[k ++] = adist (kind, d, i, j);
  s = stat (v, k);
  pr_write ("a.tgt", text);
  if (pr_ok ((x & 1) ? pr_run ("atst a.tgt t.out") : pr_run ("atst - t.out <a.tgt"))) {
    b = pr_read ("t.out"); if (b == NULL) b = strdup ("");
    l = line (b, "A\tDistance\t");
    if (atol (line (b, "A\tTerminals\tnbr=")) != n) mc_fail ("'%s' counts %s terminals for %d", pr_cmd, line (b, "A\tTerminals\tnbr="), n);
    else if (sscanf (l, "min=%lf\tmax=%lf\tavg=%lf\tdlt=%lf", r, r + 1, r + 2, r + 3) != 4) mc_fail ("'%s': output not understood: %s", pr_cmd, b);
    else if (n > 1 && (r[0] != s.mn || r[1] != s.mx || ! near (r[2], s.avg) || ! near (r[3], s.dlt))) mc_fail ("'%s' says %s, should be min=%g max=%g avg=%g dlt=%g", pr_cmd, l, s.mn, s.mx, s.avg, s.dlt);
    free (b); if (n > 2) mc_nontrivial ();
    if (! mc_failed () && pr_ok (pr_run ("acpl a.tgt b.tgt")) && kind == 0 && 0) ;
  }
  free (v);
}

/* --- options --- */
static const struct { const char *name, *use, *opts, *bad; int nfil; const char *kinds; } progs[] = { /* use: valid command; opts: option letters; bad: invalid options among them; nfil: file names accepted; kinds of the input files, in the order of "use" */
  { "gtst", "g.grf o1", "hHV", "", 2, "g.grf" }, { "gmap", "g.grf g.tgt o1 o2", "bBcCfFhHmMoOqQrRsSvV", "-b -b2 -b-1 -bx -cz -Cz -q0 -q -rz -r -rr0 -rr-1 -rr2 -sz -vz -mz{ -mr{sep= -mr{foo=1} -fnone -ronone -q2", 4, "g.grf g.tgt" }, { "gpart", "2 g.grf o1 o2", "bBcCfFhHmMoOqQrRsSvV", "-b -b2 -b-1 -bx -cz -Cz -rz -r -rr0 -rr-1 -rr2 -sz -vz -mz{ -mr{sep= -mr{foo=1} -fnone -ronone -q3", 3, "g.grf" },
  { "gord", "g.grf o1 o2", "cChHmMoOtTvV", "-cz -Cz -vz -oz{ -on{sep= -on{foo=1}", 3, "g.grf" }, { "gotst", "g.grf g.ord o1", "hHvV", "", 3, "g.grf g.ord" }, { "gmtst", "g.grf g.tgt g.map o1", "hHoOV", "", 4, "g.grf g.tgt g.map" }, { "gbase", "1 g.grf o1", "hHV", "", 2, "g.grf" },
  { "gscat", "2 g.grf o%r", "hHiIV", "-i0 -i-1 -i -ix -i50", 2, "g.grf" }, { "gcv", "-is g.grf o1 o2", "hHiIoOV", "-iz -oz -ob -i -o", 3, "g.grf" }, { "mcv", "-is m.msh o1 o2", "hHiIoOV", "-iz -oz -i -o", 3, "m.msh" }, { "mord", "m.msh o1 o2", "cChHmMoOtTvV", "-cz -Cz -vz -oz{ -on{sep= -on{foo=1}", 3, "m.msh" }, { "mtst", "m.msh o1", "hHV", "", 2, "m.msh" }, { "atst", "g.tgt o1", "hHV", "", 2, "g.tgt" },
  { "gout", "g.grf g.xyz g.map o1", "gGhHmMoOV", "-gz -mz -m -mnn -oz -O -Ov{ -Op{c -Op{x} -Op{x=} -Op{x=z} -Op{c=1} -Op{,} -Op{c}z -Ov{z} -Op{x=0.1", 4, "g.grf g.xyz g.map" }, { "gmk_msh", "m.msh o1", "dDhHV", "", 2, "m.msh" }, { "amk_grf", "g.grf o1", "2bBcCdDhHlLV", "-bz{", 2, "g.grf" }, { "acpl", "d.tgt o1", "hHV", "", 2, "d.tgt" } };
#define PROGNBR ((int) (sizeof (progs) / sizeof (progs[0])))
static const char *oG = "0\n4 8\n0 000\n2 1 3\n2 0 2\n2 1 3\n2 0 2\n", *oT = "cmplt 2\n", *oO = "4\n0 3\n1 1\n2 0\n3 2\n", *oM = "4\n0 0\n1 1\n2 0\n3 1\n", *oX = "2\n4\n0 0 0\n1 1 0\n2 1 1\n3 0 1\n", *oMe = "1\n1 4 8\n5 1 000\n1 1\n1 1\n1 1\n1 1\n4 1 2 3 4\n", *oD = "deco 0\n3 5\n0 1 3\n1 1 5\n2 1 4\n1\n2 1\n";
static const char *seed (const char *nm) { return ! strcmp (nm, "g.grf") ? oG : ! strcmp (nm, "g.tgt") ? oT : ! strcmp (nm, "d.tgt") ? oD : ! strcmp (nm, "g.ord") ? oO : ! strcmp (nm, "g.map") ? oM : ! strcmp (nm, "g.xyz") ? oX : oMe; }
static void seeds (void) { pr_write ("g.grf", oG); pr_write ("g.tgt", oT); pr_write ("d.tgt", oD); pr_write ("g.ord", oO); pr_write ("g.map", oM); pr_write ("g.xyz", oX); pr_write ("m.msh", oMe); }
static int noc (int st) { if (st == 0 || st == 1) return 1; mc_fail ("'%s' gave status %d: %s", pr_cmd, st, pr_why ()); return 0; }   /* any clean ending */

static void options (int p) {
  const char *nm = progs[p].name; char c, buf[400], w[60]; const char *s; int i;
  if (mc_case ("%s: valid command line and help", nm)) {
    seeds (); mc_nontrivial (); pr_ok (pr_run ("%s %s", nm, progs[p].use));
    for (i = 0; i < 5; i ++) {
      static const char *h[] = { "?", "-h", "-H", "-V", "-hx" };
      if (pr_ok (pr_run ("%s %s", nm, h[i]))) { char *t = h[i][1] == 'V' ? pr_err : pr_out; if (t == NULL || strstr (t, nm) == NULL) { if (strcmp (nm, "gpart") && strcmp (nm, "gmap")) mc_fail ("'%s' prints nothing about the program", pr_cmd); } }
    }
    snprintf (buf, sizeof (buf), "%s", progs[p].use); for (i = 0; i < 8; i ++) strcat (buf, " f1");   /* too many names */
    pr_refused (pr_run ("%s %s", nm, buf));
  }
  if (mc_case ("%s: unknown options", nm)) for (c = '!'; c <= '~'; c ++) {
    seeds ();
    if (c == '<' || c == '.') continue;
    if (strchr (progs[p].opts, c)) noc (pr_run ("%s %s -%c", nm, progs[p].use, c));
    else pr_refused ((c & 1) ? pr_run ("%s %s -%c", nm, progs[p].use, c) : pr_run ("%s -%cx %s", nm, c, progs[p].use));
    if (mc_failed ()) break;
  }
  if (progs[p].bad[0] && mc_case ("%s: invalid options", nm)) {
    mc_nontrivial (); snprintf (buf, sizeof (buf), "%s", progs[p].bad);
    for (s = buf; sscanf (s, "%59s%n", w, &i) == 1 && ! mc_failed (); s += i) { seeds (); pr_refused (pr_run ("%s %s %s", nm, w, progs[p].use)); }
  }
  if (mc_case ("%s: missing input files, output that cannot be created", nm)) {
    char k[100]; snprintf (k, sizeof (k), "%s", progs[p].kinds); seeds ();
    for (s = k; sscanf (s, "%59s%n", w, &i) == 1; s += i) { pr_unlink (w); pr_refused (pr_run ("%s %s", nm, progs[p].use)); seeds (); }
    { char u[200], *q; snprintf (u, sizeof (u), "%s", progs[p].use); if (strcmp (nm, "gscat") && (q = strstr (u, "o1"))) { char v[300]; snprintf (v, sizeof (v), "%.*snodir/o1%s", (int) (q - u), u, q + 2); pr_refused (pr_run ("%s %s", nm, v)); } else if (q == NULL) pr_refused (pr_run ("gscat 2 g.grf nodir/o%%r")); }
    if (! strcmp (nm, "gscat")) { pr_refused (pr_run ("gscat 2 g.grf o")); pr_refused (pr_run ("gscat 0 g.grf o%%r")); pr_refused (pr_run ("gscat -2 g.grf o%%r")); pr_refused (pr_run ("gscat x g.grf o%%r")); }
    if (! strcmp (nm, "gpart")) { pr_refused (pr_run ("gpart 0 g.grf")); pr_refused (pr_run ("gpart x g.grf")); }
    if (! strcmp (nm, "gbase")) pr_refused (pr_run ("gbase x1 -1 g.grf"));
    if (! strcmp (nm, "gord")) { pr_refused (pr_run ("gord -cs -os g.grf o1")); pr_refused (pr_run ("gord g.grf o1 -mnodir/x")); pr_refused (pr_run ("gord g.grf o1 -tnodir/x")); }
    if (! strcmp (nm, "gmap") || ! strcmp (nm, "gpart")) { const char *u = progs[p].use; pr_refused (pr_run ("%s -cs -mr{sep=h} %s", nm, u)); pr_refused (pr_run ("%s -b0.1 -mr{sep=h} %s", nm, u)); pr_refused (pr_run ("%s -o -fg.map %s", nm, u)); pr_refused (pr_run ("%s -o -rog.map %s", nm, u)); pr_refused (pr_run ("%s -rvg.map %s", nm, u)); if (! strcmp (nm, "gpart")) pr_refused (pr_run ("%s -o -q %s", nm, u)); }
  }
  { char k[100]; snprintf (k, sizeof (k), "%s", progs[p].kinds);
    for (s = k; sscanf (s, "%59s%n", w, &i) == 1; s += i) {
      const char *t = seed (w); int len = strlen (t), cut;
      if (mc_case ("%s: '%s' truncated everywhere", nm, w)) for (cut = 0, mc_nontrivial (); cut < len && ! mc_failed (); cut ++) {
        int o, end = 0; const char *q; seeds (); snprintf (buf, sizeof (buf), "%.*s", cut, t); pr_write (w, buf);
        o = pr_run ("%s %s", nm, progs[p].use);
        for (q = t + cut; *q && strchr (" \t\n", *q); q ++) ; end = *q == 0;   /* only blanks are missing */
        if (end) { pr_ok (o); continue; }
        if (! strcmp (w, "g.map")) noc (o);                    /* mapping files may be partial */
        else if (cut == 0 || strchr (" \t\n", t[cut - 1]) || strchr (" \t\n", t[cut])) { if (! (! strcmp (nm, "gmk_msh") && 0)) pr_refused (o); }
        else noc (o);
        mc_ops (1);
      }
      if (mc_case ("%s: '%s' with each number replaced", nm, w)) {
        static const char *rep[] = { "-1", "99", "x", "2147483647", "" }; int r; const char *q;
        for (q = t; *q && ! mc_failed (); q ++) if (q == t || strchr (" \n", q[-1])) { int l = strcspn (q, " \n"); if (l) for (r = 0; r < 5 && ! mc_failed (); r ++) {
          seeds (); snprintf (buf, sizeof (buf), "%.*s%s%s", (int) (q - t), t, rep[r], q + l); pr_write (w, buf); noc (pr_run ("%s %s", nm, progs[p].use)); if (mc_failed ()) mc_fail ("with '%s' for number %.*s at byte %d of %s", rep[r], l, q, (int) (q - t), w); } }
      }
    } }
}

static int x;
static void chain (G *g) {
  int k; x ++;
  if (mc_case ("gtst, gbase, gscat, gcv (%d) on %s", x, g->desc)) { pr_write ("g.grf", gfile (g)); if (g->m) mc_nontrivial (); gtst (g, x % 3); gtools (g, x); mc_state (g->hash); }
  for (k = 0; k < (mc_thorough ? MAPNBR : 4); k ++) { int s = mc_thorough ? k : (x * 5 + k * 7) % MAPNBR; if (mc_case ("gmap%s, gmtst (%d, target %d) on %s", maps[s].o, x, (x + k) % 9, g->desc)) { pr_write ("g.grf", gfile (g)); if (g->m) mc_nontrivial (); gmap (g, s, (x + k) % 9, x + k); } }
  if (g->velo) for (k = 0; k < g->n; k ++) if (g->velo[k] == 0) g->velo[k] = g->w[k] = 3; /* null vertex loads: known finding of C07, with its own witness */
  for (k = 0; k < (mc_thorough ? GORDNBR : 2); k ++) { int s = mc_thorough ? k : (x * 2 + k) % GORDNBR; if (mc_case ("gord%s, gotst (%d) on %s", gords[s].o, x, g->desc)) { pr_write ("g.grf", gfile (g)); if (g->m) mc_nontrivial (); gord (g, s, x); } }
}
void mc_run (void) {
  int set = atoi (getenv ("MC_SET")), n, i, k; Shape s; G g;
  sh_init (&s);
  if (set == 1) {
    for (n = 1; n <= (mc_thorough ? 6 : 5); n ++) for (i = 0; sh_atlas (&s, n, i); i ++) for (k = 0; k < (mc_thorough ? 4 : 2); k ++) { g_make (&g, &s, (i + k) & 1, LAY_COMPACT, (i + k / 2) % 3, (i / 2 + k) % 2, (i / 3 + 2 * k) % 3); chain (&g); g_exit (&g); }
    for (i = 0; sh_family (&s, i, mc_thorough ? 1 : 0); i ++) if (s.n <= 80) { g_make (&g, &s, i & 1, LAY_COMPACT, i % 3, (i / 2) % 2, (i / 2) % 3); chain (&g); g_exit (&g); }
  }
  else if (set == 2) {
    M q; int ne, nn, d[6]; u64 mask; char t[200];
    for (n = 1; n <= (mc_thorough ? 6 : 5); n ++) for (i = 0; sh_atlas (&s, n, i); i ++) for (k = 0; k < (mc_thorough ? 6 : 1); k ++) { x ++; g_make (&g, &s, x & 1, LAY_COMPACT, 0, 0, x % 3); if (mc_case ("gout (%d) on %s", x, g.desc)) { pr_write ("g.grf", gfile (&g)); if (g.m) mc_nontrivial (); gout (&g, x); } g_exit (&g); }
    for (i = 0; sh_family (&s, i, 0); i ++) if (s.n <= 40) { x ++; g_make (&g, &s, x & 1, LAY_COMPACT, 0, 0, x % 3); if (mc_case ("gout (%d) on %s", x, g.desc)) { pr_write ("g.grf", gfile (&g)); mc_nontrivial (); gout (&g, x); } g_exit (&g); }
    for (ne = 1; ne <= 3; ne ++) for (nn = 1; nn <= 3; nn ++) for (mask = 0; mask < (1ULL << (ne * nn)); mask ++) {
      if (! mc_thorough && ne * nn > 4 && mask % (ne * nn > 6 ? 11 : 3)) continue;
      x ++; m_make (&q, ne, nn, mask, x & 1, (x >> 1) & 1, LAY_COMPACT, (x / 3) % 2, (x / 3) % 2, 0);
      if (mc_case ("mtst, mord, mcv (%d) on %s", x, q.desc)) { if (mask) mc_nontrivial (); mesh (&q, x); } m_exit (&q);
    }
    for (i = 0; m_family (&q, i, i & 1, (i >> 1) & 1, LAY_COMPACT, i % 2, i % 2, 0); i ++) { x ++; if (q.nn < 100 && mc_case ("mtst, mord, mcv (%d) on %s", x, q.desc)) { mc_nontrivial (); mesh (&q, x); } m_exit (&q); }
    for (n = 1; n <= (mc_thorough ? 40 : 12); n ++) { snprintf (t, sizeof (t), "cmplt %d\n", n); atst (0, NULL, t, n, n); }
    for (n = 0; n <= (mc_thorough ? 8 : 5); n ++) { snprintf (t, sizeof (t), "hcub %d\n", n); atst (1, NULL, t, 1 << n, n); }
    for (d[0] = 2; d[0] <= 3; d[0] ++) for (d[1] = 1; d[1] <= 5; d[1] ++) for (d[2] = 1; d[2] <= 4; d[2] ++) for (d[3] = 1; d[3] <= (d[0] == 3 ? 3 : 1); d[3] ++) for (k = 0; k < 2; k ++) {
      if (d[0] == 3 && ! mc_thorough && (d[1] + d[2] + d[3]) % 3) continue;
      if (d[0] == 2) snprintf (t, sizeof (t), "%s2D %d %d\n", k ? "torus" : "mesh", d[1], d[2]); else snprintf (t, sizeof (t), "%s3D %d %d %d\n", k ? "torus" : "mesh", d[1], d[2], d[3]);
      atst (2 + k, d, t, d[1] * d[2] * (d[0] == 3 ? d[3] : 1), d[1]); }
    for (d[1] = 2; d[1] <= 4; d[1] ++) for (d[2] = 1; d[2] <= 5; d[2] += 2) { int z = d[2]; d[0] = 1; snprintf (t, sizeof (t), "tleaf 1 %d %d\n", d[1], z); atst (4, d, t, d[1], z); d[0] = 2; for (d[3] = 2; d[3] <= 3; d[3] ++) { d[4] = 1; snprintf (t, sizeof (t), "tleaf 2 %d %d %d 1\n", d[1], z, d[3]); atst (4, d, t, d[1] * d[3], z); } d[2] = z; }
  }
  else for (i = 0; i < PROGNBR; i ++) options (i);
  sh_exit (&s);
}
