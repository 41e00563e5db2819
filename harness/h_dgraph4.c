/* Files of distributed graphs (35): centralised and distributed loading, saving, on every distribution. */
#include "dcommon.h"
typedef struct { D *d; const Shape *s; unsigned seed; int step; char *txt; G *e; Num base, flag; } A;
static EX X; static char *FR[DMAXP]; static size_t FL[DMAXP]; static int RET[DMAXP]; static Num LB[600];
static char *central (const G *g, int sep) {              /* independent writer of the centralised format */
  char *b; size_t l; FILE *f = open_memstream (&b, &l); int i, j; Num e; const char *t = sep ? " " : "\t";
  fprintf (f, "0\n%d%s%ld\n%ld%s%s%03d\n", g->n, t, (long) g->m, (long) g->base, t, sep == 2 ? "\n\n" : "", (g->vlbl ? 100 : 0) + (g->edlo ? 10 : 0) + (g->velo ? 1 : 0));
  for (i = 0; i < g->n; i ++) {
    Num a = g->vert[i], z = g->vend ? g->vend[i] : g->vert[i + 1];
    if (g->vlbl) fprintf (f, "%ld%s", (long) g->vlbl[i], t);
    if (g->velo) fprintf (f, "%ld%s", (long) g->velo[i], t);
    fprintf (f, "%ld", (long) (z - a));
    for (e = a; e < z; e ++) { if (g->edlo) fprintf (f, "%s%ld", t, (long) g->edlo[e - g->base]); j = g->edge[e - g->base] - g->base; fprintf (f, "%s%ld", sep == 2 && e % 3 == 1 ? "\n" : t, (long) (g->vlbl ? g->vlbl[j] : j + g->base)); }
    fprintf (f, "%s", sep == 2 && i == g->n - 1 ? "" : "\n");
  }
  fclose (f); return b;
}
static FILE *rd (const char *b) { size_t l = strlen (b); FILE *f = l > 0 ? fmemopen ((void *) b, l, "r") : fopen ("/dev/null", "r"); if (! f) abort (); return f; }
/* What is expected of a loaded graph: graph e, with these counts */
static void setx (D *d, G *e, const int *cnt, int haslbl, const Num *lbl) {
  int p, i, k; X.n = e->n; X.g = e; X.anyorder = 0; X.haslbl = haslbl;
  for (p = k = 0; p < d->np; p ++) { X.max[p] = cnt[p]; for (i = 0; i < cnt[p]; i ++, k ++) { X.v[k] = k; X.own[k] = p; X.num[k] = k + e->base; X.lbl[k] = lbl ? lbl[k] : 0; } }
}
static void mkexp (A *a, G *e, Num base, Num flag) {
  G *g = a->d->g; int i;
  g_make (e, a->s, base, 0, (flag & 1) ? 0 : g->vk, (flag & 2) ? 0 : g->ek, g->lk); (void) i;
}
static void agree (int r, int np, int want, const char *what) {       /* want: 1 all succeed, 0 all fail, -1 all alike */
  int p; sync_ ();
  if (r == 0) for (p = 0; p < np; p ++) { if (want == 1 && RET[p] != 0) F ("%s: failed on process %d", what, p); if (want == 0 && RET[p] == 0) F ("%s: success on process %d", what, p); if (!! RET[p] != !! RET[0]) F ("%s: processes 0 and %d disagree (%d,%d)", what, p, RET[0], RET[p]); }
  sync_ ();
}
static void r_cent (int r, void *a_) {
  A *a = a_; D *d = a->d; int np = d->np, root, cnt[DMAXP], n = d->g->n; SCOTCH_Dgraph g; Num b, fl; FILE *f; int z = 0; char w[200];
  d_even (n, np, cnt);
  for (root = np > 1 ? -1 : 0; root < np; root ++) for (b = -1; b <= 1; b ++) for (fl = 0; fl < 4; fl ++, z ++) {
    if (! mc_thorough && (root + b + fl + a->seed) % 3 && ! (b == -1 && fl == 0)) continue;
    snprintf (w, sizeof (w), "loading a centralised file from %s%d, base %ld, flags %ld", root < 0 ? "all processes " : "process ", root, (long) b, (long) fl);
    sync_ (); if (r == 0) { mkexp (a, a->e, b < 0 ? d->g->base : b, fl); setx (d, a->e, cnt, d->g->vlbl != NULL, d->g->vlbl); } sync_ ();
    f = root < 0 || r == root ? rd (a->txt) : NULL;
    if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
    RET[r] = SCOTCH_dgraphLoad (&g, f, b, fl); agree (r, np, 1, w);
    if (f) fclose (f);
    expect (r, np, &g, &X, w);
    SCOTCH_dgraphExit (&g);
    sync_ (); if (r == 0) g_exit (a->e); sync_ ();
  }
}
static Num tok (char **p) { char *q; Num v = strtol (*p, &q, 10); if (q == *p) F ("file of a process ends too soon"); *p = q; return v; }
static void savecheck (int r, D *d) {                      /* independent reading of the fragment of process r */
  char *p = FR[r]; int i, k, np = d->np, lbl; Num b = d->g->base, pr, e; G *g = d->g;
  lbl = g->vlbl != NULL || d->beg[np] - b != g->n;
  if (tok (&p) != 2 || tok (&p) != np || tok (&p) != r || tok (&p) != g->n || tok (&p) != g->m || tok (&p) != d->cnt[r] || tok (&p) != d->m[r] || tok (&p) != b) F ("process %d: wrong header in saved file: %s", r, FR[r]);
  pr = tok (&p); if (pr != (lbl ? 100 : 0) + (g->edlo ? 10 : 0) + (g->velo ? 1 : 0)) F ("process %d: wrong property value %ld in saved file", r, (long) pr);
  for (i = 0; i < d->cnt[r]; i ++) {
    int v = d->off[r] + i; Num dg; static int seen[600];
    if (lbl && tok (&p) != LB[v]) F ("process %d: wrong label of vertex %d in saved file: %s", r, i, FR[r]);
    if (g->velo && tok (&p) != g->w[v]) F ("process %d: wrong load of vertex %d in saved file: %s", r, i, FR[r]);
    for (k = dg = 0; k < g->n; k ++) { seen[k] = 0; dg += g_adj (g, v, k); }
    if (tok (&p) != dg) F ("process %d: wrong degree of vertex %d in saved file: %s", r, i, FR[r]);
    for (e = 0; e < dg; e ++) { Num w = g->edlo ? tok (&p) : 1, x = tok (&p); for (k = 0; k < g->n && (lbl ? LB[k] : d_num (d, k)) != x; k ++) ; if (k >= g->n || ! g_adj (g, v, k) || seen[k] || (g->edlo && w != g->ew[v * g->n + k])) F ("process %d: wrong arc of vertex %d in saved file: %s", r, i, FR[r]); seen[k] = 1; }
  }
  while (*p == ' ' || *p == '\n' || *p == '\t') p ++;
  if (*p) F ("process %d: saved file is too long: %s", r, FR[r]);
}
static void r_dist (int r, void *a_) {
  A *a = a_; D *d = a->d; int np = d->np, i, n = d->g->n, lbl, p; SCOTCH_Dgraph g, h; Num b, fl; FILE *f; char w[200]; const char *x;
  sync_ (); if (r == 0) for (i = 0; i < n; i ++) LB[i] = d->g->vlbl ? d->g->vlbl[i] : d_num (d, i); sync_ ();
  lbl = d->g->vlbl != NULL || d->beg[np] - d->g->base != n;
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (d, r, &g) != 0) F ("process %d: valid graph not built", r);
  free (FR[r]); f = open_memstream (&FR[r], &FL[r]); RET[r] = SCOTCH_dgraphSave (&g, f); fclose (f); agree (r, np, 1, "saving");
  savecheck (r, d);
  for (b = -1; b <= 1; b ++) for (fl = 0; fl < 4; fl ++) {
    if (! mc_thorough && (b + fl + a->seed) % 3 && ! (b == -1 && fl == 0)) continue;
    snprintf (w, sizeof (w), "loading a distributed file, base %ld, flags %ld", (long) b, (long) fl);
    sync_ (); if (r == 0) { mkexp (a, a->e, b < 0 ? d->g->base : b, fl); setx (d, a->e, d->cnt, lbl, LB); } sync_ ();
    if (SCOTCH_dgraphInit (&h, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
    f = rd (FR[r]); RET[r] = SCOTCH_dgraphLoad (&h, f, b, fl); fclose (f); agree (r, np, 1, w);
    expect (r, np, &h, &X, w);
    if (b == -1 && fl == 0) {                             /* saved again: the same text, but for unused numbers */
      char *b2; size_t l2; f = open_memstream (&b2, &l2); if (SCOTCH_dgraphSave (&h, f) != 0) F ("second save failed"); fclose (f);
      if (strcmp (b2, FR[r]) != 0) F ("process %d: graph loaded from\n%sis saved as\n%s", r, FR[r], b2); free (b2);
    }
    SCOTCH_dgraphExit (&h);
    sync_ (); if (r == 0) g_exit (a->e); sync_ ();
  }
  /* Requests that must be refused everywhere */
  for (i = 0; i < 6; i ++) {
    x = FR[r]; b = fl = 0; snprintf (w, sizeof (w), "bad request %d", i);
    if (i == 0) x = NULL;                                                         /* no stream at all */
    if (i == 1) { if (np < 3) continue; x = r < 2 ? a->txt : NULL; }              /* several of the processes have a centralised file */
    if (i == 2) { if (np < 2) continue; x = r == np - 1 ? FR[r] : NULL; }         /* one fragment only */
    if (i == 3) { if (np < 2) continue; x = FR[(r + 1) % np]; }                   /* fragments of others */
    if (i == 4) { if (np < 2) continue; b = r == 0; }                             /* distinct base values */
    if (i == 5) { if (np < 2) continue; x = r == 0 ? a->txt : FR[r]; }            /* different kinds of files */
    if (SCOTCH_dgraphInit (&h, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
    f = x ? rd (x) : NULL; RET[r] = SCOTCH_dgraphLoad (&h, f, b, fl); if (f) fclose (f); agree (r, np, 0, w);
    SCOTCH_dgraphExit (&h); if (r == 0) mc_ops (1);
  }
  sync_ (); (void) p;
  SCOTCH_dgraphExit (&g);
}
static void after (void *a_) { A *a = a_; int p; if (! g_same (a->d->g)) mc_fail ("arrays of the caller were changed"); if (! mc_failed () && pm_leaks ()) mc_fail ("%d communication objects are never freed", pm_leaks ()); for (p = 0; p < DMAXP; p ++) { free (FR[p]); FR[p] = NULL; } }
static void one (Shape *s, D *d, int z, int kd) {
  A a; G e; memset (&a, 0, sizeof (a)); memset (&e, 0, sizeof (e)); a.d = d; a.s = s; a.seed = z; a.e = &e; a.txt = central (d->g, z % 3);
  explore (d->np, modes[z & 3], kd ? r_dist : r_cent, after, &a); free (a.txt);
}
void mc_run (void) {
  Shape s; G g; D d; int n, np, k, x, z, q, kd; u64 m; int cnt[DMAXP];
  sh_init (&s); dmaxruns[0] = 30;
  for (n = 0; n <= (mc_thorough ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= 5; np ++) for (kd = 0; kd < 2; kd ++) for (k = 0; (kd == 0) ? k < 1 : d_split (n, np, k, cnt); k ++)
    for (x = 0; x < (mc_thorough ? 6 : n <= 3 ? 4 : 2); x ++) {
      z = (int) (m * 7 + k * 3 + np + x * 5 + kd); if (kd && n == 4 && ! mc_thorough && (z + np) % 2) continue;
      if (! mc_case ("%s n=%d mask=%llu np=%d split=%d variant=%d", kd ? "distributed" : "centralised", n, (unsigned long long) m, np, k, x)) continue;
      sh_mask (&s, n, m); g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, (z / 3 + x) % 3); if (! kd) d_even (n, np, cnt);
      d_make (&d, &g, np, cnt, kd == 0 || (z / 4) % 3 ? 0 : (z / 5) & 15, kd ? (z / 3) % 3 : 0, (z / 7) & 1);
      one (&s, &d, z, kd); if (g.m > 0 && np > 1) mc_nontrivial ();
      if (mc_failed () && mc_verbose) printf ("%s %s\n", g.desc, d.desc);
      d_exit (&d); g_exit (&g);
    }
  for (q = 0; sh_family (&s, q, mc_thorough ? 1 : 0); q ++) for (np = 2; np <= 8; np ++) for (kd = 0; kd < 2; kd ++) for (x = 0; x < 3; x ++) {
    if (s.n > 150 || s.n <= 8 || (! mc_thorough && (x + np + q) % 2)) continue;
    if (! mc_case ("%s family=%d (%s) np=%d variant=%d", kd ? "distributed" : "centralised", q, s.name, np, x)) continue;
    z = q + np + x * 3; g_make (&g, &s, z & 1, 0, z % 5, (z / 2) % 4, x == 2);
    if (x == 0 || ! kd) d_even (s.n, np, cnt); else { int left = s.n, p; for (p = 0; p < np - 1; p ++) { cnt[p] = (x & 1) ? left / 3 : (p & 1) ? left / 2 : 0; left -= cnt[p]; } cnt[np - 1] = left; }
    d_make (&d, &g, np, cnt, kd && x == 1 ? 5 : 0, g.vlbl || ! kd ? 0 : x % 3, z & 1);
    if (! mc_thorough) dmaxruns[0] = 4;
    one (&s, &d, z, kd); mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  sh_exit (&s);
}
