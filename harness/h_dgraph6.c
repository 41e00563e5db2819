/* Distributed mappings (33): every strategy on every distribution gives every vertex a terminal; files and figures agree. */
#include "dcommon.h"
#include "aspace.h"
static const char *strats[] = {
  "r{sep=q{strat=h},seq=r{job=t,map=t,poli=S,sep=h{pass=2}f}}",
  "r{sep=q{strat=h{pass=2}f}x{bal=0.1},seq=r{job=u,map=u,poli=L,sep=g}}",
  "r{sep=z,seq=r{job=t,map=t,poli=S,sep=z}}",
  "r{bal=0.2,sep=m{vert=2,dvert=100,fold=d,asc=b{width=1,bnd=q{strat=f},org=q{strat=f}},low=q{strat=h{pass=2}},seq=q{strat=h{pass=2}f}},seq=r{job=t,map=t,poli=S,sep=h{pass=2}f}}",
  "r{sep=m{vert=2,dvert=100,fold=f,rat=1,pass=3,asc=q{strat=f},low=q{strat=g},seq=q{strat=m{vert=2,low=h{pass=2},asc=f}}},seq=r{job=t,map=t,poli=r,sep=m{vert=2,low=h{pass=2},asc=b{bnd=f,org=f}}}}",
  "r{sep=m{vert=3,dvert=2,fold=n,rat=0.8,asc=b{width=2,bnd=d{pass=4,dif=1,rem=0},org=q{strat=f}},low=q{strat=g},seq=q{strat=h}},seq=r{job=t,map=t,poli=S,sep=g}}",
  "r{sep=q{strat=g}b{width=1,bnd=x{bal=0,sbbt=3},org=q{strat=f}},seq=b{width=1,bnd=f,org=r{sep=h}}}",
  "r{sep=q{strat=h}b{width=1,bnd=d{pass=3,dif=1,rem=0,type=b},org=q{strat=f}},seq=r{sep=h}}",
  "r{sep=q{strat=h}b{width=1,bnd=d{pass=3,dif=0.5,rem=0.5,type=k},org=x{bal=0.2}},seq=m{vert=2,low=r{sep=h},asc=f}}",
  "r{sep=q{strat=g}|q{strat=h{pass=2}f},seq=r{sep=h}f}", "r{sep=/(proc>2)?q{strat=h}:z;,seq=/(vert>3)?r{sep=h}:r{sep=g};}",
  "r{sep=/((load0>2)&(edge<30))|(levl=0)?q{strat=h}x{bal=0.05}:q{strat=g};,seq=r{sep=h}}", "r{sep=q{strat=z}x{bal=0,sbbt=5},seq=r{sep=z}}",
};
#define SNBR ((int) (sizeof (strats) / sizeof (strats[0])))
#define PREDEF 8
static const Num flags[PREDEF] = { -1, 0, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE | SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATBALANCE | SCOTCH_STRATSCALABILITY, SCOTCH_STRATRECURSIVE };
static A archs[40]; static int archnbr, reals;
typedef struct { D *d; int k, z; A *a; } X;
static int RET[DMAXP], IX[600]; static Num PT[600];
static void agree (int r, int np, int want, const char *what) {
  int p; sync_ ();
  if (r == 0) for (p = 0; p < np; p ++) { if (want == 1 && RET[p] != 0) F ("%s: failed on process %d", what, p); if (want == 0 && RET[p] == 0) F ("%s: success on process %d", what, p); }
  sync_ ();
}
static Num lbl_ (D *d, int i) { return d->g->vlbl ? d->g->vlbl[i] : i + d->g->base; }
static Num tok (char **p, const char *b) { char *q; Num v = strtol (*p, &q, 10); if (q == *p) F ("mapping file ends too soon: %s", b); *p = q; return v; }
static void filecheck (D *d, char *buf) {
  char *p = buf, seen[600]; int i, j, n = d->g->n; Num v, w; memset (seen, 0, sizeof (seen));
  if (tok (&p, buf) != n) F ("mapping file has wrong size: %s", buf);
  for (i = 0; i < n; i ++) {
    v = tok (&p, buf); w = tok (&p, buf);
    for (j = 0; j < n && lbl_ (d, j) != v; j ++) ;
    if (j >= n || seen[j]) F ("mapping file has unknown or repeated label %ld: %s", (long) v, buf);
    seen[j] = 1; if (w != PT[j]) F ("mapping file says %ld for vertex %d instead of %ld: %s", (long) w, j, (long) PT[j], buf);
  }
  while (*p == ' ' || *p == '\n' || *p == '\t') p ++;
  if (*p) F ("mapping file is too long: %s", buf);
}
static int near (double a, double b) { double d = a - b, m = (b < 0 ? -b : b); if (d < 0) d = -d; return d <= 1.1e-6 + m * 1.1e-5; }
static void figures (int r, D *d, SCOTCH_Dgraph *g, SCOTCH_Dmapping *m, A *a, int z) {
  G *gr = d->g; int n = gr->n, i, j, k, np = d->np, nb, nmin = -1, nmax = 0, nsum = 0, used = 0, dm = 0; double avg, dl = 0, davg, ddlt; Num load[600], mn = -1, mx = 0, sum = 0, hist[256], tot = 0, dil = 0, ex = 0;
  Num q[9], cd[256]; char *buf, *l; size_t len; FILE *f; int root = (z + 1) % np; Num x1;
  if (a->var || gr->m == 0) return;
  memset (load, 0, sizeof (load)); memset (hist, 0, sizeof (hist));
  for (i = 0; i < n; i ++) { load[IX[i]] += gr->w[i]; sum += gr->w[i]; if (gr->w[i] <= 0) return; }
  for (k = 0; k < a->n; k ++) if (load[k]) { Num v = (Num) ((double) load[k] / a->wght[k] + 0.5); used ++; if (mn < 0 || v < mn) mn = v; if (v > mx) mx = v; }
  avg = (double) sum / used;
  for (k = 0; k < a->n; k ++) if (load[k]) {
    char nbs[600]; memset (nbs, 0, sizeof (nbs)); dl += fabs (load[k] - avg);
    for (nb = 0, i = 0; i < n; i ++) if (IX[i] == k) for (j = 0; j < n; j ++) if (g_adj (gr, i, j) && IX[j] != k && ! nbs[IX[j]]) { nbs[IX[j]] = 1; nb ++; }
    if (nmin < 0 || nb < nmin) nmin = nb; if (nb > nmax) nmax = nb; nsum += nb;
  }
  dl /= used * avg;
  for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (g_adj (gr, i, j)) { Num e = gr->ew[i * n + j], t = a->dist[IX[i] * a->n + IX[j]]; tot += e; dil += t; ex += e * t; if (t > 255) t = 255; hist[t] += e; if (t > dm) dm = t; }
  for (i = 0; i < 9; i ++) q[i] = -9;
  if (z % 3 != 1) {
    if (SCOTCH_dgraphMapStat (g, m, &q[0], &q[1], &q[2], &q[3], &davg, &ddlt, &q[4], &q[5], &q[6], &q[7], cd, &q[8], &x1, NULL) != 0) F ("dgraphMapStat failed");
    if (q[0] != a->n || q[1] != used || q[2] != mn || q[3] != mx || ! near (davg, avg) || ! near (ddlt, dl)) F ("figures: targets %ld used %ld min %ld max %ld avg %g dlt %g instead of %d %d %ld %ld %g %g", (long) q[0], (long) q[1], (long) q[2], (long) q[3], davg, ddlt, a->n, used, (long) mn, (long) mx, avg, dl);
    if (q[4] != nsum || q[5] != nmin || q[6] != nmax) F ("figures: neighbors sum %ld min %ld max %ld instead of %d %d %d", (long) q[4], (long) q[5], (long) q[6], nsum, nmin, nmax);
    if (q[8] != tot || x1 != dil) F ("figures: loads %ld %ld instead of %ld %ld", (long) q[8], (long) x1, (long) tot, (long) dil);
    if (q[7] != dm) F ("figures: largest distance is %ld instead of %d", (long) q[7], dm);
    for (i = 0; i < 256; i ++) if (cd[i] != hist[i]) F ("figures: load at distance %d is %ld instead of %ld", i, (long) cd[i], (long) hist[i]);
  }
  x1 = -9; q[0] = -9;
  if (SCOTCH_dgraphMapStat (g, m, z & 1 ? &q[0] : NULL, NULL, NULL, NULL, NULL, NULL, NULL, z & 2 ? &q[5] : NULL, NULL, NULL, NULL, NULL, NULL, z & 4 ? &x1 : NULL) != 0) F ("dgraphMapStat failed");
  if (((z & 1) && q[0] != a->n) || ((z & 2) && q[5] != nmin) || ((z & 4) && x1 != ex)) F ("figures asked for alone are wrong");
  sync_ ();
  f = r == root ? open_memstream (&buf, &len) : NULL;
  RET[r] = SCOTCH_dgraphMapView (g, m, f); if (f) fclose (f);
  agree (r, np, 1, "viewing");
  if (f) {
    int seen = 0; char *sv; long x, y, w; double u, v, t;
    for (l = strtok_r (buf, "\n", &sv); l; l = strtok_r (NULL, "\n", &sv)) {
      if (sscanf (l, "M\tProcessors %ld/%ld(%lf)", &x, &y, &u) == 3) { seen |= 1; if (x != used || y != a->n || ! near (u, (double) used / a->n)) F ("report says '%s', %d of %d are used", l, used, a->n); }
      else if (sscanf (l, "M\tTarget min=%ld\tmax=%ld\tavg=%lf\tdlt=%lf\tmaxavg=%lf", &x, &y, &u, &v, &t) == 5) { seen |= 2; if (x != mn || y != mx || ! near (u, avg) || ! near (v, dl) || ! near (t, mx / avg)) F ("report says '%s', should be min %ld max %ld avg %g dlt %g", l, (long) mn, (long) mx, avg, dl); }
      else if (sscanf (l, "M\tNeighbors min=%ld\tmax=%ld\tsum=%ld", &x, &y, &w) == 3) { seen |= 4; if (x != nmin || y != nmax || w != nsum) F ("report says '%s', should be min %d max %d sum %d", l, nmin, nmax, nsum); }
      else if (sscanf (l, "M\tCommDilat=%lf\t(%ld)", &u, &x) == 2) { seen |= 8; if (x != dil || ! near (u, (double) dil / (gr->m / 2))) F ("report says '%s', total dilation is %ld", l, (long) dil); }
      else if (sscanf (l, "M\tCommExpan=%lf\t(%ld)", &u, &x) == 2) { seen |= 16; if (x != ex || ! near (u, (double) ex / tot)) F ("report says '%s', total expansion is %ld", l, (long) ex); }
      else if (sscanf (l, "M\tCommCutSz=%lf\t(%ld)", &u, &x) == 2) { seen |= 32; if (x != tot - hist[0] || ! near (u, (double) (tot - hist[0]) / tot)) F ("report says '%s', cut is %ld", l, (long) (tot - hist[0])); }
    }
    if (seen != 63) F ("lines are missing in the report (%x)", seen);
    free (buf);
  }
  sync_ ();
}
static void r_map (int r, void *x_) {
  X *x = x_; D *d = x->d; A *a = x->a; int np = d->np, n = d->g->n, i, k, q, root, z = x->z, part = ! strncmp (a->desc, "cmplt(", 6) && (z % 3 == 0), zero = 0; SCOTCH_Dgraph g; SCOTCH_Dmapping m; SCOTCH_Strat st; Num *loc; char *buf; size_t len; FILE *f;
  for (i = 0; i < n; i ++) if (d->g->w[i] == 0) zero = 1; (void) zero;
  SCOTCH_randomReset ();
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (d, r, &g) != 0) F ("process %d: valid graph not built", r);
  SCOTCH_stratInit (&st);
  if (x->k < PREDEF) {
    if (x->k > 0 && (a->var || (z % 7 == 3) ? SCOTCH_stratDgraphClusterBuild (&st, flags[x->k], np, 1 + z % 3, 0.8, 0.1) : SCOTCH_stratDgraphMapBuild (&st, flags[x->k], np, a->n, 0.05 * (z % 4))) != 0) F ("predefined strategy %d refused", x->k);
  }
  else if (SCOTCH_stratDgraphMap (&st, strats[x->k - PREDEF]) != 0) F ("strategy refused: %s", strats[x->k - PREDEF]);
  for (q = 0; q < 2; q ++) {                               /* array calls, then mapping object */
    if (q == 1 && SCOTCH_dgraphMapInit (&g, &m, &a->arch, NULL) != 0) F ("mapping not initialised");
    loc = malloc ((d->cnt[r] + 1) * sizeof (Num)); for (i = 0; i <= d->cnt[r]; i ++) loc[i] = -99;
    if (q == 1) { SCOTCH_dgraphMapExit (&g, &m); if (SCOTCH_dgraphMapInit (&g, &m, &a->arch, loc) != 0) F ("mapping not initialised"); }
    sync_ ();
    RET[r] = q == 1 ? SCOTCH_dgraphMapCompute (&g, &m, &st) : part ? SCOTCH_dgraphPart (&g, a->n, &st, loc) : SCOTCH_dgraphMap (&g, &a->arch, &st, loc);
    if (a - archs >= reals) { agree (r, np, RET[0] != 0 ? 0 : 1, "mapping onto a target that is not complete"); if (RET[0] != 0) { free (loc); if (q == 1) SCOTCH_dgraphMapExit (&g, &m); continue; } }
    agree (r, np, 1, q == 1 ? "mapping object" : part ? "partitioning" : "mapping");
    if (loc[d->cnt[r]] != -99) F ("mapping array overflow");
    for (i = 0; i < d->cnt[r]; i ++) PT[d->off[r] + i] = loc[i];
    free (loc); sync_ ();
    if (r == 0) {
      for (i = 0; i < n; i ++) {
        for (k = 0; k < a->n && a->num[k] != PT[i]; k ++) ;
        if (a->var ? PT[i] < 0 : k >= a->n) F ("vertex %d is mapped to %ld, not a terminal: %s", i, (long) PT[i], arr_str (PT, n));
        IX[i] = k;
      }
      mc_ops (1); mc_state (mc_hash (mc_hash (np, a->desc, strlen (a->desc)), PT, n * sizeof (Num)));
    }
    sync_ ();
    if (q == 0) continue;
    root = (z + np - 1) % np; f = r == root ? open_memstream (&buf, &len) : NULL;
    RET[r] = SCOTCH_dgraphMapSave (&g, &m, f); if (f) fclose (f);
    agree (r, np, 1, "saving the mapping");
    if (f) { filecheck (d, buf); free (buf); }
    sync_ ();
    figures (r, d, &g, &m, a, z);
    if (np > 1 && n <= 3) for (k = 0; k < 2; k ++) {
      f = (k == 0 && r < 2) ? open_memstream (&buf, &len) : NULL;
      RET[r] = SCOTCH_dgraphMapSave (&g, &m, f); agree (r, np, 0, "saving by several processes or none");
      if (f) { fclose (f); free (buf); }
    }
    SCOTCH_dgraphMapExit (&g, &m);
  }
  if (n <= 3) {
    SCOTCH_stratExit (&st); SCOTCH_stratInit (&st);
    if (SCOTCH_stratGraphMap (&st, "r{sep=h}") != 0) F ("strategy refused");
    loc = malloc ((d->cnt[r] + 1) * sizeof (Num)); RET[r] = SCOTCH_dgraphMap (&g, &a->arch, &st, loc); agree (r, np, 0, "mapping with a sequential strategy"); free (loc);
  }
  SCOTCH_stratExit (&st);
  if (SCOTCH_dgraphCheck (&g) != 0) F ("graph is broken after mapping");
  SCOTCH_dgraphExit (&g);
}
static void after (void *x_) { X *x = x_; if (! g_same (x->d->g)) mc_fail ("arrays of the caller were changed"); if (! mc_failed () && pm_leaks ()) mc_fail ("%d communication objects are never freed", pm_leaks ()); }
static void one (D *d, A *a, int k, int z) { X x; memset (&x, 0, sizeof (x)); x.d = d; x.a = a; x.k = k; x.z = z; explore (d->np, modes[z & 3], r_map, after, &x); }
void mc_run (void) {
  Shape s; G g; D d; ASpec as; int n, np, k, x, z, q, st, i, nm = PREDEF + SNBR; u64 m; int cnt[DMAXP], thr = getenv ("MC_SET") != NULL;
  sh_init (&s); dbound[0] = 1; dmaxruns[0] = thr ? 8 : 14; dmaxruns[1] = 400;
  for (i = 0; a_list (i, &as) && archnbr < 40; i ++) if (as.kind == AK_CMPLT || as.kind == AK_CMPLTW || as.kind == AK_VCMPLT) { SCOTCH_randomReset (); if (a_make (&archs[archnbr ++], &as) != 0) { fprintf (stderr, "bad arch %d\n", i); abort (); } }
  for (i = 0; i < 6; i ++) { memset (&as, 0, sizeof (as)); as.kind = i < 4 ? AK_CMPLT : AK_CMPLTW; as.np = i < 4 ? 1 : 4 + i % 2; for (x = 0; x < 6; x ++) as.p[x] = i < 4 ? 4 + i * 3 : 1 + (x * 2 + i) % 4; if (a_make (&archs[archnbr ++], &as) != 0) { fprintf (stderr, "bad arch\n"); abort (); } }
  reals = archnbr; for (i = 0; a_list (i, &as); i ++) if (as.kind == AK_HCUB || as.kind == AK_TLEAF || as.kind == AK_DECO) { if (a_make (&archs[archnbr ++], &as) != 0) abort (); break; }   /* other targets are documented as not supported: refused by all */
  for (n = 1; n <= (mc_thorough ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= (mc_thorough ? 4 : 3); np ++) for (k = 0; d_split (n, np, k, cnt); k ++)
    for (x = 0; x < (mc_thorough ? nm : n <= 2 ? nm : n == 3 ? (thr ? 4 : 8) : thr ? 0 : 2); x ++) {
      A *a; z = (int) (m * 7 + k * 3 + np + x * 5); st = (int) (m * 5 + k * 11 + np * 3 + x * 7) % nm; a = &archs[(z + st + x / nm) % (archnbr + 0)];
      if (! mc_case ("n=%d mask=%llu np=%d split=%d strat=%d %s", n, (unsigned long long) m, np, k, st, a->desc)) continue;
      sh_mask (&s, n, m); g_make (&g, &s, z & 1, 0, z % 5 == 2 ? 1 : z % 5, (z / 2) % 4, (z / 3 + x) % 3);
      d_make (&d, &g, np, cnt, (z / 4) % 3 ? 0 : (z / 5) & 15, (z / 3) % 3, (z / 7) & 1);
      one (&d, a, st, z); if (g.m > 0 && np > 1) mc_nontrivial ();
      d_exit (&d); g_exit (&g);
    }
  for (q = 0; sh_family (&s, q, mc_thorough ? 1 : 0); q ++) for (np = 2; np <= 8; np ++) for (st = 0; st < nm; st ++) {
    A *a = &archs[(q * 5 + np * 3 + st) % (archnbr + 0)];
    if (s.n > 150 || s.n <= 5 || (! mc_thorough && (st + np * 3 + q) % (thr ? 5 : 3))) continue;
    if (! mc_case ("family=%d (%s) np=%d strat=%d %s", q, s.name, np, st, a->desc)) continue;
    z = q + np + st * 3; g_make (&g, &s, z & 1, 0, z % 5 == 2 ? 1 : z % 5, (z / 2) % 4, z % 4 == 2);
    x = z % 3; if (x == 0) d_even (s.n, np, cnt); else { int left = s.n, p; for (p = 0; p < np - 1; p ++) { cnt[p] = (x & 1) ? left / 3 : (p & 1) ? left / 2 : 0; left -= cnt[p]; } cnt[np - 1] = left; }
    d_make (&d, &g, np, cnt, x == 1 ? 5 : 0, g.vlbl ? 0 : x % 3, z & 1);
    if (! mc_thorough) dmaxruns[0] = 3;
    one (&d, a, st, z + thr); mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  sh_exit (&s);
}
