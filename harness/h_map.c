/* Mappings: validity, fixed vertices and old parts (10), balance (11), files and reports (12), overlap (13). */
#include "aspace.h"

static int sel;
static const char *strats[] = {
#include "st_map.h"
};
#define OLDNBR 5
#define NEEDOLD(k) ((k) < SNBR && (k) >= SNBR - OLDNBR)
#define SNBR ((int) (sizeof (strats) / sizeof (strats[0])))
static const int flags[] = { SCOTCH_STRATDEFAULT, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATREMAP, SCOTCH_STRATQUALITY | SCOTCH_STRATBALANCE | SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE | SCOTCH_STRATBALANCE, SCOTCH_STRATREMAP | SCOTCH_STRATSPEED };
#define FNBR ((int) (sizeof (flags) / sizeof (flags[0])))

static int usestrat (SCOTCH_Strat *st, int k, int parts) {      /* k: explicit strategy, then predefined ones */
  SCOTCH_stratInit (st);
  if (k < SNBR) return strats[k][0] ? SCOTCH_stratGraphMap (st, strats[k]) : 0;
  k -= SNBR;
  if (k < FNBR) return SCOTCH_stratGraphMapBuild (st, flags[k], parts, 0.05);
  return SCOTCH_stratGraphClusterBuild (st, flags[k - FNBR], 2, 1.0, 0.1);
}
static int isterm (A *a, Num p) {
  SCOTCH_ArchDom d; int i;
  if (a->var) return p >= 1 && SCOTCH_archDomTerm (&a->arch, &d, p) == 0 && SCOTCH_archDomNum (&a->arch, &d) == p;
  for (i = 0; i < a->n; i ++) if (a->num[i] == p) return 1;
  return 0;
}

/* one mapping; fix: fixed parts or NULL, old: old parts or NULL */
static void one (G *g, A *a, int k, const Num *fix, const Num *old, double emra, const Num *vmlo, int part) {
  SCOTCH_Graph gr; SCOTCH_Strat st; int n = g->n, i, o, all; u64 h = mc_hashi (k, n); Num *p = malloc ((n + 1) * sizeof (Num)), *old2 = malloc ((n + 1) * sizeof (Num)), *vm2 = malloc ((n + 1) * sizeof (Num));
  if (g_build (g, &gr) != 0) { mc_fail ("graph not built"); return; }
  if (usestrat (&st, k, a->n ? a->n : 2) != 0) { mc_fail ("strategy refused"); goto out; }
  SCOTCH_randomReset ();
  for (i = 0, all = 1; i < n; i ++) { p[i] = fix ? fix[i] : 12345; if (! fix || fix[i] < 0) all = 0; if (old) old2[i] = old[i]; if (vmlo) vm2[i] = vmlo[i]; }
  p[n] = 777;
  if (part) {
    if (old) o = fix ? SCOTCH_graphRepartFixed (&gr, a->n, old2, emra, vmlo ? vm2 : NULL, &st, p) : SCOTCH_graphRepart (&gr, a->n, old2, emra, vmlo ? vm2 : NULL, &st, p);
    else o = fix ? SCOTCH_graphPartFixed (&gr, a->n, &st, p) : SCOTCH_graphPart (&gr, a->n, &st, p);
  }
  else {
    if (old) o = fix ? SCOTCH_graphRemapFixed (&gr, &a->arch, old2, emra, vmlo ? vm2 : NULL, &st, p) : SCOTCH_graphRemap (&gr, &a->arch, old2, emra, vmlo ? vm2 : NULL, &st, p);
    else o = fix ? SCOTCH_graphMapFixed (&gr, &a->arch, &st, p) : SCOTCH_graphMap (&gr, &a->arch, &st, p);
  }
  mc_ops (1);
  if (o != 0) mc_fail ("mapping fails");
  else if (mc_errnbr) mc_fail ("error message although the call succeeds");
  else for (i = 0; i < n; i ++) {
    if (! isterm (a, p[i])) { mc_fail ("vertex %d is mapped to %d, which is no terminal: %s", i, (int) p[i], arr_str (p, n)); break; }
    if (fix && fix[i] >= 0 && p[i] != fix[i]) { mc_fail ("vertex %d was fixed to %d and is mapped to %d: %s", i, (int) fix[i], (int) p[i], arr_str (p, n)); break; }
    h = mc_hashi (h, p[i]);
  }
  if (p[n] != 777) mc_fail ("part array overrun");
  if (! g_same (g)) mc_fail ("graph modified");
  for (i = 0; i < n; i ++) if ((old && old2[i] != old[i]) || (vmlo && vm2[i] != vmlo[i])) { mc_fail ("old parts or migration costs modified"); break; }
  mc_state (h); if (n > 1 && g->m > 0) mc_nontrivial ();
out:
  SCOTCH_stratExit (&st); SCOTCH_graphExit (&gr); free (p); free (old2); free (vm2);
  (void) all;
}

static A archs[32]; static int archnbr;
static void loadarchs (void) { ASpec s; int i; for (i = 0; a_list (i, &s); i ++) { SCOTCH_randomReset (); if (a_make (&archs[archnbr ++], &s) != 0) { fprintf (stderr, "bad arch %d\n", i); abort (); } } }
static int findarch (const char *d) { int i; for (i = 0; i < archnbr; i ++) if (! strcmp (archs[i].desc, d)) return i; abort (); }

static const int vkind[3] = { 0, 1, 4 }, ekind[3] = { 0, 1, 0 };
static void c10graph (Shape *s, int salt, int narch, int nstrat) {      /* narch, nstrat: keep one combination out of ... (1: all) */
  int ai, k, ns = SNBR + FNBR + 3; G g;
  for (ai = 0; ai < archnbr; ai ++) for (k = 0; k < ns; k ++) {
    int x = salt + ai * 5 + k * 3;
    if (NEEDOLD (k)) continue;
    if ((ai + salt) % narch || (k + ai + salt / 3) % nstrat) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 2, (x / 2) % LAY_NBR, vkind[(x / 3) % 3], ekind[(x / 5) % 3], (x / 7) % 2);
    if (mc_case ("map %s -> %s strat=%s#%d", g.desc, archs[ai].desc, k < SNBR ? strats[k] : "predefined", k)) one (&g, &archs[ai], k, NULL, NULL, 0, NULL, 0);
    g_exit (&g);
  }
}
/* all fixed and all old part arrays over a small graph */
static const int fxs[] = { 0, 1, 2, 3, 7, 10, 11, 12, 14, 15, 16, SNBR - 5, SNBR - 4, SNBR - 3, SNBR - 2, SNBR - 1, SNBR, SNBR + 3, SNBR + 5, SNBR + 6 };
#define FXN ((int) (sizeof (fxs) / sizeof (fxs[0])))
static void c10fix (Shape *s, int ai, int salt, int kstep, int nval) {
  A *a = &archs[ai]; int n = s->n, k, q, tot = 1, i, mode; Num fx[16], od[16], vm[16]; G g;
  for (i = 0; i < n; i ++) tot *= nval + 1;
  for (q = 0; q < tot; q ++) for (k = 0; k < FXN; k ++) {
    int x = salt + q * 7 + k * 3, r = q;
    if ((k + q + salt) % kstep) continue;
    for (mode = NEEDOLD (fxs[k]); mode < 3; mode ++) {
      int y = x + mode * 11; double em = (y % 4 == 0) ? 0.0 : (y % 4 == 1) ? 1.0 : (y % 4 == 2) ? 0.3 : 12.5;
      if (mc_skip ()) continue;
      for (i = 0, r = q; i < n; i ++, r /= nval + 1) {
        int v = r % (nval + 1), w = (v + i * 2 + mode + q) % (nval + 1);
        fx[i] = v ? a->num[v - 1] : -1; od[i] = (mode == 1) ? fx[i] : (w ? a->num[w - 1] : -1); if (od[i] < 0 && NEEDOLD (fxs[k])) od[i] = a->num[0]; vm[i] = 1 + (i * 3 + q) % 5;
      }
      g_make (&g, s, y % 2, (y / 2) % LAY_NBR, vkind[(y / 3) % 3], ekind[(y / 5) % 3], 0);
      if (mc_case ("%s %s -> %s strat#%d fixed/old=%s emra=%g", mode == 0 ? "fixed" : mode == 1 ? "old" : "fixed+old", g.desc, a->desc, fxs[k], arr_str (fx, n), em))
        one (&g, a, fxs[k], mode == 1 ? NULL : fx, mode == 0 ? NULL : od, em, (y % 3) ? vm : NULL, a->n && a->exact && ! strncmp (a->desc, "cmplt(", 6) && (y & 1));
      g_exit (&g);
    }
  }
}
static void run10 (void) {
  Shape s; int n, i; u64 m; int t = mc_thorough; static const char *fa[] = { "cmplt(2)", "cmplt(3)", "mesh2(2,2)", "tleaf(2,2;5,1)", "cmpltw(2,1,3)", "hcub(2)", "sub(;5,0,3,1 of mesh2(3,2))" };
  sh_init (&s); loadarchs ();
  for (n = 1; n <= (t ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) { sh_mask (&s, n, m); c10graph (&s, (int) m, 1, n <= 3 ? 1 : t ? 3 : 4); }
  for (n = 5; n <= 7; n ++) for (i = 0; i < sh_atlasnbr (n); i ++) { if (n == 7 && ! t && i % 5) continue; sh_atlas (&s, n, i); c10graph (&s, i, n == 5 ? 2 : 5, n == 5 ? 5 : t ? 4 : 7); }
  for (i = 0; sh_family (&s, i, t ? 2 : 1); i ++) c10graph (&s, i, t ? 3 : 7, t ? 5 : 11);
  for (n = 1; n <= (t ? 4 : 3); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (i = 0; i < 7; i ++) { sh_mask (&s, n, m); c10fix (&s, findarch (fa[i]), (int) m * 3 + i, n <= 2 ? 1 : n == 3 ? 3 : 16, archs[findarch (fa[i])].n); }
  for (n = 4; n <= 5; n ++) for (i = 0; i < sh_atlasnbr (n); i ++) { int z; for (z = 0; z < 7; z ++) { sh_atlas (&s, n, i); c10fix (&s, findarch (fa[z]), i * 5 + z, n == 4 ? (t ? 16 : 16) : (t ? 64 : 1024), archs[findarch (fa[z])].n > 3 ? 3 : archs[findarch (fa[z])].n); } }
  for (i = 0; sh_family (&s, i, t ? 2 : 1); i ++) {              /* larger graphs: patterned fixed and old parts */
    int z, k, mode, pat;
    for (z = 0; z < 7; z ++) for (k = 0; k < FXN; k ++) for (pat = 0; pat < 4; pat ++) for (mode = 0; mode < 3; mode ++) {
      G g; A *a = &archs[findarch (fa[z])]; Num *fx, *od, *vm; int v, x = i * 3 + z * 5 + k * 7 + pat;
      if (! t && (x + mode) % 13) continue;
      if (mode == 0 && NEEDOLD (fxs[k])) continue;
      if (mc_skip ()) continue;
      g_make (&g, &s, x % 2, (x / 2) % LAY_NBR, vkind[(x / 3) % 3], ekind[(x / 5) % 3], 0);
      fx = malloc ((g.n + 1) * sizeof (Num)); od = malloc ((g.n + 1) * sizeof (Num)); vm = malloc ((g.n + 1) * sizeof (Num));
      for (v = 0; v < g.n; v ++) {
        int f = (pat == 0) ? (v % 5 == 0) : (pat == 1) ? (v < g.n / 3) : (pat == 2) ? (v != g.n / 2) : (v == 0 || v == g.n - 1);
        fx[v] = f ? a->num[(v * 7 + pat) % a->n] : -1; od[v] = (pat == 3 && v % 4 == 0 && ! NEEDOLD (fxs[k])) ? -1 : a->num[(v / 3) % a->n]; vm[v] = v % 6;
      }
      if (mc_case ("family %s %s -> %s strat#%d pattern %d", mode == 0 ? "fixed" : mode == 1 ? "old" : "fixed+old", g.desc, a->desc, fxs[k], pat))
        one (&g, a, fxs[k], mode == 1 ? NULL : fx, mode == 0 ? NULL : od, (x % 3) * 0.75, (x & 1) ? vm : NULL, 0);
      free (fx); free (od); free (vm); g_exit (&g);
    }
  }
  sh_exit (&s);
}

/* ---- 12: files and reports ---- */
static double near (double a, double b) { double d = a - b, m = (b < 0 ? -b : b); if (d < 0) d = -d; return d <= 1.1e-6 + m * 1.1e-5; }
static void report (G *g, A *a, SCOTCH_Graph *gr, const Num *p, const Num *old, double emra, const Num *vm) {
  char *buf = NULL, *l; size_t len = 0; FILE *f; SCOTCH_Mapping mp, mo; int n = g->n, i, j, k, o, used = 0, seen = 0; Num *pp = malloc ((n + 1) * sizeof (Num)), *po = malloc ((n + 1) * sizeof (Num)); int *ix = malloc ((n + 1) * sizeof (int)), *ox = malloc ((n + 1) * sizeof (int));
  Num *load = calloc (a->n + 1, sizeof (Num)), mn = -1, mx = 0, sum = 0, dil = 0, exp = 0, cut = 0, tot = 0, hist[256]; int *cnt = calloc (a->n + 1, sizeof (int)), nb, nmin = -1, nmax = 0, nsum = 0; double avg, dlt = 0;
  memset (hist, 0, sizeof (hist));
  for (i = 0; i < n; i ++) { pp[i] = p[i]; if (old) po[i] = old[i]; for (j = 0; j < a->n; j ++) { if (a->num[j] == p[i]) ix[i] = j; if (old && a->num[j] == old[i]) ox[i] = j; } load[ix[i]] += g->w[i]; cnt[ix[i]] ++; sum += g->w[i]; }
  for (k = 0; k < a->n; k ++) if (cnt[k]) { used ++; if (mn < 0 || load[k] < mn) mn = load[k]; if (load[k] > mx) mx = load[k]; }
  avg = (double) sum / used;
  for (k = 0; k < a->n; k ++) if (cnt[k]) {
    double z = load[k] - avg; char *nbs = calloc (a->n, 1);
    dlt += z < 0 ? -z : z;
    for (nb = 0, i = 0; i < n; i ++) if (ix[i] == k) for (j = 0; j < n; j ++) if (g_adj (g, i, j) && ix[j] != k && ! nbs[ix[j]]) { nbs[ix[j]] = 1; nb ++; }
    free (nbs);
    if (nmin < 0 || nb < nmin) nmin = nb;
    if (nb > nmax) nmax = nb;
    nsum += nb;
  }
  dlt /= used * avg;
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) if (g_adj (g, i, j)) { Num d = a->dist[ix[i] * a->n + ix[j]], e = g->ew[i * n + j]; dil += d; exp += d * e; tot += e; if (d) cut += e; hist[d > 255 ? 255 : d] += e; }
  SCOTCH_graphMapInit (gr, &mp, &a->arch, pp); if (old) SCOTCH_graphMapInit (gr, &mo, &a->arch, po);
  f = open_memstream (&buf, &len);
  o = old ? SCOTCH_graphRemapView (gr, &mp, &mo, emra, (Num *) vm, f) : SCOTCH_graphMapView (gr, &mp, f);
  fclose (f); mc_ops (1);
  if (o != 0) mc_fail ("report fails");
  else if (mc_errnbr) mc_fail ("error message although the report succeeds");
  if (g->m > 0) for (l = strtok (buf, "\n"); l && ! mc_failed (); l = strtok (NULL, "\n")) {
    long x, y, z; double u, v, w; int q;
    if (sscanf (l, "M\tProcessors %ld/%ld (%lf)", &x, &y, &u) == 3) { seen |= 1; if (x != used || y != a->n || ! near (u, (double) used / a->n)) mc_fail ("report says '%s', %d of %d are used", l, used, a->n); }
    else if (sscanf (l, "M\tTarget min=%ld\tmax=%ld\tavg=%lf\tdlt=%lf\tmaxavg=%lf", &x, &y, &u, &v, &w) == 5) { seen |= 2; if (x != mn || y != mx || ! near (u, avg) || ! near (v, dlt) || ! near (w, mx / avg)) mc_fail ("report says '%s', should be min %d max %d avg %g dlt %g", l, (int) mn, (int) mx, avg, dlt); }
    else if (sscanf (l, "M\tNeighbors min=%ld\tmax=%ld\tsum=%ld", &x, &y, &z) == 3) { seen |= 4; if (x != nmin || y != nmax || z != nsum) mc_fail ("report says '%s', should be min %d max %d sum %d", l, nmin, nmax, nsum); }
    else if (sscanf (l, "M\tCommDilat=%lf\t(%ld)", &u, &x) == 2) { seen |= 8; if (x != dil / 2 || ! near (u, (double) dil / g->m)) mc_fail ("report says '%s', total dilation is %d over %d arcs", l, (int) dil, (int) g->m); }
    else if (sscanf (l, "M\tCommExpan=%lf\t(%ld)", &u, &x) == 2) { seen |= 16; if (x != exp / 2 || ! near (u, tot ? (double) exp / tot : 0)) mc_fail ("report says '%s', total expansion is %d over %d", l, (int) exp, (int) tot); }
    else if (sscanf (l, "M\tCommCutSz=%lf\t(%ld)", &u, &x) == 2) { seen |= 32; if (x != cut / 2 || ! near (u, tot ? (double) cut / tot : 0)) mc_fail ("report says '%s', cut is %d over %d", l, (int) cut, (int) tot); }
    else if (sscanf (l, "M\tCommDelta=%lf", &u) == 1) { seen |= 64; if (! near (u, (double) tot * dil == 0 ? 0 : (double) exp * g->m / ((double) tot * dil))) mc_fail ("report says '%s'", l); }
    else if (sscanf (l, "M\tCommLoad[%d]=%lf", &q, &u) == 2) { seen |= 128; if (q < 0 || q > 255 || ! near (u, (double) hist[q] / tot)) mc_fail ("report says '%s', load is %d of %d", l, q >= 0 && q < 256 ? (int) hist[q] : -1, (int) tot); }
    else if (! strncmp (l, "M\tPartDiam", 10)) {
      if (sscanf (l, "M\tPartDiam\tmin=%ld\tmax=%ld", &x, &y) == 2 && (x < 1 || x > y || y > n)) mc_fail ("report says '%s'", l);
      seen |= 256;
    }
    else if (old && sscanf (l, "M\tMigrNbr=%ld(%lf", &x, &u) == 2) { int c = 0; for (i = 0; i < n; i ++) c += (p[i] != old[i]); seen |= 512; if (x != c || ! near (u, 100.0 * c / n)) mc_fail ("report says '%s', %d vertices moved", l, c); }
    else if (old && sscanf (l, "M\tAvgMigrDist=%lf", &u) == 1) { int c = 0; double t = 0; for (i = 0; i < n; i ++) if (p[i] != old[i]) { c ++; t += a->dist[ix[i] * a->n + ox[i]]; } seen |= 1024; if (! near (u, c ? t / c : 0)) mc_fail ("report says '%s', should be %g", l, c ? t / c : 0); }
    else if (old && sscanf (l, "M\tAvgMigrLoad=%lf", &u) == 1) { int c = 0; double t = 0; for (i = 0; i < n; i ++) if (p[i] != old[i]) { c ++; t += g->w[i]; } seen |= 2048; if (! near (u, c ? t / c : 0)) mc_fail ("report says '%s', should be %g", l, c ? t / c : 0); }
    else if (old && sscanf (l, "M\tMigrCost=%lf", &u) == 1) { double t = 0; for (i = 0; i < n; i ++) if (p[i] != old[i]) t += emra * (vm ? vm[i] : 1); seen |= 4096; if (! near (u, t)) mc_fail ("report says '%s', should be %g", l, t); }
    else mc_fail ("unknown report line '%s'", l);
  }
  if (! mc_failed () && g->m > 0 && seen != (old ? 8191 : 511)) mc_fail ("lines are missing in the report (%x)", seen);
  for (i = 0; i < n; i ++) if (pp[i] != p[i] || (old && po[i] != old[i])) { mc_fail ("reporting changes the mapping: %s", arr_str (pp, n)); break; }
  free (buf); buf = NULL;
  if (! mc_failed ()) {                                      /* raw form: same figures on one line */
    double r[18]; int c = 0, pos = 0, q;
    SCOTCH_graphMapInit (gr, &mp, &a->arch, pp); if (old) SCOTCH_graphMapInit (gr, &mo, &a->arch, po);
    f = open_memstream (&buf, &len); if (old) o = SCOTCH_graphRemapViewRaw (gr, &mp, &mo, emra, (Num *) vm, f); fclose (f);
    if (old && g->m > 0) {
      while (c < 18 && sscanf (buf + pos, "%lf%n", &r[c], &q) == 1) { c ++; pos += q; }
      if (o != 0 || c != 18) mc_fail ("raw report has %d figures: %s", c, buf);
      else {
        int mg = 0; double td = 0, tl = 0, tc = 0; for (i = 0; i < n; i ++) if (p[i] != old[i]) { mg ++; td += a->dist[ix[i] * a->n + ox[i]]; tl += g->w[i]; tc += emra * (vm ? vm[i] : 1); }
        if (r[0] != used || r[1] != a->n || r[2] != mn || r[3] != mx || ! near (r[4], avg) || ! near (r[5], dlt) || ! near (r[6], mx / avg) || ! near (r[7], tot) || ! near (r[8], exp) || ! near (r[9], (double) dil / g->m) || ! near (r[10], tot ? (double) exp / tot : 0) || ! near (r[11], tot ? (double) cut / tot : 0) ||
            ! near (r[13], emra) || ! near (r[14], (double) mg / n) || ! near (r[15], mg ? td / mg : 0) || ! near (r[16], mg ? tl / mg : 0) || ! near (r[17], tc)) mc_fail ("raw report is wrong: %s", buf);
      }
    }
    free (buf);
  }
  SCOTCH_graphMapExit (gr, &mp); if (old) SCOTCH_graphMapExit (gr, &mo);
  free (pp); free (po); free (ix); free (ox); free (load); free (cnt);
}
static void files (G *g, A *a, SCOTCH_Graph *gr, const Num *p) {
  char *buf = NULL; size_t len = 0; FILE *f; SCOTCH_Mapping mp; int n = g->n, i, j, o, w; Num *pp = malloc ((n + 1) * sizeof (Num)), *q = malloc ((n + 1) * sizeof (Num)); char *seen = calloc (n + 1, 1); long x, y, z;
  for (i = 0; i < n; i ++) pp[i] = p[i];
  SCOTCH_graphMapInit (gr, &mp, &a->arch, pp);
  for (w = 0; w < 2 && ! mc_failed (); w ++) {
    buf = NULL;
    f = open_memstream (&buf, &len); o = w ? SCOTCH_graphTabSave (gr, pp, f) : SCOTCH_graphMapSave (gr, &mp, f); fclose (f); mc_ops (1);
    if (o != 0) { mc_fail ("mapping not saved"); break; }
    f = fmemopen (buf, len, "r"); memset (seen, 0, n);
    if (fscanf (f, "%ld", &z) != 1 || z != n) mc_fail ("mapping file has wrong size: %s", buf);
    for (i = 0; i < n && ! mc_failed (); i ++) {
      if (fscanf (f, "%ld%ld", &x, &y) != 2) { mc_fail ("mapping file too short: %s", buf); break; }
      for (j = 0; j < n; j ++) if ((g->vlbl ? g->vlbl[j] : j + g->base) == x) break;
      if (j == n || seen[j] || y != p[j]) mc_fail ("mapping file gives part %ld to label %ld: %s; parts are %s", y, x, buf, arr_str (p, n));
      else seen[j] = 1;
    }
    if (! mc_failed () && fscanf (f, "%ld", &z) == 1) mc_fail ("mapping file too long: %s", buf);
    fclose (f);
    for (i = 0; i < 3 && ! mc_failed (); i ++) {              /* loaded back by the array call, into a given array, or into the mapping's own array */
      SCOTCH_Mapping m2; const Num *r = q;
      for (j = 0; j < n; j ++) q[j] = 4242;
      f = fmemopen (buf, len, "r");
      if (i == 0) o = SCOTCH_graphTabLoad (gr, q, f);
      else { o = SCOTCH_graphMapInit (gr, &m2, &a->arch, i == 1 ? q : NULL); if (o == 0) o = SCOTCH_graphMapLoad (gr, &m2, f); }
      fclose (f); mc_ops (1);
      if (o != 0) mc_fail ("mapping file not read back (%d)", i);
      else if (i < 2) { if (memcmp (q, p, n * sizeof (Num))) mc_fail ("mapping read back as %s instead of %s", arr_str (q, n), arr_str (p, n)); }
      else {
        char *b2 = NULL; size_t l2 = 0; f = open_memstream (&b2, &l2); SCOTCH_graphMapSave (gr, &m2, f); fclose (f);
        if (strcmp (b2, buf)) mc_fail ("mapping read back and saved again differs: %s / %s", buf, b2);
        free (b2);
      }
      if (i > 0) SCOTCH_graphMapExit (gr, &m2);
    }
    if (! mc_failed ()) {                                    /* same pairs in another order, with pairs of unknown labels: same mapping */
      char *b2 = NULL; size_t l2 = 0; f = open_memstream (&b2, &l2); fprintf (f, "%d\n", n + 1); fprintf (f, "%ld 7\n", 1000000L);
      for (i = 0; i < n; i ++) { j = (i * ((n % 2) ? 2 : n - 1) + 1) % n; if (n % 2 == 0) j = n - 1 - i; fprintf (f, "%ld %ld\n", (long) (g->vlbl ? g->vlbl[j] : j + g->base), (long) p[j]); } fclose (f);
      f = fmemopen (b2, l2, "r"); for (j = 0; j < n; j ++) q[j] = 4242;
      if (SCOTCH_graphTabLoad (gr, q, f) != 0 || memcmp (q, p, n * sizeof (Num))) mc_fail ("mapping file with another order read back as %s instead of %s: %s", arr_str (q, n), arr_str (p, n), b2);
      fclose (f); free (b2);
    }
    free (buf);
  }
  SCOTCH_graphMapExit (gr, &mp); free (pp); free (q); free (seen);
}
static void c12 (Shape *s, int ai, int salt, int nval, int step) {
  A *a = &archs[ai]; int n = s->n, q, tot = 1, i, r, lk; Num p[600], od[600], vm[600]; G g; SCOTCH_Graph gr;
  if (n <= 8) for (i = 0; i < n; i ++) tot *= nval; else tot = 5;
  for (q = 0; q < tot; q ++) for (lk = 0; lk < 3; lk ++) {
    int x = salt * 3 + q * 7 + lk * 5;
    if ((q + lk + salt) % step) continue;
    if (mc_skip ()) continue;
    for (i = 0, r = q; i < n; i ++, r /= nval) { int v = n <= 8 ? r % nval : (q == 0) ? i % nval : (q == 1) ? (i * 7 / 3) % nval : (q == 2) ? nval - 1 : (q == 3) ? (i < n / 2 ? 0 : nval - 1) : (i * i) % nval; p[i] = a->num[(v + (nval < a->n ? salt % 2 : 0)) % a->n]; od[i] = a->num[(v + i * q) % nval]; vm[i] = (i * 5 + q) % 4; }
    g_make (&g, s, x % 3 == 2 ? 5 : x % 3, (x / 3) % LAY_NBR, (x / 2) % 3 == 2 ? 4 : (x / 2) % 3, (x / 5) % 3, lk);
    if (mc_case ("%s -> %s parts %s", g.desc, a->desc, arr_str (p, n > 40 ? 40 : n))) {
      g_build (&g, &gr); mc_nontrivial (); mc_state (mc_hash (mc_hash (ai, p, n * sizeof (Num)), g.desc, strlen (g.desc)));
      files (&g, a, &gr, p);
      if (! mc_failed ()) report (&g, a, &gr, p, NULL, 0, NULL);
      if (! mc_failed ()) report (&g, a, &gr, p, od, 1.5, (x & 1) ? vm : NULL);
      if (! g_same (&g)) mc_fail ("graph modified");
      SCOTCH_graphExit (&gr);
    }
    g_exit (&g);
  }
}
static void run12 (void) {
  Shape s; int n, i; u64 m; int t = mc_thorough;
  sh_init (&s); loadarchs ();
  for (n = 1; n <= (t ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (i = 0; i < archnbr; i ++) {
    if (archs[i].var || ! archs[i].exact) continue;
    sh_mask (&s, n, m); c12 (&s, i, (int) m + i, archs[i].n > 3 ? 3 : archs[i].n, n <= 3 ? 1 : n == 4 ? 7 : 40);
    if (archs[i].n > 3) c12 (&s, i, (int) m + i, archs[i].n, n <= 2 ? 1 : n == 3 ? 7 : n == 4 ? 131 : 1031);
  }
  for (i = 0; sh_family (&s, i, t ? 2 : 1); i ++) if (s.n < 600) { int j; for (j = 0; j < archnbr; j ++) if (! archs[j].var && archs[j].exact) c12 (&s, j, i + j, archs[j].n, t ? 1 : 4); }
  sh_exit (&s);
}

void mc_run (void) {
  sel = atoi (getenv ("MC_SET"));
  if (sel == 10) run10 ();
  if (sel == 12) run12 ();
}
