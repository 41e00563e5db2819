/* Balance of partitions (11), partitions with overlap (13). */
#include "gspace.h"
#include <math.h>

static int sel;
static void shapes (void (*fn) (Shape *, int n, int small, int salt), int maxn, int maxatlas, int fam) {
  Shape s; int n, i; u64 m; sh_init (&s);
  for (n = 1; n <= maxn; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) { sh_mask (&s, n, m); fn (&s, n, 1, (int) m); }
  for (n = maxn + 1; n <= maxatlas; n ++) for (i = 0; i < sh_atlasnbr (n); i ++) { sh_atlas (&s, n, i); fn (&s, n, 0, i); }
  for (i = 0; sh_family (&s, i, fam); i ++) fn (&s, s.n, -1, i);
  sh_exit (&s);
}
/* ---- 13 ---- */
static const char *ostr[] = {
#include "st_ovl.h"
};
#define ONBR ((int) (sizeof (ostr) / sizeof (ostr[0])))
static const int ofl[] = { SCOTCH_STRATDEFAULT, SCOTCH_STRATRECURSIVE, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED };
static void ovl (G *g, int k, int parts, int bound) {
  SCOTCH_Graph gr, gb, *s = &gr; SCOTCH_Context c; SCOTCH_Strat st; int n = g->n, i, j, o; Num *p = malloc ((n + 1) * sizeof (Num)); u64 h = mc_hashi (k, parts);
  if (g_build (g, &gr) != 0) { mc_fail ("graph not built"); return; }
  if (bound) { SCOTCH_contextInit (&c); SCOTCH_graphInit (&gb); SCOTCH_contextThreadSpawn (&c, 1, NULL); if (SCOTCH_contextBindGraph (&c, &gr, &gb) != 0) mc_fail ("graph not bound"); s = &gb; }
  SCOTCH_stratInit (&st);
  o = k < ONBR ? (ostr[k][0] ? SCOTCH_stratGraphPartOvl (&st, ostr[k]) : 0) : SCOTCH_stratGraphPartOvlBuild (&st, ofl[k - ONBR], parts, 0.05 * (k - ONBR));
  if (o != 0) { mc_fail ("strategy refused"); goto out; }
  SCOTCH_randomReset ();
  for (i = 0; i <= n; i ++) p[i] = -77;
  o = SCOTCH_graphPartOvl (s, parts, &st, p); mc_ops (1);
  if (o != 0) mc_fail ("partitioning with overlap fails");
  else if (mc_errnbr) mc_fail ("error message although the call succeeds");
  for (i = 0; i < n && ! mc_failed (); i ++) if (p[i] < -1 || p[i] >= parts) mc_fail ("vertex %d gets %d out of %d parts: %s", i, (int) p[i], parts, arr_str (p, n));
  for (i = 0; i < n && ! mc_failed (); i ++) for (j = 0; j < i; j ++) if (g_adj (g, i, j) && p[i] >= 0 && p[j] >= 0 && p[i] != p[j]) { mc_fail ("neighbours %d and %d are in different parts: %s", j, i, arr_str (p, n)); break; }
  if (p[n] != -77) mc_fail ("part array overrun");
  if (! mc_failed ()) {                                    /* reported figures */
    char *buf = NULL; size_t len = 0; FILE *f = open_memstream (&buf, &len); Num *ld = calloc (parts, sizeof (Num)), sep = 0, mn = -1, mx = 0, sum = 0; long a, b, c2; double av, m1, m2; int q;
    for (i = 0; i < n; i ++) {
      if (p[i] >= 0) ld[p[i]] += g->w[i];
      else { sep += g->w[i]; for (q = 0; q < parts; q ++) { for (j = 0; j < n; j ++) if (g_adj (g, i, j) && p[j] == q) break; if (j < n) ld[q] += g->w[i]; } }
    }
    for (q = 0; q < parts; q ++) { sum += ld[q]; if (ld[q] > mx) mx = ld[q]; if (mn < 0 || ld[q] < mn) mn = ld[q]; }
    if (SCOTCH_graphPartOvlView (s, parts, p, f) != 0) mc_fail ("figures cannot be displayed");
    fclose (f); mc_ops (1);
    if (! mc_failed () && (sscanf (buf, "P\tsep=%ld P\tmin=%ld max=%ld avg=%lf P\tmaxavg=%lf minavg=%lf", &a, &b, &c2, &av, &m1, &m2) != 6)) { if (sum) mc_fail ("figures not understood: %s", buf); }
    else if (! mc_failed () && (a != sep || b != mn || c2 != mx || fabs (av - (double) sum / parts) > 1e-4 * av + 1e-6 || (sum && (fabs (m1 - mx * (double) parts / sum) > 1e-4 * m1 || fabs (m2 - mn * (double) parts / sum) > 1e-4 * m2 + 1e-9)))) mc_fail ("figures are wrong for %s: %s", arr_str (p, n), buf);
    free (buf); free (ld);
  }
  for (i = j = 0; i < n; i ++) { h = mc_hashi (h, p[i]); j += p[i] != p[0]; } mc_state (mc_hashi (h, g->hash)); if (j) mc_nontrivial ();
out:
  SCOTCH_stratExit (&st); if (bound) { SCOTCH_graphExit (&gb); SCOTCH_contextExit (&c); }
  SCOTCH_graphExit (&gr); if (! g_same (g)) mc_fail ("graph modified"); free (p);
}
static void f13 (Shape *s, int n, int small, int salt) {
  static const int pn[] = { 1, 2, 3, 4, 5, 7, 8, 16 }; int k, q, x; G g;
  for (q = 0; q < (small > 0 && n < 5 ? 6 : 8); q ++) for (k = 0; k < ONBR + 4; k ++) {
    x = salt + q * 3 + k * 5;
    if (small > 0 && n == 5 && x % (mc_thorough ? 1 : 3)) continue;
    if (small == 0 && x % (mc_thorough ? 1 : n > 6 ? 9 : 3)) continue;
    if (small < 0 && x % (mc_thorough ? 1 : n > 60 ? 7 : 2)) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 3 == 2 ? 4 : x % 3, (x / 3) % LAY_NBR, (x / 2) % 3 == 1 ? 1 + x % 2 * 3 : 0, (x / 5) % 3, x % 2);
    if (mc_case ("overlap parts=%d strat=%s %s", pn[q], k < ONBR ? ostr[k] : "predefined", g.desc)) ovl (&g, k, pn[q], x % 5 == 4);
    g_exit (&g);
  }
}
/* ---- 11 ---- */
static const double bals[] = { 0.0, 0.01, 0.05, 0.1, 0.3 };
static const int bfl[] = { SCOTCH_STRATBALANCE, SCOTCH_STRATBALANCE | SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE | SCOTCH_STRATQUALITY, SCOTCH_STRATBALANCE | SCOTCH_STRATRECURSIVE, SCOTCH_STRATBALANCE | SCOTCH_STRATSAFETY, SCOTCH_STRATDEFAULT };
static void balance (G *g, int k, int parts, double bal, int sd) {
  SCOTCH_Graph gr; SCOTCH_Strat st; int n = g->n, i, q; Num *p = malloc ((n + 1) * sizeof (Num)), *ld = calloc (parts, sizeof (Num)); double avg = (double) n / parts, dev = 0; u64 h = mc_hashi (k, parts);
  if (g_build (g, &gr) != 0) { mc_fail ("graph not built"); return; }
  SCOTCH_stratInit (&st); if (SCOTCH_stratGraphMapBuild (&st, bfl[k], parts, bal) != 0) { mc_fail ("strategy refused"); goto out; }
  SCOTCH_randomReset (); for (i = 0; i < sd * 5; i ++) (void) SCOTCH_randomVal (100);
  if (SCOTCH_graphPart (&gr, parts, &st, p) != 0) { mc_fail ("partitioning fails"); goto out; }
  mc_ops (1);
  for (i = 0; i < n; i ++) { ld[p[i]] ++; h = mc_hashi (h, p[i]); }
  for (q = 0; q < parts; q ++) { double d = parts == 2 ? fabs (ld[q] - avg) : ld[q] - avg; if (d > dev) dev = d; }
  { char nm[40]; double lim = bal * avg, x = dev - lim; sprintf (nm, "k%d_over%d", parts, x <= 0 ? 0 : (int) ceil (x)); mc_note (nm, 1); (void) lim; }
  if (dev > 0) mc_nontrivial ();
  { double lim = bal * avg + 1; int lv = 1; while ((1 << lv) < parts) lv ++; if (bfl[k] & SCOTCH_STRATRECURSIVE) lim = (pow (1 + bal, lv) - 1) * avg + lv; if (dev > lim - 1e-9) mc_fail ("part loads deviate by %g from %g (%s): %s", dev, avg, arr_str (ld, parts), arr_str (p, n)); }
  if (parts == 2 && n >= 2 && (ld[0] == 0 || ld[1] == 0)) mc_fail ("a part is empty");
  mc_state (mc_hashi (h, g->hash));
out:
  SCOTCH_stratExit (&st); SCOTCH_graphExit (&gr); free (p); free (ld);
}
static void f11 (Shape *s, int n, int small, int salt) {
  static const int pn[] = { 2, 3, 4, 5, 8 }; int k, q, b, sd, x; G g;
  for (q = 0; q < 5; q ++) for (k = 0; k < 6; k ++) for (b = 0; b < 5; b ++) for (sd = 0; sd < 3; sd ++) {
    x = salt + q + k * 3 + b * 7 + sd * 11;
    if (k == 5 && b != 2) continue;
    if (small >= 0 && n >= 5 && x % (mc_thorough ? 2 : n == 5 ? 5 : 17)) continue;
    if (small < 0 && x % (mc_thorough ? 2 : 5)) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 3 == 2 ? 4 : x % 3, (x / 3) % LAY_NBR, 0, (x / 5) % 3, x % 2);
    if (mc_case ("balance parts=%d flags=%d bal=%g seed=%d %s", pn[q], bfl[k], bals[b], sd, g.desc)) balance (&g, k, pn[q], bals[b], sd);
    g_exit (&g);
  }
}
void mc_run (void) {
  int t = mc_thorough; sel = atoi (getenv ("MC_SET"));
  if (sel == 13) shapes (f13, t ? 6 : 5, 7, t ? 2 : 1);
  if (sel == 11) shapes (f11, t ? 6 : 5, 7, t ? 2 : 1);
}
