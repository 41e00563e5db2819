/* Operations on graphs: coarsening (17), induced subgraphs (18), colouring (19), diameter (20), queries (22). */
#include "gspace.h"
#include <math.h>

static int sel;
typedef struct { SCOTCH_Graph g, b; SCOTCH_Context c; int bound; } BG;      /* a graph, possibly used through an execution context */
static SCOTCH_Graph *bg_open (BG *x, G *g, int bound) {
  x->bound = bound;
  if (g_build (g, &x->g) != 0) { mc_fail ("graph not built"); return NULL; }
  if (bound) {
    SCOTCH_contextInit (&x->c); SCOTCH_graphInit (&x->b);
    if (bound > 1) SCOTCH_contextRandomClone (&x->c);
    if (SCOTCH_contextThreadSpawn (&x->c, 1, NULL) != 0 || SCOTCH_contextBindGraph (&x->c, &x->g, &x->b) != 0) { mc_fail ("graph not bound to context"); return NULL; }
    return &x->b;
  }
  return &x->g;
}
static void bg_close (BG *x, G *g) {
  if (x->bound) { SCOTCH_graphExit (&x->b); SCOTCH_contextExit (&x->c); }
  SCOTCH_graphExit (&x->g);
  if (! g_same (g)) mc_fail ("graph modified");
}
static void seed (int s) { SCOTCH_randomReset (); if (s) { int i; for (i = 0; i < s * 7; i ++) (void) SCOTCH_randomVal (1000); } }

/* ---- 17 ---- */
static int coarsecheck (G *g, SCOTCH_Graph *c, const Num *mult, const Num *f2c, int cn, const char *what) {
  GV v; char err[200]; int i, j, n = g->n, k; int *own = malloc ((n + 1) * sizeof (int)), r = 1; Num *ew;
  if (gv_read (&v, c, err, sizeof (err)) != 0) { mc_fail ("%s: coarse graph: %s", what, err); gv_exit (&v); free (own); return 0; }
  if (v.dup) { mc_fail ("%s: coarse graph has multiple arcs", what); goto out; }
  if (SCOTCH_graphCheck (c) != 0) { mc_fail ("%s: coarse graph fails check", what); goto out; }
  if (cn >= 0 && v.n != cn) { mc_fail ("%s: %d coarse vertices instead of %d", what, v.n, cn); goto out; }
  if (v.base != g->base) { mc_fail ("%s: coarse graph has base %d", what, (int) v.base); goto out; }
  for (i = 0; i < n; i ++) own[i] = -1;
  for (i = 0; i < v.n; i ++) for (k = 0; k < 2; k ++) {
    j = mult[2 * i + k] - g->base;
    if (j < 0 || j >= n) { mc_fail ("%s: coarse vertex %d is made of %d", what, i, j); goto out; }
    if (own[j] >= 0 && ! (k == 1 && own[j] == i)) { mc_fail ("%s: fine vertex %d is in coarse vertices %d and %d", what, j, own[j], i); goto out; }
    own[j] = i;
  }
  for (i = 0; i < n; i ++) if (own[i] < 0) { mc_fail ("%s: fine vertex %d is in no coarse vertex", what, i); goto out; }
  if (f2c) for (i = 0; i < n; i ++) if (f2c[i] - g->base != own[i]) { mc_fail ("%s: fine vertex %d said in %d, is in %d", what, i, (int) f2c[i], own[i]); goto out; }
  ew = calloc ((size_t) v.n * v.n + 1, sizeof (Num));
  for (i = 0; i < v.n; i ++) { Num s = 0; for (j = 0; j < n; j ++) if (own[j] == i) s += g->w[j]; if (v.w[i] != s) { mc_fail ("%s: coarse vertex %d has load %d instead of %d", what, i, (int) v.w[i], (int) s); free (ew); goto out; } }
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) if (g_adj (g, i, j) && own[i] != own[j]) ew[(size_t) own[i] * v.n + own[j]] += g->ew[(size_t) i * n + j];
  for (i = 0; i < v.n * v.n; i ++) if (v.ew[i] != ew[i]) { mc_fail ("%s: coarse edge (%d,%d) has load %d instead of %d", what, i / v.n, i % v.n, (int) v.ew[i], (int) ew[i]); free (ew); goto out; }
  for (i = 0; i < v.n; i ++) for (j = 0; j < v.n; j ++) {      /* edges of load zero exist too */
    int a, b, e = 0; if (i == j) continue;
    if (n > 12) break;
    for (a = 0; a < n; a ++) for (b = 0; b < n; b ++) if (own[a] == i && own[b] == j && g_adj (g, a, b)) e = 1;
    if (e != v.mult[i * v.n + j]) { mc_fail ("%s: coarse edge (%d,%d) exists: %d instead of %d", what, i, j, v.mult[i * v.n + j], e); free (ew); goto out; }
  }
  free (ew); mc_state (gv_hash (&v)); r = 0;
out:
  gv_exit (&v); free (own); return ! r;
}
static int deg (G *g, int i) { int j, d = 0; for (j = 0; j < g->n; j ++) d += g_adj (g, i, j); return d; }
static int matchcheck (G *g, const Num *mate, Num cn, int nomerge, const char *what) {
  int i, n = g->n, pairs = 0, j;
  for (i = 0; i < n; i ++) {
    j = mate[i] - g->base;
    if (j < 0 || j >= n || mate[j] - g->base != i) { mc_fail ("%s: matching is no pairing: %s", what, arr_str (mate, n)); return 0; }
    if (j != i && ! g_adj (g, i, j)) { int di = deg (g, i), dj = deg (g, j); if (di && dj) { mc_fail ("%s: %d and %d are matched and not adjacent", what, i, j); return 0; } if (nomerge) { mc_fail ("%s: isolated vertices merged: %s", what, arr_str (mate, n)); return 0; } }
    if (j > i) pairs ++;
  }
  if (cn != n - pairs) { mc_fail ("%s: %d coarse vertices announced for %d vertices and %d pairs", what, (int) cn, n, pairs); return 0; }
  for (i = 0; i < n; i ++) if (mate[i] - g->base == i) for (j = i + 1; j < n; j ++) if (mate[j] - g->base == j && g_adj (g, i, j)) { mc_fail ("%s: neighbours %d and %d are both left unmatched", what, i, j); return 0; }
  return 1;
}
static const double rats[] = { 0.5, 0.6, 0.75, 0.8, 0.9, 1.0 };
static void coarsen (G *g, int bound, int sd, int flag, int full) {
  BG b; SCOTCH_Graph *s = bg_open (&b, g, bound), c; int n = g->n, o, o2, ri, i; Num *mate = malloc ((n + 1) * sizeof (Num)), *m2 = malloc ((n + 1) * sizeof (Num)), *mult = malloc ((2 * n + 2) * sizeof (Num)), *mu2 = malloc ((2 * n + 2) * sizeof (Num)), cn, c2, mn;
  if (s == NULL) goto end;
  /* the matching itself */
  for (i = 0; i <= n; i ++) mate[i] = m2[i] = -77;
  cn = 0; seed (sd); if (bound > 1) SCOTCH_contextRandomReset (&b.c);
  o = SCOTCH_graphCoarsenMatch (s, &cn, 1.0, flag, mate); mc_ops (1);
  if (o == 2) { mc_fail ("matching fails"); goto out; }
  if (mate[n] != -77) { mc_fail ("mating array overrun"); goto out; }
  if (o == 0 && ! matchcheck (g, mate, cn, flag, "match")) goto out;
  if (o == 0 && cn >= n) { mc_fail ("matching accepted although nothing is matched"); goto out; }
  if (o == 1) { cn = n; }
  for (ri = full ? 0 : sd % 6; ri < 6; ri += full ? 1 : 6) for (mn = 0; mn <= (full ? n + 1 : 0); mn += (n > 4 ? 3 : 1)) {
    int max = (int) ((double) n * rats[ri]), want = (max < mn || cn >= max) ? 1 : 0;
    c2 = mn; seed (sd); if (bound > 1) SCOTCH_contextRandomReset (&b.c);
    o = SCOTCH_graphCoarsenMatch (s, &c2, rats[ri], flag, m2); mc_ops (1);
    if (o != want) { mc_fail ("matching with min %d and ratio %g returns %d; %d coarse vertices out of %d", (int) mn, rats[ri], o, (int) cn, n); goto out; }
    if (o == 0 && (c2 != cn || memcmp (mate, m2, n * sizeof (Num)))) { mc_fail ("matching differs with ratio %g", rats[ri]); goto out; }
    SCOTCH_graphInit (&c); for (i = 0; i < 2 * n + 2; i ++) mult[i] = -77;
    seed (sd); if (bound > 1) SCOTCH_contextRandomReset (&b.c);
    o2 = SCOTCH_graphCoarsen (s, mn, rats[ri], flag, &c, mult); mc_ops (1);
    if (o2 != want) { mc_fail ("coarsening with min %d and ratio %g returns %d; %d coarse vertices out of %d", (int) mn, rats[ri], o2, (int) cn, n); SCOTCH_graphExit (&c); goto out; }
    if (o2 == 0) {
      SCOTCH_Graph d; Num cc = cn;
      if (mult[2 * cn] != -77) mc_fail ("multinode array overrun");
      if (! mc_failed () && coarsecheck (g, &c, mult, NULL, cn, "coarsen")) {
        for (i = 0; i < cn; i ++) if (mate[mult[2 * i] - g->base] != mult[2 * i + 1]) { mc_fail ("coarsening does not follow its matching"); break; }
        SCOTCH_graphInit (&d);
        if (! mc_failed ()) {
          o = SCOTCH_graphCoarsenBuild (s, cc, m2, &d, mu2); mc_ops (1);
          if (o != 0) mc_fail ("coarse graph not built from matching");
          else if (coarsecheck (g, &d, mu2, m2, cn, "build") && memcmp (mult, mu2, 2 * cn * sizeof (Num))) mc_fail ("match and build differ from coarsening");
        }
        SCOTCH_graphExit (&d);
      }
      mc_nontrivial ();
    }
    if (mc_errnbr && ! mc_failed ()) mc_fail ("error message although the calls succeed");
    SCOTCH_graphExit (&c);
    if (mc_failed ()) goto out;
  }
out:
  bg_close (&b, g);
end:
  free (mate); free (m2); free (mult); free (mu2);
}
static void anymatch (G *g, const int *mt, int bound) {         /* a matching given by the caller */
  BG b; SCOTCH_Graph *s = bg_open (&b, g, bound), c; int n = g->n, i, p = 0; Num mate[16], mult[34];
  for (i = 0; i < n; i ++) { mate[i] = mt[i] + g->base; if (mt[i] > i) p ++; }
  for (i = 0; i < 34; i ++) mult[i] = -77;
  SCOTCH_graphInit (&c);
  if (s) {
    if (SCOTCH_graphCoarsenBuild (s, n - p, mate, &c, mult) != 0) mc_fail ("given matching refused");
    else if (mult[2 * (n - p)] != -77) mc_fail ("multinode array overrun");
    else if (coarsecheck (g, &c, mult, mate, n - p, "given matching")) for (i = 0; i < n - p; i ++) if (mt[mult[2 * i] - g->base] != mult[2 * i + 1] - g->base) { mc_fail ("given matching not followed"); break; }
    mc_ops (1); if (p) mc_nontrivial ();
  }
  SCOTCH_graphExit (&c); bg_close (&b, g);
}
static int mts[800][8], mtn;
static void involutions (int n, int i, int *m) { int j; if (i == n) { memcpy (mts[mtn ++], m, 8 * sizeof (int)); return; } if (m[i] >= 0) { involutions (n, i + 1, m); return; } for (j = i; j < n; j ++) if (j == i || m[j] < 0) { m[i] = j; m[j] = i; involutions (n, i + 1, m); m[i] = m[j] = -1; } }
static void shapes (void (*fn) (Shape *, int n, int small, int salt), int maxn, int maxatlas, int fam) {
  Shape s; int n, i; u64 m; sh_init (&s);
  for (n = 1; n <= maxn; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) { sh_mask (&s, n, m); fn (&s, n, 1, (int) m); }
  for (n = maxn + 1; n <= maxatlas; n ++) for (i = 0; i < sh_atlasnbr (n); i ++) { sh_atlas (&s, n, i); fn (&s, n, 0, i); }
  for (i = 0; sh_family (&s, i, fam); i ++) fn (&s, s.n, -1, i);
  sh_exit (&s);
}
static const int vks[] = { 0, 1, 4 }, eks[] = { 0, 1, 2 };
static void f17 (Shape *s, int n, int small, int salt) {
  int lay, v, e, bo, sd, fl, q, base; G g; int m[8];
  if (small > 0) {
    for (lay = 0; lay < LAY_NBR; lay ++) for (v = 0; v < 3; v ++) for (e = 0; e < 3; e ++) for (fl = 0; fl < 2; fl ++) for (sd = 0; sd < (n <= 3 ? 4 : 2); sd ++) {
      int x = lay * 3 + v * 5 + e * 7 + fl * 11 + sd + salt;
      if (n == 5 && x % (mc_thorough ? 2 : 8)) continue;
      if (mc_skip ()) continue;
      base = x % 3 == 2 ? 7 : x % 3; bo = (x / 3) % 4; if (bo == 3) bo = 0;
      g_make (&g, s, base, lay, vks[v], eks[e], x & 1);
      if (mc_case ("coarsen %s flag=%d seed=%d context=%d", g.desc, fl, sd, bo)) coarsen (&g, bo, sd, fl ? SCOTCH_COARSENNOMERGE : 0, 1);
      g_exit (&g);
    }
    mtn = 0; for (q = 0; q < 8; q ++) m[q] = -1;
    involutions (n, 0, m);
    for (q = 0; q < mtn; q ++) for (lay = 0; lay < LAY_NBR; lay ++) {
      int x = q + lay + salt;
      if (n == 5 && ! mc_thorough && x % 3) continue;
      if (mc_skip ()) continue;
      g_make (&g, s, x % 3 == 2 ? 3 : x % 3, lay, vks[(x / 3) % 3], eks[(x / 5) % 3], 0);
      if (mc_case ("given matching %d,%d,%d,%d,%d,%d of %s", mts[q][0], mts[q][1], mts[q][2], mts[q][3], mts[q][4], mts[q][5], g.desc)) anymatch (&g, mts[q], x % 4 == 3);
      g_exit (&g);
    }
  }
  else for (fl = 0; fl < 2; fl ++) for (sd = 0; sd < (small < 0 ? (mc_thorough ? 24 : 6) : 3); sd ++) for (q = 0; q < 3; q ++) {
    int x = salt + fl + sd + q * 3;
    if (small == 0 && n == 7 && ! mc_thorough && x % 3) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 2, (x / 2) % LAY_NBR, vks[(x / 3) % 3], eks[(q + x) % 3], 0);
    if (mc_case ("coarsen %s flag=%d seed=%d", g.desc, fl, sd)) coarsen (&g, x % 5 == 4, sd, fl ? SCOTCH_COARSENNOMERGE : 0, n < 9);
    g_exit (&g);
  }
}

/* ---- 18 ---- */
static void induce (G *g, const int *list, int k, int part, int bound, int pv) {
  BG b; SCOTCH_Graph *s = bg_open (&b, g, bound), c; int n = g->n, i, j, o; Num *l = malloc ((k + 1) * sizeof (Num)); unsigned char *pt = malloc (n + 1); GV v; char err[200];
  if (s == NULL) { free (l); free (pt); return; }
  for (i = 0; i < k; i ++) l[i] = list[i] + g->base;
  for (i = 0; i < n; i ++) pt[i] = (pv + 1 + i % 2) % 4; for (i = 0; i < k; i ++) pt[list[i]] = pv;
  SCOTCH_graphInit (&c);
  o = part ? SCOTCH_graphInducePart (s, k, pt, pv, &c) : SCOTCH_graphInduceList (s, k, l, &c); mc_ops (1);
  if (o != 0) mc_fail ("induced graph not built");
  else if (mc_errnbr) mc_fail ("error message");
  else if (gv_read (&v, &c, err, sizeof (err)) != 0) { mc_fail ("induced graph: %s", err); gv_exit (&v); }
  else {
    if (v.n != k || v.base != g->base) mc_fail ("induced graph has %d vertices and base %d", v.n, (int) v.base);
    else if (SCOTCH_graphCheck (&c) != 0) mc_fail ("induced graph fails check");
    else for (i = 0; i < k && ! mc_failed (); i ++) {
      if (v.w[i] != g->w[list[i]]) mc_fail ("vertex %d has load %d instead of %d", i, (int) v.w[i], (int) g->w[list[i]]);
      for (j = 0; j < k; j ++) {
        int a = (i == j) ? 0 : g_adj (g, list[i], list[j]);
        if (v.mult[i * k + j] != a) { mc_fail ("edge (%d,%d) exists %d time(s) instead of %d", i, j, v.mult[i * k + j], a); break; }
        if (a && v.ew[i * k + j] != (g->ew[(size_t) list[i] * n + list[j]])) { mc_fail ("edge (%d,%d) has load %d instead of %d", i, j, (int) v.ew[i * k + j], (int) g->ew[(size_t) list[i] * n + list[j]]); break; }
      }
    }
    mc_state (gv_hash (&v)); gv_exit (&v);
    if (! mc_failed () && k > 0) {                                 /* an induced graph is a graph: it can be induced again, and ordered or partitioned */
      SCOTCH_Graph d; Num l2[1], pp[64]; SCOTCH_Strat st;
      SCOTCH_graphInit (&d); l2[0] = g->base + k - 1;
      if (SCOTCH_graphInduceList (&c, 1, l2, &d) != 0 || SCOTCH_graphCheck (&d) != 0) mc_fail ("induced graph cannot be induced again");
      SCOTCH_graphExit (&d);
      if (k <= 64 && part) { SCOTCH_stratInit (&st); if (SCOTCH_graphPart (&c, 2, &st, pp) != 0) mc_fail ("induced graph cannot be partitioned"); SCOTCH_stratExit (&st); }
    }
  }
  for (i = 0; i < k; i ++) if (l[i] != list[i] + g->base) { mc_fail ("vertex list modified"); break; }
  SCOTCH_graphExit (&c); bg_close (&b, g); free (l); free (pt); if (k > 1) mc_nontrivial ();
}
static void f18 (Shape *s, int n, int small, int salt) {
  int q, i, k, lst[600], x, ord, part; G g;
  if (n > 600) return;
  if (n <= 7) {
    int per[8], used, top = 1; (void) used;
    for (i = 0; i < n; i ++) top *= 2;
    for (q = 1; q < top; q ++) {
      for (k = 0, i = 0; i < n; i ++) if (q >> i & 1) per[k ++] = i;
      int f = 1, z; for (i = 2; i <= k; i ++) f *= i;
      for (z = 0; z < f; z ++) for (part = 0; part < 2; part ++) {        /* all orders of the list */
        if (part && z) continue;
        if (n >= 5 && ! part && z % (n == 5 ? (mc_thorough ? 1 : 7) : (mc_thorough ? 31 : 311)) != salt % 7) continue;
        if (n == 7 && ! mc_thorough && (q + salt) % 8) continue;
        if (n == 6 && ! mc_thorough && (q + salt) % 2) continue;
        x = salt + q * 3 + z * 5 + part;
        if (mc_skip ()) continue;
        { int av[8], r = z, a = k; memcpy (av, per, sizeof (per)); for (i = 0; i < k; i ++) { int t = r % a; r /= a; lst[i] = av[t]; memmove (av + t, av + t + 1, (a - t - 1) * sizeof (int)); a --; } }
        if (part) memcpy (lst, per, sizeof (per));
        g_make (&g, s, x % 3 == 2 ? 4 : x % 3, (x / 3) % LAY_NBR, vks[(x / 2) % 3], eks[(x / 5) % 3], (x / 7) % 2);
        if (mc_case ("induce %s of %s by %s from list of %d: %d,%d,%d,%d,%d,%d,%d", part ? "part" : "list", g.desc, part ? "part" : "list", k, lst[0], k > 1 ? lst[1] : -1, k > 2 ? lst[2] : -1, k > 3 ? lst[3] : -1, k > 4 ? lst[4] : -1, k > 5 ? lst[5] : -1, k > 6 ? lst[6] : -1)) induce (&g, lst, k, part, (x / 2) % 3 == 2, x % 4);
        g_exit (&g);
      }
    }
  }
  else for (q = 0; q < 6; q ++) for (ord = 0; ord < 3; ord ++) {
    x = salt + q * 3 + ord;
    if (mc_skip ()) continue;
    for (k = 0, i = 0; i < n; i ++) if (q == 0 || (q == 1 && i % 2) || (q == 2 && i < n / 2) || (q == 3 && i % 3 != 1) || (q == 4 && i != n / 2) || (q == 5 && (i * 7 % n) < 3 * n / 4)) lst[k ++] = i;
    if (ord == 1) for (i = 0; i < k / 2; i ++) { int t = lst[i]; lst[i] = lst[k - 1 - i]; lst[k - 1 - i] = t; }
    g_make (&g, s, x % 2, (x / 2) % LAY_NBR, vks[(x / 3) % 3], eks[(x / 5) % 3], 0);
    if (mc_case ("induce %s of %s pattern %d order %d", ord == 2 ? "part" : "list", g.desc, q, ord)) induce (&g, lst, k, ord == 2, x % 3 == 2, x % 3);
    g_exit (&g);
  }
  (void) small;
}

/* ---- 19 ---- */
static void color (G *g, int bound, int sd) {
  BG b; SCOTCH_Graph *s = bg_open (&b, g, bound); int n = g->n, i, j, o; Num *c = malloc ((n + 1) * sizeof (Num)), nb = -5; char *use = calloc (n + 2, 1);
  if (s) {
    for (i = 0; i <= n; i ++) c[i] = -77;
    seed (sd); o = SCOTCH_graphColor (s, c, &nb, 0); mc_ops (1);
    if (o != 0) mc_fail ("colouring fails");
    else if (nb < (n > 0) || nb > n) mc_fail ("%d colours for %d vertices", (int) nb, n);
    else {
      for (i = 0; i < n; i ++) { if (c[i] < 0 || c[i] >= nb) { mc_fail ("vertex %d has colour %d out of %d", i, (int) c[i], (int) nb); break; } use[c[i]] = 1; }
      for (i = 0; i < n && ! mc_failed (); i ++) for (j = 0; j < n; j ++) if (g_adj (g, i, j) && c[i] == c[j]) { mc_fail ("neighbours %d and %d have the same colour: %s", i, j, arr_str (c, n)); break; }
      for (i = 0; i < nb && ! mc_failed (); i ++) if (! use[i]) mc_fail ("colour %d of %d is not used: %s", i, (int) nb, arr_str (c, n));
    }
    if (c[n] != -77) mc_fail ("colour array overrun");
    mc_state (mc_hash (mc_hashi (g->hash, nb), c, n * sizeof (Num))); if (g->m) mc_nontrivial ();
    bg_close (&b, g);
  }
  free (c); free (use);
}
static void f19 (Shape *s, int n, int small, int salt) {
  int lay, sd; G g;
  for (lay = 0; lay < LAY_NBR; lay ++) for (sd = 0; sd < (small > 0 ? (n <= 4 ? 24 : 6) : small == 0 ? 6 : 12); sd ++) {
    int x = lay + sd * 5 + salt;
    if (small <= 0 && (lay != salt % LAY_NBR)) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 3 == 2 ? 6 : x % 3, lay, 0, 0, 0);
    if (mc_case ("colour %s seed=%d", g.desc, sd)) color (&g, x % 4 == 3, sd);
    g_exit (&g);
  }
}

/* ---- 20 ---- */
static void diam (G *g, int bound, int sd) {
  BG b; SCOTCH_Graph *s = bg_open (&b, g, bound); int n = g->n, i, j, k, conn = 1, ok = 0; Num *d = malloc ((size_t) n * n * sizeof (Num)), *ecc = calloc (n, sizeof (Num)), r, rad = SCOTCH_NUMMAX, dia = 0;
  if (s == NULL) { free (d); free (ecc); return; }
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) d[i * n + j] = (i == j) ? 0 : g_adj (g, i, j) ? g->ew[(size_t) i * n + j] + (g->vk ? g->w[i] : 0) : -1;   /* loads of the vertices that are left count, as for edges */
  for (k = 0; k < n; k ++) for (i = 0; i < n; i ++) if (d[i * n + k] >= 0) for (j = 0; j < n; j ++) if (d[k * n + j] >= 0 && (d[i * n + j] < 0 || d[i * n + j] > d[i * n + k] + d[k * n + j])) d[i * n + j] = d[i * n + k] + d[k * n + j];
  for (i = 0; i < n; i ++) { for (j = 0; j < n; j ++) { if (d[i * n + j] < 0) conn = 0; if (d[i * n + j] > ecc[i]) ecc[i] = d[i * n + j]; } if (ecc[i] < rad) rad = ecc[i]; if (ecc[i] > dia) dia = ecc[i]; }
  seed (sd); r = SCOTCH_graphDiamPV (s); mc_ops (1);
  if (! conn) { if (r != SCOTCH_NUMMAX) mc_fail ("disconnected graph has diameter %d", (int) r); }
  else if (r < rad || r > dia) mc_fail ("diameter %d, true radius %d, true diameter %d", (int) r, (int) rad, (int) dia);
  else {
    for (i = 0; i < n && ! ok; i ++) for (j = 0; j < n; j ++) if (d[i * n + j] == r && ecc[j] <= r) { ok = 1; break; }
    if (! ok) mc_fail ("diameter %d is not the distance of a vertex to one that sees no farther", (int) r);
  }
  mc_state (mc_hashi (g->hash, r)); if (conn && n > 1) mc_nontrivial ();
  bg_close (&b, g); free (d); free (ecc);
}
static void f20 (Shape *s, int n, int small, int salt) {
  int e, v, sd; G g;
  if (n > 300) return;
  for (v = 0; v < 3; v ++) for (e = 0; e < 3; e ++) for (sd = 0; sd < (small > 0 ? 6 : 3); sd ++) {
    int x = v + e * 3 + sd * 5 + salt;
    if (small <= 0 && x % 2 && ! mc_thorough) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 3 == 2 ? 6 : x % 3, (x / 3) % LAY_NBR, v == 2 ? 4 : v, e, 0);
    if (mc_case ("diameter %s seed=%d", g.desc, sd)) diam (&g, x % 4 == 3, sd);
    g_exit (&g);
  }
}

/* ---- 22 ---- */
static int near (double a, double b) { return fabs (a - b) <= 1e-9 * (1 + fabs (b)); }
static void stats (const Num *v, int n, Num *mn, Num *mx, Num *sum, double *avg, double *dlt) { int i; *mn = *mx = *sum = 0; *avg = *dlt = 0; for (i = 0; i < n; i ++) { if (i == 0 || v[i] < *mn) *mn = v[i]; if (i == 0 || v[i] > *mx) *mx = v[i]; *sum += v[i]; } if (n) { *avg = (double) *sum / n; for (i = 0; i < n; i ++) *dlt += fabs (v[i] - *avg); *dlt /= n; } }
static void query (G *g, int bound) {
  BG b; SCOTCH_Graph *s = bg_open (&b, g, bound); int n = g->n, i, j, k; Num r[8], w[8], *dg = calloc (n + 1, sizeof (Num)), *el = calloc (g->m + 1, sizeof (Num)), n2, m2, b2, *p1, *p2, *p3, *p4, *p5, *p6; double a[6], z[6];
  if (s == NULL) return;
  for (k = 0, i = 0; i < n; i ++) for (j = 0; j < n; j ++) if (g_adj (g, i, j)) { dg[i] ++; el[k ++] = g->ew[(size_t) i * n + j]; }
  SCOTCH_graphStat (s, &r[0], &r[1], &r[2], &a[0], &a[1], &r[3], &r[4], &a[2], &a[3], &r[5], &r[6], &r[7], &a[4], &a[5]);
  { Num ds; stats (g->w, n, &w[0], &w[1], &w[2], &z[0], &z[1]); stats (dg, n, &w[3], &w[4], &ds, &z[2], &z[3]); stats (el, k, &w[5], &w[6], &w[7], &z[4], &z[5]); w[7] /= 2; }
  for (i = 0; i < 8; i ++) if (r[i] != w[i]) { mc_fail ("statistics %d: %ld instead of %ld (loads %s degrees %s)", i, (long) r[i], (long) w[i], arr_str (g->w, n > 9 ? 9 : n), arr_str (dg, n > 9 ? 9 : n)); break; }
  for (i = 0; i < 6; i ++) if (! near (a[i], z[i])) { mc_fail ("statistics: average or deviation %d is %g instead of %g", i, a[i], z[i]); break; }
  SCOTCH_graphStat (s, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  SCOTCH_graphSize (s, &n2, &m2); if (n2 != n || m2 != g->m) mc_fail ("size is %d,%d instead of %d,%d", (int) n2, (int) m2, n, (int) g->m);
  SCOTCH_graphSize (s, NULL, &m2); SCOTCH_graphSize (s, &n2, NULL);
  SCOTCH_graphData (s, &b2, &n2, &p1, &p2, &p3, &p4, &m2, &p5, &p6); mc_ops (5);
  if (b2 != g->base || n2 != n || m2 != g->m || p1 != g->vert || (g->vend && p2 != g->vend) || (! g->vend && p2 != g->vert + 1) || p3 != g->velo || p4 != g->vlbl || p5 != g->edge || p6 != g->edlo) mc_fail ("graph data are not those given");
  SCOTCH_graphData (s, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  if (mc_errnbr) mc_fail ("error message");
  { u64 h = g->hash; for (i = 0; i < 8; i ++) h = mc_hashi (h, r[i]); mc_state (h); }
  mc_nontrivial (); bg_close (&b, g); free (dg); free (el);
}
static void f22 (Shape *s, int n, int small, int salt) {
  int v, e, lay, base; G g;
  for (lay = 0; lay < LAY_NBR; lay ++) for (base = 0; base < 3; base ++) for (v = 0; v < 5; v ++) for (e = 0; e < 3; e ++) {
    int x = salt + lay + base * 3 + v * 5 + e * 7;
    if ((small <= 0 || n > 4) && x % (mc_thorough ? 3 : 11)) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, base == 2 ? 9 : base, lay, v, e, x % 2);
    if (mc_case ("query %s", g.desc)) query (&g, x % 4 == 3);
    g_exit (&g);
  }
}
/* meshes */
static void mquery (M *q, int bound) {
  SCOTCH_Mesh me, mb, *s = &me; SCOTCH_Context c; int i, j, k = 0; Num r[9], w[9], *ed = calloc (q->ne + 1, sizeof (Num)), *nd = calloc (q->nn + 1, sizeof (Num)), d0[4], *p[6], a1, a2, a3; double a[6], z[6]; Num dum;
  if (m_build (q, &me) != 0) { mc_fail ("mesh not built"); return; }
  if (bound) { SCOTCH_contextInit (&c); SCOTCH_meshInit (&mb); SCOTCH_contextThreadSpawn (&c, 1, NULL); if (SCOTCH_contextBindMesh (&c, &me, &mb) != 0) mc_fail ("mesh not bound"); s = &mb; }
  for (i = 0; i < q->ne; i ++) for (j = 0; j < q->nn; j ++) if (q->inc[i * q->nn + j]) { ed[i] ++; nd[j] ++; k += 2; }
  SCOTCH_meshStat (s, &r[0], &r[1], &r[2], &a[0], &a[1], &r[3], &r[4], &a[2], &a[3], &r[5], &r[6], &a[4], &a[5]);
  stats (q->nw, q->nn, &w[0], &w[1], &w[2], &z[0], &z[1]); stats (ed, q->ne, &w[3], &w[4], &dum, &z[2], &z[3]); stats (nd, q->nn, &w[5], &w[6], &dum, &z[4], &z[5]);
  for (i = 0; i < 7; i ++) if (r[i] != w[i]) { mc_fail ("mesh statistics %d: %ld instead of %ld", i, (long) r[i], (long) w[i]); break; }
  for (i = 0; i < 6; i ++) if (! near (a[i], z[i])) { mc_fail ("mesh statistics: average or deviation %d is %g instead of %g", i, a[i], z[i]); break; }
  SCOTCH_meshStat (s, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  SCOTCH_meshSize (s, &a1, &a2, &a3); if (a1 != q->ne || a2 != q->nn || a3 != q->m) mc_fail ("mesh size is %d,%d,%d instead of %d,%d,%d", (int) a1, (int) a2, (int) a3, q->ne, q->nn, (int) q->m);
  SCOTCH_meshSize (s, NULL, NULL, NULL);
  { Num vb, nb, en, nn, *vt, *ve, *vl, *vn, *lb, dg, eg, *eb, mx = 0;
    SCOTCH_meshData (s, &vb, &nb, &en, &nn, &vt, &ve, &vl, &vn, &lb, &eg, &eb, &dg); mc_ops (4);
    for (i = 0; i < q->ne; i ++) if (ed[i] > mx) mx = ed[i];
    for (j = 0; j < q->nn; j ++) if (nd[j] > mx) mx = nd[j];
    if (vb != q->velmbas || nb != q->vnodbas || en != q->ne || nn != q->nn || eg != q->m) mc_fail ("mesh data are not those given");
    else if (vt != q->vert || (q->vend && ve != q->vend) || (! q->vend && ve != q->vert + 1) || eb != q->edge || lb != q->vlbl) mc_fail ("mesh arrays are not those given");
    else if ((q->velo != NULL) != (vl != NULL) || (q->vnlo != NULL) != (vn != NULL)) mc_fail ("mesh load arrays are not those given");
    else if (dg != mx) mc_fail ("mesh maximum degree is %d instead of %d", (int) dg, (int) mx);
    for (i = 0; vl && i < q->ne && ! mc_failed (); i ++) if (vl[i] != q->ew[i]) mc_fail ("element load array is not that given");
    for (i = 0; vn && i < q->nn && ! mc_failed (); i ++) if (vn[i] != q->nw[i]) mc_fail ("node load array is not that given");
  }
  SCOTCH_meshData (s, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
  { u64 h = q->hash; for (i = 0; i < 7; i ++) h = mc_hashi (h, r[i]); mc_state (h); }
  if (bound) { SCOTCH_meshExit (&mb); SCOTCH_contextExit (&c); }
  SCOTCH_meshExit (&me); if (! m_same (q)) mc_fail ("mesh modified"); free (ed); free (nd); mc_nontrivial (); (void) d0; (void) p;
}
static void meshes22 (void) {
  int e, n, base, first, lay, ek, nk, i; u64 m; M q;
  for (e = 1; e <= 3; e ++) for (n = 1; n <= (mc_thorough ? 4 : 3); n ++) for (m = 0; m < (1ULL << (e * n)); m ++)
    for (base = 0; base < 2; base ++) for (first = 0; first < 2; first ++) for (lay = 0; lay < LAY_NBR; lay ++) for (ek = 0; ek < 2; ek ++) for (nk = 0; nk < 2; nk ++) {
      int x = (int) m + base + first * 3 + lay * 5 + ek + nk;
      if (e * n > 6 && x % (mc_thorough ? 5 : 3)) continue;
      if (mc_skip ()) continue;
      m_make (&q, e, n, m, base, first, lay, ek, nk, 0);
      if (mc_case ("query %s", q.desc)) mquery (&q, x % 4 == 3);
      m_exit (&q);
    }
  for (i = 0; ; i ++) { for (base = 0; base < 4; base ++) { if (! m_family (&q, i, base % 2, base / 2, base, base % 2, base / 2, 0)) return; if (mc_case ("query %s", q.desc)) mquery (&q, base == 3); m_exit (&q); } }
}
void mc_run (void) {
  int t = mc_thorough; sel = atoi (getenv ("MC_SET"));
  if (sel == 17) shapes (f17, 5, 7, t ? 2 : 1);
  if (sel == 18) shapes (f18, t ? 5 : 4, t ? 7 : 6, t ? 2 : 1);
  if (sel == 19) shapes (f19, t ? 6 : 5, 7, t ? 2 : 1);
  if (sel == 20) shapes (f20, t ? 5 : 4, 7, t ? 2 : 1);
  if (sel == 22) { shapes (f22, t ? 5 : 4, 7, t ? 2 : 1); meshes22 (); }
}
