/* ESMUMPS: elimination tree, fronts and block symbolic factorisation, against a set-based reference factorisation. */
#include "../mc/gspace.h"
#include <esmumps.h>
#define ESM 1
#include "esm_int.h"

/* Reference: given supernodes (sn[i] = principal variable of i) and their father (0-based, -1 root), the exact set of rows of each front */
static void fronts (int n, const G *g, const int *sn, const int *dad, const int *ord, char *row) {   /* ord: supernodes, sons before fathers; row[p*n+i] */
  int i, j, k; memset (row, 0, (size_t) n * n);
  for (k = 0; k < n && ord[k] >= 0; k ++) { int p = ord[k];
    for (i = 0; i < n; i ++) if (sn[i] == p) { row[(size_t) p * n + i] = 1; for (j = 0; j < n; j ++) if (g_adj (g, i, j)) { int a = sn[j]; while (a >= 0 && a != p) a = dad[a]; if (a < 0 || sn[j] == p) row[(size_t) p * n + j] = 1; } }
    for (i = 0; i < n; i ++) if (sn[i] == i && dad[i] == p) for (j = 0; j < n; j ++) if (row[(size_t) i * n + j] && sn[j] != i) row[(size_t) p * n + j] = 1; }
}
/* n variables; pe, nv as returned */
static void judge (const G *g, const Num *pe, const Num *nv, const Num *w) {
  int n = g->n, i, j, k, *sn = malloc (n * sizeof (int)), *dad = malloc (n * sizeof (int)), *ord = malloc ((n + 1) * sizeof (int)), *dep = malloc (n * sizeof (int)), nb = 0, d; char *row = malloc ((size_t) n * n);
  for (i = 0; i < n && ! mc_failed (); i ++) {
    if (pe[i] > 0 || pe[i] < - n) { mc_fail ("pe(%d)=%ld is not a variable", i + 1, (long) pe[i]); break; }
    if (nv[i] < 0) { mc_fail ("nv(%d)=%ld", i + 1, (long) nv[i]); break; }
    sn[i] = nv[i] ? i : - pe[i] - 1; dad[i] = nv[i] ? - pe[i] - 1 : -1;
    if (sn[i] < 0) mc_fail ("secondary variable %d has no principal variable", i + 1);
  }
  for (i = 0; i < n && ! mc_failed (); i ++) { if (nv[sn[i]] == 0) mc_fail ("secondary variable %d attached to secondary variable %d", i + 1, sn[i] + 1); if (dad[i] >= 0 && nv[dad[i]] == 0) mc_fail ("father %d of %d is not a principal variable", dad[i] + 1, i + 1); }
  if (! mc_failed ()) for (i = 0; i < n; i ++) if (sn[i] == i) { for (d = 0, j = i; j >= 0 && d <= n; j = dad[j], d ++) ; if (d > n) { mc_fail ("parent array has a cycle through %d", i + 1); break; } dep[i] = d; }
  if (! mc_failed ()) {
    for (i = 0; i <= n; i ++) ord[i] = -1;
    for (d = n; d > 0; d --) for (i = 0; i < n; i ++) if (sn[i] == i && dep[i] == d) ord[nb ++] = i;
    fronts (n, g, sn, dad, ord, row);
    for (k = 0; k < nb && ! mc_failed (); k ++) { int p = ord[k]; Num s = 0; int dadrow = 0, out = 0;
      for (i = 0; i < n; i ++) if (row[(size_t) p * n + i]) { int a = sn[i]; s += w ? w[i] : 1; if (a == p) continue; out = 1; if (a == dad[p]) dadrow = 1;
        { int x = p; while (x >= 0 && x != a) x = dad[x]; if (x < 0) { mc_fail ("row %d of the front of %d belongs to none of its ancestors: the tree does not cover the matrix", i + 1, p + 1); break; } } }
      if (mc_failed ()) break;
      if (out && ! dadrow) { if (dad[p] < 0) mc_fail ("front of %d has rows outside of it but no father", p + 1); else mc_fail ("father %d of %d is not the first row of its front", dad[p] + 1, p + 1); }
      else if (! out && dad[p] >= 0) mc_fail ("%d has father %d but no row in it", p + 1, dad[p] + 1);
      else if (nv[p] != s) mc_fail ("nv(%d)=%ld but the front has %ld variables: pe %s nv %s", p + 1, (long) nv[p], (long) s, arr_str (pe, n), arr_str (nv, n));
    }
    if (nb > 1 && nb < n) mc_nontrivial ();
  }
  free (sn); free (dad); free (ord); free (dep); free (row);
}
void esmumpsf_ (const Num *, const Num *, Num *, const Num *, Num *, Num *, Num *, Num *, Num *, Num *);
void esmumpsvf_ (const Num *, const Num *, Num *, const Num *, Num *, Num *, Num *, Num *, Num *, Num *);
static void esm (const G *g, int slack) {
  int n = g->n, i, v; Num m = g->m, pfree = m + 1, *pe = malloc (n * sizeof (Num)), *len = malloc (n * sizeof (Num)), *iw = malloc ((m + n * slack + 1) * sizeof (Num)), *iw2 = malloc ((m + n * slack + 1) * sizeof (Num)), *nv = malloc (n * sizeof (Num)), *el = malloc (n * sizeof (Num)), *la = malloc (n * sizeof (Num)), *nv0 = malloc (n * sizeof (Num)); Num r = 0, nn = n;
  for (v = 0; v < (g->velo ? 2 : 4) && ! mc_failed (); v ++) { int weighted = g->velo != NULL || v >= 2; Num q = 0, *w = g->velo; Num il; int o;
    for (i = 0; i < n; i ++) { Num k; pe[i] = q + 1; len[i] = g->vert[i + 1] - g->vert[i]; for (k = 0; k < len[i]; k ++) iw[q ++] = g->edge[g->vert[i] - g->base + k] - g->base + 1; for (k = 0; k < slack; k ++) iw[q ++] = -5; nv[i] = weighted ? (w ? w[i] : 1) : -7; el[i] = la[i] = -9; nv0[i] = nv[i]; }
    memcpy (iw2, iw, q * sizeof (Num)); il = q;
    SCOTCH_randomReset (); mc_ops (1); r = -4; pfree = m + 1;
    if (v & 1) { (weighted ? esmumpsvf_ : esmumpsf_) (&nn, &il, pe, &pfree, len, iw, nv, el, la, &r); o = r; }
    else o = (weighted ? esmumpsv : esmumps) (n, il, pe, pfree, len, iw, nv, el, la);
    if (o != 0) { mc_fail ("esmumps fails with status %d: %s", o, mc_errbuf); break; }
    if (memcmp (iw, iw2, q * sizeof (Num))) { mc_fail ("iw is not preserved"); break; }
    judge (g, pe, nv, weighted ? nv0 : NULL);
    if (! mc_failed () && el[0] != -9) { char *seen = calloc (n, 1); for (i = 0; i < n; i ++) { if (el[i] < 1 || el[i] > n || seen[el[i] - 1] ++ || la[el[i] - 1] != i + 1) { mc_fail ("elen / last are not permutations inverse of each other"); break; } } free (seen); }
    mc_state (mc_hash (mc_hash (v, pe, n * sizeof (Num)), nv, n * sizeof (Num)));
  }
  free (pe); free (len); free (iw); free (iw2); free (nv); free (el); free (la); free (nv0);
}
/* block symbolic factorisation of a given ordering: exactly the rows of the reference; counts against a scalar reference */
static void fax (G *g, const char *st) {
  SCOTCH_Graph gr; FaxRes f; int n = g->n, i, j, b, k; char *row, *got; int *blk, *dad, *ord;
  if (g_build (g, &gr)) { mc_fail ("graph not built"); return; }
  SCOTCH_randomReset (); mc_ops (1); memset (&f, 0, sizeof (f));
  if (faxrun (&gr, st, &f, g->base)) { mc_fail ("ordering or symbolic factorisation fails: %s: %s", st, mc_errbuf); SCOTCH_graphExit (&gr); return; }
  row = calloc (n, n); got = calloc (n, n); blk = malloc (n * sizeof (int)); ord = malloc ((n + 1) * sizeof (int)); dad = malloc (n * sizeof (int));
  if (f.check != 0) mc_fail ("symbolCheck refuses the factor");
  if (f.ocheck != 0) mc_fail ("orderCheck refuses the ordering");
  /* blocks of columns in elimination order: reference by block elimination */
  for (k = 0; k < f.ncblk; k ++) for (j = f.rang[k]; j < f.rang[k + 1]; j ++) blk[j] = k;
  for (k = 0; k < f.ncblk; k ++) { for (j = f.rang[k]; j < f.rang[k + 1]; j ++) { row[(size_t) k * n + j] = 1; for (i = 0; i < n; i ++) if (g_adj (g, f.peri[j], i) && blk[f.perm[i]] > k) row[(size_t) k * n + f.perm[i]] = 1; } }
  for (k = 0; k < f.ncblk; k ++) { dad[k] = -1; for (j = f.rang[k + 1]; j < n; j ++) if (row[(size_t) k * n + j]) { if (dad[k] < 0) dad[k] = blk[j]; if (blk[j] != dad[k]) row[(size_t) dad[k] * n + j] = 1; } }
  if (f.nodenbr != n || f.nc != f.ncblk) mc_fail ("factor has %d columns and %d column blocks for %d and %d", f.nodenbr, f.nc, n, f.ncblk);
  for (b = 0; b < f.nblok && ! mc_failed (); b ++) { for (j = f.blok[b][1]; j <= f.blok[b][2]; j ++) { if (j < 0 || j >= n || got[(size_t) f.blok[b][0] * n + j]) { mc_fail ("block %d covers rows [%d,%d] twice or out of range", b, f.blok[b][1], f.blok[b][2]); break; } got[(size_t) f.blok[b][0] * n + j] = 1; if (blk[j] != f.blok[b][3]) { mc_fail ("block %d faces column block %d but row %d is in %d", b, f.blok[b][3], j, blk[j]); break; } } }
  for (k = 0; k < f.ncblk && ! mc_failed (); k ++) { if (f.fcol[k] != f.rang[k] || f.lcol[k] != f.rang[k + 1] - 1) mc_fail ("column block %d is [%d,%d]", k, f.fcol[k], f.lcol[k]); else for (j = 0; j < n; j ++) if (got[(size_t) k * n + j] != row[(size_t) k * n + j]) { mc_fail ("row %d of column block %d is %s the factor: %s", j, k, row[(size_t) k * n + j] ? "missing from" : "not in but stored in", st); break; } }
  if (! mc_failed ()) { double nnz = 0, opc = 0; int d; static const int dd[] = { 1, 3 };
    for (d = 0; d < 2; d ++) { double c; nnz = opc = 0;
      for (k = 0; k < f.ncblk; k ++) { double s = 0, w; for (j = f.rang[k + 1]; j < n; j ++) s += row[(size_t) k * n + j]; c = (f.rang[k + 1] - f.rang[k]) * dd[d]; s *= dd[d]; nnz += c * (c + s); (void) w; }
      if (f.nnz[d] != nnz) mc_fail ("factor reported to hold %g coefficients, not %g (%d unknowns per node)", f.nnz[d], nnz, dd[d]);
      (void) opc; } }
  if (f.nblok > f.ncblk) mc_nontrivial ();
  mc_state (mc_hash (mc_hash (f.ncblk, f.blok, f.nblok * sizeof (f.blok[0])), f.perm, n * sizeof (int)));
  free (row); free (got); free (blk); free (ord); free (dad); faxexit (&f); SCOTCH_graphExit (&gr);
}
static char *strats[64]; static int snbr;
static void mkstrats (void) {
  static const char *b[] = { "s", "g", "f{cmin=0,cmax=100000,frat=0.0}", "d{cmin=0,cmax=100000,frat=0.0}", "f{cmin=15,cmax=100000,frat=0.1}", "n{sep=h{pass=3}f,ole=f{cmin=0,cmax=100,frat=0},ose=s}", "n{sep=/(vert>3)?h{pass=3}f;,ole=d{cmin=2,cmax=4,frat=0.5},ose=g}", "b{strat=s,cmin=2}", "c{rat=1,cpr=n{sep=h{pass=3},ole=s,ose=s},unc=s}", "b{strat=g,cmin=1}", NULL };
  int i, p, l, h, c; char buf[2000];
  for (i = 0; b[i]; i ++) strats[snbr ++] = strdup (b[i]);
  for (p = 1; p <= 5; p += 2) for (h = 0; h < 2; h ++) { for (l = 1; l < 9; l *= 4) { c = l * 3; esmumps_strat1 (p, l, h, l - 1, c, 0.1 * l, 0, stderr, buf); strats[snbr ++] = strdup (buf); } }
}
static int cnt;
static void dograph (Shape *s, int all, int big) {
  int vk, base, k; G g; memset (&g, 0, sizeof (g));
  for (vk = 0; vk < 2; vk ++) { cnt ++; if (mc_skip ()) continue; g_make (&g, s, cnt & 1, 0, vk ? (cnt & 2 ? 1 : 4) : 0, 0, 0); if (mc_case ("esmumps on %s", g.desc)) esm (&g, cnt % 3); }
  for (base = 0; base < 2; base ++) { cnt ++; if (! all && (cnt & 1)) continue; if (mc_skip ()) continue; g_make (&g, s, base, 0, 0, 0, 0); if (mc_case ("symbolic factorisations of %s", g.desc)) for (k = 0; k < snbr && ! mc_failed (); k ++) if (all || ((k + cnt) % 3) == 0) fax (&g, strats[k]); }
}
void mc_run (void) {
  Shape s; int n, k; u64 m; sh_init (&s); mkstrats ();
  for (n = 1; n <= (mc_thorough ? 6 : 5); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) { sh_mask (&s, n, m); dograph (&s, 1, 0); }
  for (n = 6; n <= 7; n ++) for (k = 0; sh_atlas (&s, n, k); k ++) dograph (&s, 0, 0);
  for (k = 0; sh_family (&s, k, 0); k ++) dograph (&s, 1, 0);
  for (k = 0; sh_family (&s, k, 1); k ++) if (s.n < (mc_thorough ? 3000 : 700)) dograph (&s, 0, 1);
  sh_exit (&s);
}
