/* Graph orderings: every strategy on every graph gives a permutation, its inverse, and a sound block / separator tree description. */
#include "gspace.h"

static int sel;                                              /* 7: permutations and ranges; 8: soundness of the separator tree */
static const char *strats[] = {
#include "st_order.h"
};
#define SNBR ((int) (sizeof (strats) / sizeof (strats[0])))

/* Block splitting of weighted induced sub-graphs is a known finding, checked by its own witness */
static int noweight (int k) { return strstr (strats[k], "b{strat") != NULL; }

static const int vkind[3] = { 0, 1, 4 };                    /* null vertex loads are a known finding, checked by its own witness */

static int usestrat (SCOTCH_Strat *st, int k) {
  SCOTCH_stratInit (st);
  return (strats[k][0] == 0) ? 0 : SCOTCH_stratGraphOrder (st, strats[k]);
}

/* reference checks on a complete block ordering; list: number of vertices ordered first if partial, or n */
static void valid (const G *g, const Num *perm, const Num *peri, Num cblk, const Num *rang, const Num *tree, int sound) {
  int n = g->n, i, j; int *blk; char *seen = calloc (n + 1, 1);
  for (i = 0; i < n; i ++) { Num p = perm[i] - g->base; if (p < 0 || p >= n || seen[p]) { mc_fail ("direct permutation is not one: %s", arr_str (perm, n)); free (seen); return; } seen[p] = 1; }
  free (seen);
  for (i = 0; i < n; i ++) if (peri[perm[i] - g->base] != i + g->base) { mc_fail ("inverse permutation %s does not match direct permutation %s", arr_str (peri, n), arr_str (perm, n)); return; }
  if (cblk < 1 || cblk > n) { mc_fail ("%d column blocks for %d vertices", (int) cblk, n); return; }
  if (rang[0] != g->base || rang[cblk] != n + g->base) { mc_fail ("block ranges %s do not span the vertices (%d blocks)", arr_str (rang, cblk + 1), (int) cblk); return; }
  for (i = 0; i < cblk; i ++) if (rang[i + 1] <= rang[i]) { mc_fail ("empty or decreasing block range %s", arr_str (rang, cblk + 1)); return; }
  for (i = 0; i < cblk; i ++) if (tree[i] != -1 && (tree[i] - g->base <= i || tree[i] - g->base >= cblk)) { mc_fail ("block %d has father %d (%d blocks)", i, (int) tree[i], (int) cblk); return; }
  blk = malloc ((n + 1) * sizeof (int));
  for (i = 0; i < cblk; i ++) for (j = rang[i] - g->base; j < rang[i + 1] - g->base; j ++) blk[peri[j] - g->base] = i;
  if (sound && sel != 7) for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (g_adj (g, i, j) && blk[i] != blk[j]) {
    int a = blk[i] < blk[j] ? blk[i] : blk[j], b = blk[i] < blk[j] ? blk[j] : blk[i], x = a;
    while (x != -1 && x != b) x = (tree[x] == -1) ? -1 : tree[x] - g->base;
    if (x != b) { mc_fail ("adjacent vertices %d and %d lie in blocks %d and %d, none of which is an ancestor of the other: perm=%s rang=%s tree=%s", j, i, blk[j], blk[i], arr_str (perm, n), arr_str (rang, cblk + 1), arr_str (tree, cblk)); free (blk); return; }
  }
  free (blk);
}

static void files (G *g, SCOTCH_Graph *gr, SCOTCH_Ordering *ord, const Num *perm, const Num *peri, Num cblk, const Num *rang, const Num *tree) {
  char *buf = NULL; size_t len = 0; FILE *f; int n = g->n, i, j; long a, b, c; int *blk = malloc ((n + 1) * sizeof (int)); Num *p2 = malloc ((n + 1) * sizeof (Num)), *q2 = malloc ((n + 1) * sizeof (Num)); SCOTCH_Ordering o2;
  for (i = 0; i < cblk; i ++) for (j = rang[i] - g->base; j < rang[i + 1] - g->base; j ++) blk[peri[j] - g->base] = i;
  f = open_memstream (&buf, &len); i = SCOTCH_graphOrderSave (gr, ord, f); fclose (f);
  if (i != 0) mc_fail ("ordering not saved");
  else {
    Num *lbl = g->vlbl; char *seen = calloc (n + 1, 1);
    f = fmemopen (buf, len, "r");
    if (fscanf (f, "%ld", &a) != 1 || a != n) mc_fail ("ordering file has wrong size");
    for (i = 0; i < n && ! mc_failed (); i ++) {
      if (fscanf (f, "%ld%ld", &b, &c) != 2) { mc_fail ("ordering file too short: %s", buf); break; }
      for (j = 0; j < n; j ++) if ((lbl ? lbl[j] : j + g->base) == b) break;
      if (j == n || seen[j]) { mc_fail ("ordering file has unknown or repeated label %ld: %s", b, buf); break; }
      seen[j] = 1;
      if (c != (lbl ? lbl[perm[j] - g->base] : perm[j])) { mc_fail ("ordering file says %ld for vertex %d, permutation %d: %s", c, j, (int) perm[j], buf); break; }
    }
    fclose (f); free (seen);
    if (! mc_failed () && ! g->vlbl) {                    /* loading labelled orderings is documented as unsupported by an error message */
      f = fmemopen (buf, len, "r");
      SCOTCH_graphOrderInit (gr, &o2, p2, q2, NULL, NULL, NULL);
      if (SCOTCH_graphOrderLoad (gr, &o2, f) != 0) mc_fail ("saved ordering cannot be loaded back");
      else if (memcmp (p2, perm, n * sizeof (Num)) || memcmp (q2, peri, n * sizeof (Num))) mc_fail ("ordering loaded back differs: saved perm %s, loaded %s", arr_str (perm, n), arr_str (p2, n));
      SCOTCH_graphOrderExit (gr, &o2);
      fclose (f);
    }
  }
  free (buf); buf = NULL;
  f = open_memstream (&buf, &len); i = SCOTCH_graphOrderSaveMap (gr, ord, f); fclose (f);
  if (i != 0) mc_fail ("ordering mapping not saved");
  else {
    f = fmemopen (buf, len, "r");
    if (fscanf (f, "%ld", &a) != 1 || a != n) mc_fail ("block mapping file has wrong size");
    for (i = 0; i < n; i ++) {
      if (fscanf (f, "%ld%ld", &b, &c) != 2) { mc_fail ("block mapping file too short"); break; }
      for (j = 0; j < n; j ++) if ((g->vlbl ? g->vlbl[j] : j + g->base) == b) break;
      if (j == n || c != blk[j]) { mc_fail ("block mapping file says %ld for label %ld, block is %d: %s", c, b, j < n ? blk[j] : -1, buf); break; }
    }
    fclose (f);
  }
  free (buf); buf = NULL;
  f = open_memstream (&buf, &len); i = SCOTCH_graphOrderSaveTree (gr, ord, f); fclose (f);
  if (i != 0) mc_fail ("separator tree not saved");
  else {
    f = fmemopen (buf, len, "r");
    if (fscanf (f, "%ld", &a) != 1 || a != n) mc_fail ("tree file has wrong size");
    for (i = 0; i < n; i ++) {                             /* each vertex: index of a vertex of its block's father, or -1 */
      if (fscanf (f, "%ld%ld", &b, &c) != 2) { mc_fail ("tree file too short"); break; }
      for (j = 0; j < n; j ++) if ((g->vlbl ? g->vlbl[j] : j + g->base) == b) break;
      if (j == n || c != (tree[blk[j]] == -1 ? -1 : tree[blk[j]])) { mc_fail ("tree file says father block %ld for label %ld, father is %d: %s", c, b, j < n ? (int) tree[blk[j]] : -9, buf); break; }
    }
    fclose (f);
  }
  free (buf); free (blk); free (p2); free (q2);
  mc_ops (4);
}

static void one (G *g, int k, int full) {
  SCOTCH_Graph gr; SCOTCH_Strat st; SCOTCH_Ordering ord; int n = g->n, i; u64 h;
  Num *perm = malloc ((n + 1) * sizeof (Num)), *peri = malloc ((n + 1) * sizeof (Num)), *rang = malloc ((n + 1) * sizeof (Num)), *tree = malloc ((n + 1) * sizeof (Num)), cblk = -1;
  Num *pm = malloc (n * sizeof (Num)), *pi = malloc (n * sizeof (Num)), *tr = malloc (n * sizeof (Num));
  for (i = 0; i < n; i ++) perm[i] = peri[i] = rang[i] = tree[i] = -99; rang[n] = -99;
  g_build (g, &gr);
  if (usestrat (&st, k) != 0) { mc_fail ("strategy refused"); goto out; }
  SCOTCH_randomReset ();
  if (SCOTCH_graphOrderInit (&gr, &ord, pm, pi, &cblk, rang, tr) != 0) { mc_fail ("ordering not initialized"); goto out; }
  if (SCOTCH_graphOrderCompute (&gr, &ord, &st) != 0) { mc_fail ("ordering not computed"); goto out2; }
  memcpy (perm, pm, n * sizeof (Num)); memcpy (peri, pi, n * sizeof (Num)); memcpy (tree, tr, n * sizeof (Num));
  mc_ops (2);
  if (SCOTCH_graphOrderCheck (&gr, &ord) != 0) mc_fail ("the library's own check refuses the ordering");
  valid (g, perm, peri, cblk, rang, tree, strstr (strats[k], "k{") == NULL && strstr (strats[k], "ose=n") == NULL && strstr (strats[k], "=b{strat") == NULL);   /* blocks of a k-way partition or of a split block are not separators; a dissected separator has no tree form */
  h = mc_hash (g->hash, perm, n * sizeof (Num)); h = mc_hash (h, rang, cblk * sizeof (Num)); mc_state (mc_hash (h, tree, cblk * sizeof (Num)));
  if (cblk > 1) mc_nontrivial ();
  if (mc_errnbr && ! mc_failed ()) mc_fail ("error message while the call succeeds");
  if (full && sel != 8 && ! mc_failed ()) {
    files (g, &gr, &ord, perm, peri, cblk, rang, tree);
    for (i = 0; i < 32 && ! mc_failed (); i ++) {          /* any subset of result arrays may be omitted */
      Num *p2 = malloc (n * sizeof (Num)), *q2 = malloc (n * sizeof (Num)), *r2 = malloc ((n + 1) * sizeof (Num)), *t2 = malloc (n * sizeof (Num)), c2 = -1;
      if (full == 1 && i != 0 && i != 1 && i != 2 && i != 27) { free (p2); free (q2); free (r2); free (t2); continue; }
      SCOTCH_randomReset ();
      if (SCOTCH_graphOrder (&gr, &st, i & 1 ? p2 : NULL, i & 2 ? q2 : NULL, i & 4 ? &c2 : NULL, i & 8 ? r2 : NULL, i & 16 ? t2 : NULL) != 0) mc_fail ("ordering with array subset %d failed", i);
      else if (((i & 1) && memcmp (p2, perm, n * sizeof (Num))) || ((i & 2) && memcmp (q2, peri, n * sizeof (Num))) || ((i & 4) && c2 != cblk) || ((i & 8) && memcmp (r2, rang, (cblk + 1) * sizeof (Num))) || ((i & 16) && memcmp (t2, tree, cblk * sizeof (Num))))
        mc_fail ("result differs when only arrays %d are requested", i);
      mc_ops (1);
      free (p2); free (q2); free (r2); free (t2);
    }
  }
out2:
  SCOTCH_graphOrderExit (&gr, &ord);
out:
  SCOTCH_stratExit (&st);
  SCOTCH_graphExit (&gr);
  if (! g_same (g)) mc_fail ("the caller's graph arrays were modified");
  free (perm); free (peri); free (rang); free (tree); free (pm); free (pi); free (tr);
}

static void listorder (G *g, int k, int mask, int rev) {
  SCOTCH_Graph gr; SCOTCH_Strat st; int n = g->n, i, l = 0, r; Num *list = malloc ((n + 1) * sizeof (Num)), perm[16], peri[16], rang[17], tree[16], cblk;
  for (i = 0; i < n; i ++) { int v = rev ? n - 1 - i : i; if ((mask >> v) & 1) list[l ++] = v + g->base; }
  g_build (g, &gr); usestrat (&st, k);
  SCOTCH_randomReset ();
  r = SCOTCH_graphOrderList (&gr, l, list, &st, perm, peri, &cblk, rang, tree);
  mc_ops (1);
  if (r != 0) mc_fail ("partial ordering of vertices %s failed", arr_str (list, l));
  else {
    valid (g, perm, peri, cblk, rang, tree, 0);
    for (i = 0; i < l && ! mc_failed (); i ++) if (perm[list[i] - g->base] - g->base >= l) mc_fail ("listed vertex %d of %s is not among the first %d: perm=%s", (int) list[i], arr_str (list, l), l, arr_str (perm, n));
    mc_state (mc_hash (mc_hashi (g->hash, mask), perm, n * sizeof (Num)));
  }
  if (! g_same (g)) mc_fail ("the caller's graph arrays were modified");
  SCOTCH_stratExit (&st); SCOTCH_graphExit (&gr); free (list);
}

void mc_run (void) {
  Shape s; G g; int n, k, b, i, lay; u64 m; sh_init (&s);
  sel = getenv ("MC_SET") ? atoi (getenv ("MC_SET")) : 0;
  for (n = 1; n <= 5; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (k = 0; k < SNBR; k ++) {
    if (mc_skip ()) continue;
    lay = (m * 7 + k) % LAY_NBR;
    sh_mask (&s, n, m); g_make (&g, &s, (m + k) & 1, lay, (m + k) % 3 == 2 && ! noweight (k) ? 1 : 0, (m + k) % 7 == 4, (k + m / 3) % 4 == 1 ? 1 : 0);
    if (mc_case ("order %s strat=%s", g.desc, strats[k])) one (&g, k, (n <= 3) ? 2 : (m % 11 == (u64) (k % 11)) ? 1 : 0);
    g_exit (&g);
  }
  for (n = 6; n <= 7; n ++) for (i = 0; sh_atlas (&s, n, i); i ++) for (k = 0; k < SNBR; k ++) for (b = 0; b < (mc_thorough ? 4 : 1); b ++) {
    if (mc_skip ()) continue;
    g_make (&g, &s, (i + b) & 1, (i + k + b) % LAY_NBR, noweight (k) ? 0 : vkind[(i / 2 + b) % 3], (i + k) % 4 == 3 ? 2 : 0, (i + k) % 5 == 0 ? 2 : 0);
    if (mc_case ("order %s strat=%s", g.desc, strats[k])) one (&g, k, 0);
    g_exit (&g);
  }
  if (mc_thorough) for (m = 0; m < (1 << 15); m ++) for (k = 0; k < SNBR; k ++) {
    if (mc_skip ()) continue;
    sh_mask (&s, 6, m); g_make (&g, &s, (m + k) & 1, (m + k) % LAY_NBR, m % 3 == 2 && ! noweight (k), (m + k) % 5 == 1, 0);
    if (mc_case ("order %s strat=%s", g.desc, strats[k])) one (&g, k, 0);
    g_exit (&g);
  }
  for (b = 0; b < 3; b ++) for (i = 0; sh_family (&s, i, b); i ++) for (k = 0; k < SNBR; k ++) for (lay = 0; lay < (b == 2 && ! mc_thorough ? 1 : 2); lay ++) {
    if (mc_skip ()) continue;
    g_make (&g, &s, (i + lay) & 1, (lay ? LAY_GAPS : LAY_COMPACT), lay && ! noweight (k) ? vkind[(i & 1) + 1] : 0, (i + k) % 3 == 1, (lay && (i & 2)) ? 2 : 0);
    if (mc_case ("order %s strat=%s", g.desc, strats[k])) one (&g, k, (b < 2 && k % 9 == i % 9) ? 1 : 0);
    g_exit (&g);
  }
  for (b = 0; b < 3; b ++) for (i = 0; sh_family (&s, i, b); i ++) for (k = 0; k < 64; k ++) {     /* predefined strategies */
    static const Num fl[] = { 0, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATDISCONNECTED, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN | SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE, SCOTCH_STRATLEAFSIMPLE | SCOTCH_STRATSEPASIMPLE | SCOTCH_STRATLEVELMIN | SCOTCH_STRATLEVELMAX, SCOTCH_STRATDISCONNECTED | SCOTCH_STRATLEVELMIN | SCOTCH_STRATSPEED };
    int f = k & 15, lv = (k >> 4) & 3; SCOTCH_Graph gr; SCOTCH_Strat st; Num *perm, *peri, *rang, *tree, cblk;
    if (f >= (int) (sizeof (fl) / sizeof (fl[0]))) continue;
    if (mc_skip ()) continue;
    g_make (&g, &s, i & 1, i & 3, (i >> 1) & 1, 0, 0);
    if (mc_case ("order %s predefined flags=%#lx levels=%d", g.desc, (long) fl[f], lv)) {
      perm = malloc (g.n * sizeof (Num)); peri = malloc (g.n * sizeof (Num)); rang = malloc ((g.n + 1) * sizeof (Num)); tree = malloc (g.n * sizeof (Num));
      g_build (&g, &gr); SCOTCH_stratInit (&st); SCOTCH_randomReset ();
      if (SCOTCH_stratGraphOrderBuild (&st, fl[f], lv, 0.2) != 0) mc_fail ("predefined strategy not built");
      else if (SCOTCH_graphOrder (&gr, &st, perm, peri, &cblk, rang, tree) != 0) mc_fail ("ordering failed");
      else {
        valid (&g, perm, peri, cblk, rang, tree, 1); if (cblk > 1) mc_nontrivial (); mc_ops (1); if (! mc_failed ()) mc_state (mc_hash (mc_hash (g.hash, perm, g.n * sizeof (Num)), rang, cblk * sizeof (Num)));
        if ((fl[f] & SCOTCH_STRATDISCONNECTED) && ! mc_failed ()) { int *comp = malloc (g.n * sizeof (int)); int c = g_comp (&g, NULL, comp), j, nb = 0; for (j = 1; j < g.n; j ++) if (comp[peri[j] - g.base] != comp[peri[j - 1] - g.base]) nb ++; if (nb != c - 1) mc_fail ("connected components are interleaved in the ordering"); free (comp); }
      }
      if (! g_same (&g)) mc_fail ("the caller's graph arrays were modified");
      SCOTCH_stratExit (&st); SCOTCH_graphExit (&gr); free (perm); free (peri); free (rang); free (tree);
    }
    g_exit (&g);
  }
  if (sel != 8) for (n = 1; n <= (mc_thorough ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (k = 0; k < SNBR; k ++) for (i = 0; i < (1 << n); i ++) {
    if (mc_skip ()) continue;
    sh_mask (&s, n, m); g_make (&g, &s, (i + k) & 1, (m + k) % LAY_NBR, i % 3 == 0 && ! noweight (k), (m + k) % 4 == 1, 0);
    if (mc_case ("partial ordering %s strat=%s vertices=%x", g.desc, strats[k], i)) { mc_nontrivial (); listorder (&g, k, i, (m ^ k) & 1); }
    g_exit (&g);
  }
  sh_exit (&s);
}
