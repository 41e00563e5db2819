/* Distributed orderings (32): every strategy on every distribution gives one permutation, a sound separator tree, and files that agree. */
#include "dcommon.h"
static const char *strats[] = {
  "s", "q{strat=s}", "q{strat=n{sep=h{pass=2},ole=s,ose=s}}", "q{strat=c{rat=0.7,cpr=n{sep=h{pass=2}f,ole=f{cmin=0,cmax=100,frat=0},ose=g},unc=n{sep=h{pass=2}f,ole=d{cmin=0,cmax=100,frat=0},ose=s}}}",
  "n{sep=q{strat=h{pass=3}},ole=s,ose=s,osq=s}", "n{sep=z,ole=q{strat=g{pass=1}},ose=s,osq=g{pass=1}}", "n{sep=q{strat=h{pass=3}f},ole=q{strat=s},ose=q{strat=g},osq=n{sep=h{pass=3},ole=s,ose=s}}",
  "n{sep=m{vert=2,dvert=100,fold=d,low=q{strat=h{pass=3}},asc=b{width=1,strat=q{strat=f}},seq=q{strat=h{pass=2}f}},ole=s,ose=s,osq=f{cmin=0,cmax=100,frat=0}}",
  "n{sep=m{vert=2,dvert=100,fold=f,rat=1,low=q{strat=h{pass=3}},asc=q{strat=f},seq=q{strat=m{vert=2,low=h{pass=2},asc=f}}},ole=q{strat=f{cmin=0,cmax=100,frat=0}},ose=n{sep=q{strat=h},ole=s,ose=s,osq=g},osq=n{sep=h{pass=2}f,ole=g,ose=g}}",
  "n{sep=m{vert=3,dvert=2,fold=n,rat=0.8,low=q{strat=g{pass=3}},asc=b{width=2,strat=q{strat=f}|z},seq=q{strat=h}},ole=s,ose=s,osq=s}",
  "n{sep=q{strat=h{pass=1}}|q{strat=g{pass=2}f}|z,ole=s,ose=s,osq=g}", "n{sep=q{strat=h{pass=2}}b{width=1,strat=q{strat=f}},ole=s,ose=s,osq=s}",
  "n{sep=/(levl<1)?q{strat=h{pass=2}};,ole=q{strat=n{sep=h{pass=2},ole=s,ose=s}},ose=s,osq=/(levl<3)?n{sep=h{pass=2},ole=s,ose=s}:g;}",
  "n{sep=/((vert>2)&(edge<40))?(q{strat=h{pass=2}}):z;,ole=/(proc>2)?s:q{strat=g};,ose=/(vert>1)&(mdeg>0)?q{strat=g}:s;,osq=n{sep=h,ole=s,ose=s}}",
  "/(vert>3)?n{sep=q{strat=h{pass=2}},ole=s,ose=s,osq=s}:q{strat=g};", "/(proc=2)|(load>5)?q{strat=n{sep=h,ole=s,ose=g}}:n{sep=m{vert=2,dvert=100,fold=d,low=q{strat=h{pass=2}},asc=b{width=1,strat=q{strat=f}},seq=q{strat=h}},ole=s,ose=s,osq=s};",
  "n{sep=m{vert=4,asc=b{width=3,strat=q{strat=f}},low=q{strat=h},seq=q{strat=m{vert=5,low=h{pass=10},asc=b{width=3,bnd=f{bal=0.2},org=h{pass=10}f{bal=0.2}}}}},ole=q{strat=n{sep=/(vert>6)?m{vert=4,low=h{pass=10},asc=b{width=3,bnd=f{bal=0.2},org=h{pass=10}f{bal=0.2}}};,ole=f{cmin=15,cmax=100000,frat=0.0},ose=g}},ose=s,osq=n{sep=/(vert>6)?m{vert=4,low=h{pass=10},asc=b{width=3,bnd=f{bal=0.2},org=h{pass=10}f{bal=0.2}}};,ole=f{cmin=15,cmax=100000,frat=0.0},ose=g}}",
  "n{sep=q{strat=h{pass=3}}b{width=1,strat=d{pass=5,dif=1,rem=0}},ole=s,ose=s,osq=s}",
};
#define SNBR ((int) (sizeof (strats) / sizeof (strats[0])))
#define PREDEF 6
static const Num flags[PREDEF] = { -1, 0, SCOTCH_STRATQUALITY | SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN | SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSPEED | SCOTCH_STRATSEPASIMPLE, SCOTCH_STRATLEVELMIN | SCOTCH_STRATLEVELMAX };
typedef struct { D *d; int k; } A;
static int RET[DMAXP]; static Num CB[DMAXP], PERM[600], TREE[600], SIZE[600]; static int NB;
static Num pg[600], ig[600], rg[601], tg[600], cg;

static void agree (int r, int np, int want, const char *what) {
  int p; sync_ ();
  if (r == 0) for (p = 0; p < np; p ++) { if (want == 1 && RET[p] != 0) F ("%s: failed on process %d", what, p); if (want == 0 && RET[p] == 0) F ("%s: success on process %d", what, p); }
  sync_ ();
}
static void blocks (D *d, int *blk, int tree) {                    /* soundness of the gathered ordering; same rules as for centralised orderings */
  int n = d->g->n, i, j, k, x; Num b = d->g->base; char seen[600];
  memset (seen, 0, sizeof (seen));
  for (i = 0; i < n; i ++) { Num p = pg[i] - b; if (p < 0 || p >= n || seen[p]) F ("gathered permutation is not one: %s", arr_str (pg, n)); seen[p] = 1; }
  for (i = 0; i < n; i ++) if (ig[pg[i] - b] != i + b) F ("gathered inverse permutation %s does not match %s", arr_str (ig, n), arr_str (pg, n));
  for (i = 0; i < n; i ++) if (pg[i] != PERM[i]) F ("gathered permutation %s is not the distributed one %s", arr_str (pg, n), arr_str (PERM, n));
  if (cg < (n > 0) || cg > n) F ("%ld gathered column blocks for %d vertices", (long) cg, n);
  if (rg[0] != b || rg[cg] != n + b) F ("gathered ranges %s do not span the vertices", arr_str (rg, cg + 1));
  for (i = 0; i < cg; i ++) { if (rg[i + 1] <= rg[i]) F ("empty or decreasing gathered range %s", arr_str (rg, cg + 1)); if (tg[i] != -1 && (tg[i] - b <= i || tg[i] - b >= cg)) F ("gathered block %d has father %ld (%ld blocks)", i, (long) tg[i], (long) cg); }
  for (i = 0; i < cg; i ++) for (j = rg[i] - b; j < rg[i + 1] - b; j ++) blk[ig[j] - b] = i;
  if (tree) for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (g_adj (d->g, i, j) && blk[i] != blk[j]) {   /* a dissected separator has no tree form */
    k = blk[i] < blk[j] ? blk[j] : blk[i]; x = blk[i] + blk[j] - k;
    while (x != -1 && x != k) x = tg[x] == -1 ? -1 : tg[x] - b;
    if (x != k) F ("adjacent vertices %d and %d lie in blocks %d and %d, none of which is an ancestor of the other: perm=%s rang=%s tree=%s", j, i, blk[j], blk[i], arr_str (pg, n), arr_str (rg, cg + 1), arr_str (tg, cg));
  }
}
static Num beg_[600]; static int sons[600][3], sonn[600], leaf[600];
static void walk (int i, Num at, Num b) { int k; beg_[i] = at; for (k = 0; k < sonn[i]; k ++) { walk (sons[i][k], at, b); at += SIZE[sons[i][k]]; } if (sonn[i] == 0) for (k = 0; k < SIZE[i]; k ++) leaf[at + k] = i; }
static void disttree (D *d) {                            /* soundness of the distributed tree */
  int n = d->g->n, i, j, k, root = -1; Num b = d->g->base, s;
  for (i = 0; i < NB; i ++) sonn[i] = 0;
  for (i = 0; i < NB; i ++) {
    if (TREE[i] == -1) { if (root >= 0) F ("distributed tree has several roots: %s", arr_str (TREE, NB)); root = i; continue; }
    if (TREE[i] - b < 0 || TREE[i] - b >= NB || TREE[i] - b == i) F ("distributed tree has bad father indices: %s (%d)", arr_str (TREE, NB), NB);
    if (sonn[TREE[i] - b] == 3) F ("node with more than three sons in distributed tree: %s", arr_str (TREE, NB));
    sons[TREE[i] - b][sonn[TREE[i] - b] ++] = i;
  }
  if (NB == 0) { if (n > 0) F ("no distributed tree"); return; }
  if (root < 0) F ("distributed tree has no root: %s", arr_str (TREE, NB));
  for (i = 0; i < NB; i ++) { for (j = i, k = 0; j != root && k <= NB; k ++) j = TREE[j] - b; if (j != root) F ("cycle in distributed tree: %s", arr_str (TREE, NB)); }
  if (SIZE[root] != n) F ("root of distributed tree has size %ld instead of %d", (long) SIZE[root], n);
  for (i = 0; i < NB; i ++) {
    for (k = 0, s = 0; k < sonn[i]; k ++) s += SIZE[sons[i][k]];
    if (sonn[i] == 1) F ("node with one son in distributed tree: %s", arr_str (TREE, NB));
    if (sonn[i] && s != SIZE[i]) F ("distributed tree node %d: sizes do not add up: %s %s", i, arr_str (TREE, NB), arr_str (SIZE, NB));
    if (SIZE[i] < (n > 0)) F ("distributed tree node %d is empty: %s", i, arr_str (SIZE, NB));
  }
  walk (root, 0, b);
  for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (g_adj (d->g, i, j)) {
    int x = leaf[PERM[i] - b], y = leaf[PERM[j] - b], anc[600], na, u, v; if (x == y) continue;
    for (na = 0, u = x; ; u = TREE[u] - b) { anc[na ++] = u; if (u == root) break; }
    for (v = y, u = y; ; u = v, v = TREE[v] - b) { for (k = 0; k < na && anc[k] != v; k ++) ; if (k < na) break; }
    if (sonn[v] == 3 && (sons[v][2] == u || (k > 0 && sons[v][2] == anc[k - 1]))) continue;
    F ("adjacent vertices %d and %d lie on both sides of a node of the distributed tree: perm=%s tree=%s size=%s", j, i, arr_str (PERM, n), arr_str (TREE, NB), arr_str (SIZE, NB));
  }
}
static Num tok (char **p, const char *what) { char *q; Num v = strtol (*p, &q, 10); if (q == *p) F ("%s file ends too soon", what); *p = q; return v; }
static Num lbl_ (D *d, int i) { return d->g->vlbl ? d->g->vlbl[i] : i + d->g->base; }
static void filecheck (D *d, char *buf, int kind, const int *blk) {
  static const char *nm[] = { "ordering", "block mapping", "separator tree" }; char *p = buf, seen[600]; int i, j, n = d->g->n; Num v, w, e;
  memset (seen, 0, sizeof (seen));
  if (tok (&p, nm[kind]) != n) F ("%s file has wrong size: %s", nm[kind], buf);
  for (i = 0; i < n; i ++) {
    v = tok (&p, nm[kind]); w = tok (&p, nm[kind]);
    for (j = 0; j < n && lbl_ (d, j) != v; j ++) ;
    if (j >= n || seen[j]) F ("%s file has unknown or repeated label %ld: %s", nm[kind], (long) v, buf);
    seen[j] = 1;
    e = kind == 0 ? lbl_ (d, PERM[j] - d->g->base) : kind == 1 ? blk[j] : tg[blk[j]];
    if (w != e) F ("%s file says %ld for vertex %d instead of %ld: %s", nm[kind], (long) w, j, (long) e, buf);
  }
  while (*p == ' ' || *p == '\n' || *p == '\t') p ++;
  if (*p) F ("%s file is too long: %s", nm[kind], buf);
}
static int blk_[600];
static void r_ord (int r, void *a_) {
  A *a = a_; D *d = a->d; int np = d->np, n = d->g->n, i, k, root, q, z = a->k; SCOTCH_Dgraph g; SCOTCH_Dordering o; SCOTCH_Strat st; SCOTCH_Ordering co; Num *loc; char *buf; size_t len; FILE *f; Num t1[600], s1[600];
  SCOTCH_randomReset ();
  if (SCOTCH_dgraphInit (&g, MPI_COMM_WORLD) != 0) F ("dgraphInit failed");
  if (d_build (d, r, &g) != 0) F ("process %d: valid graph not built", r);
  SCOTCH_stratInit (&st);
  if (z < PREDEF) { if (z > 0 && SCOTCH_stratDgraphOrderBuild (&st, flags[z], np, z - 1, 0.2) != 0) F ("predefined strategy %d refused", z); }
  else if (SCOTCH_stratDgraphOrder (&st, strats[z - PREDEF]) != 0) F ("strategy refused: %s", strats[z - PREDEF]);
  if (SCOTCH_dgraphOrderInit (&g, &o) != 0) F ("ordering not initialised");
  for (q = 0; q < (n <= 8 ? 2 : 1); q ++) {               /* an ordering object can be computed again */
    RET[r] = SCOTCH_dgraphOrderCompute (&g, &o, &st); agree (r, np, 1, "ordering");
    CB[r] = SCOTCH_dgraphOrderCblkDist (&g, &o); sync_ ();
    if (CB[r] != CB[0] || CB[r] < 0 || CB[r] > 590) F ("distributed block numbers are %ld on process 0 and %ld on process %d", (long) CB[0], (long) CB[r], r);
    for (i = 0; i < CB[r]; i ++) t1[i] = s1[i] = -77;
    RET[r] = SCOTCH_dgraphOrderTreeDist (&g, &o, t1, s1); agree (r, np, 1, "distributed tree");
    if (r == 0) { NB = CB[0]; memcpy (TREE, t1, NB * sizeof (Num)); memcpy (SIZE, s1, NB * sizeof (Num)); }
    sync_ ();
    for (i = 0; i < NB; i ++) if (TREE[i] != t1[i] || SIZE[i] != s1[i]) F ("distributed trees differ on processes 0 and %d: %s and %s", r, arr_str (TREE, NB), arr_str (t1, NB));
    loc = malloc ((d->cnt[r] + 1) * sizeof (Num)); for (i = 0; i <= d->cnt[r]; i ++) loc[i] = -99;
    RET[r] = SCOTCH_dgraphOrderPerm (&g, &o, loc); agree (r, np, 1, "permutation");
    if (loc[d->cnt[r]] != -99) F ("permutation overflow");
    for (i = 0; i < d->cnt[r]; i ++) PERM[d->off[r] + i] = loc[i];
    free (loc); sync_ ();
    if (r == 0) {
      char seen[600]; memset (seen, 0, sizeof (seen));
      for (i = 0; i < n; i ++) { Num p = PERM[i] - d->g->base; if (p < 0 || p >= n || seen[p]) F ("distributed permutation is not one: %s", arr_str (PERM, n)); seen[p] = 1; }
      disttree (d); mc_ops (3); mc_state (mc_hash (mc_hash (d->np, TREE, NB * sizeof (Num)), PERM, n * sizeof (Num)));
    }
    sync_ ();
    for (k = 0; k < np; k ++) {                           /* centralised ordering on every process in turn */
      if (k > 0 && n > 3 && k != (z + n) % np) continue;
      if (r == k) {
        Num *pm = malloc (n * sizeof (Num)), *pi = malloc (n * sizeof (Num)), *ra = malloc ((n + 1) * sizeof (Num)), *tr = malloc (n * sizeof (Num)); int full = k == 0 || (z & 1);
        if (SCOTCH_dgraphCorderInit (&g, &co, pm, pi, &cg, ra, tr) != 0) F ("centralised ordering not initialised");
        RET[r] = SCOTCH_dgraphOrderGather (&g, &o, &co);
        if (RET[r] == 0) { memcpy (pg, pm, n * sizeof (Num)); memcpy (ig, pi, n * sizeof (Num)); if (cg <= n && cg >= 0) { memcpy (rg, ra, (cg + 1) * sizeof (Num)); memcpy (tg, tr, cg * sizeof (Num)); } blocks (d, blk_, z < PREDEF || strstr (strats[z - PREDEF], "ose=n") == NULL); }
        SCOTCH_dgraphCorderExit (&g, &co); (void) full;
        free (pm); free (pi); free (ra); free (tr);
      }
      else RET[r] = SCOTCH_dgraphOrderGather (&g, &o, NULL);
      agree (r, np, 1, "gathering");
    }
    if (r == z % np) {                                    /* any output array may be missing */
      Num *pm = malloc (n * sizeof (Num)); int w = (n + z) % 3;
      if (SCOTCH_dgraphCorderInit (&g, &co, w == 0 ? pm : NULL, w == 1 ? pm : NULL, NULL, NULL, w == 2 ? pm : NULL) != 0) F ("centralised ordering not initialised");
      RET[r] = SCOTCH_dgraphOrderGather (&g, &o, &co);
      if (RET[r] == 0 && n > 0 && memcmp (pm, w == 0 ? pg : w == 1 ? ig : tg, (w == 2 ? cg : n) * sizeof (Num))) F ("gathering into a single array gives another result");
      SCOTCH_dgraphCorderExit (&g, &co); free (pm);
    }
    else RET[r] = SCOTCH_dgraphOrderGather (&g, &o, NULL);
    agree (r, np, 1, "partial gathering");
    for (k = 0; k < 3; k ++) {                            /* files, from some process */
      root = (z + k + np - 1) % np; f = r == root ? open_memstream (&buf, &len) : NULL;
      RET[r] = k == 0 ? SCOTCH_dgraphOrderSave (&g, &o, f) : k == 1 ? SCOTCH_dgraphOrderSaveMap (&g, &o, f) : SCOTCH_dgraphOrderSaveTree (&g, &o, f);
      if (f) fclose (f);
      agree (r, np, 1, "saving");
      if (f) { filecheck (d, buf, k, blk_); free (buf); }
    }
    sync_ ();
  }
  if (np > 1 && n <= 3) {                                 /* requests that must be refused: two roots, none, wrong kind of strategy */
    for (k = 0; k < 2; k ++) {
      f = (k == 0 && r < 2) ? open_memstream (&buf, &len) : NULL;
      for (i = 0; i < 3; i ++) { RET[r] = i == 0 ? SCOTCH_dgraphOrderSave (&g, &o, f) : i == 1 ? SCOTCH_dgraphOrderSaveMap (&g, &o, f) : SCOTCH_dgraphOrderSaveTree (&g, &o, f); agree (r, np, 0, "saving by several processes or none"); }
      if (f) { fclose (f); free (buf); }
      if (k == 0 && r < 2) SCOTCH_dgraphCorderInit (&g, &co, NULL, NULL, NULL, NULL, NULL);
      RET[r] = SCOTCH_dgraphOrderGather (&g, &o, k == 0 && r < 2 ? &co : NULL); agree (r, np, 0, "gathering by several processes or none");
      if (k == 0 && r < 2) SCOTCH_dgraphCorderExit (&g, &co);
    }
    SCOTCH_stratExit (&st); SCOTCH_stratInit (&st);
    if (SCOTCH_stratGraphOrder (&st, "s") != 0) F ("strategy refused");
    RET[r] = SCOTCH_dgraphOrderCompute (&g, &o, &st); agree (r, np, 0, "ordering with a sequential strategy");
  }
  SCOTCH_dgraphOrderExit (&g, &o); SCOTCH_stratExit (&st);
  SCOTCH_dgraphExit (&g);
}
static void after (void *a_) { A *a = a_; if (! g_same (a->d->g)) mc_fail ("arrays of the caller were changed"); if (! mc_failed () && pm_leaks ()) mc_fail ("%d communication objects are never freed", pm_leaks ()); }
static void one (D *d, int k, int z) { A a; memset (&a, 0, sizeof (a)); a.d = d; a.k = k; explore (d->np, modes[z & 3], r_ord, after, &a); }
void mc_run (void) {
  Shape s; G g; D d; int n, np, k, x, z, q, st, nm = PREDEF + SNBR; u64 m; int cnt[DMAXP];
  int thr = getenv ("MC_SET") != NULL;
  sh_init (&s); dbound[0] = 1; dmaxruns[0] = mc_thorough ? 60 : thr ? 8 : 14; dmaxruns[1] = 400;
  for (n = 1; n <= (mc_thorough ? 5 : 4); n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) for (np = 1; np <= (mc_thorough ? 4 : 3); np ++) for (k = 0; d_split (n, np, k, cnt); k ++)
    for (x = 0; x < (mc_thorough ? nm : n <= 2 ? nm : n == 3 ? (thr ? 4 : 8) : thr ? 0 : 2); x ++) {
      z = (int) (m * 7 + k * 3 + np + x * 5); st = (int) (m * 5 + k * 11 + np * 3 + x * 7) % nm; 
      if (! mc_case ("n=%d mask=%llu np=%d split=%d strat=%d", n, (unsigned long long) m, np, k, st)) continue;
      sh_mask (&s, n, m); g_make (&g, &s, z & 1, 0, z % 5 == 2 ? 1 : z % 5, (z / 2) % 4, (z / 3 + x) % 3);
      d_make (&d, &g, np, cnt, (z / 4) % 3 ? 0 : (z / 5) & 15, (z / 3) % 3, (z / 7) & 1);
      one (&d, st, z); if (g.m > 0 && np > 1) mc_nontrivial ();
      d_exit (&d); g_exit (&g);
    }
  for (q = 0; sh_family (&s, q, mc_thorough ? 1 : 0); q ++) for (np = 2; np <= 8; np ++) for (st = 0; st < nm; st ++) {
    if (s.n > 150 || s.n <= 5 || (! mc_thorough && (st + np * 3 + q) % (thr ? 5 : 3))) continue;
    if (! mc_case ("family=%d (%s) np=%d strat=%d", q, s.name, np, st)) continue;
    z = q + np + st * 3; g_make (&g, &s, z & 1, 0, z % 5 == 2 ? 1 : z % 5, (z / 2) % 4, z % 4 == 2);
    x = z % 3; if (x == 0) d_even (s.n, np, cnt); else { int left = s.n, p; for (p = 0; p < np - 1; p ++) { cnt[p] = (x & 1) ? left / 3 : (p & 1) ? left / 2 : 0; left -= cnt[p]; } cnt[np - 1] = left; }
    d_make (&d, &g, np, cnt, x == 1 ? 5 : 0, g.vlbl ? 0 : x % 3, z & 1);
    if (! mc_thorough) dmaxruns[0] = 3;
    one (&d, st, z + thr); mc_nontrivial ();
    d_exit (&d); g_exit (&g);
  }
  sh_exit (&s);
}
