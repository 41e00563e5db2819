/* Random states and contexts: every history, up to a depth, of random, context and computation operations. The state of a generator is identified by the history of what was done to it since it was seeded;
   all results ever obtained from one such state, in whatever surroundings, must be the same. Set 1: histories; set 2: every pair of computations, in every surrounding. */
#include "gspace.h"

static u64 digest; static void dg (const void *p, size_t n) { digest = mc_hash (digest, p, n); }

/* ---- computations: run on graph gr / mesh (bound or not); result goes to digest */
static G gA, gB, gC; static M mA; static SCOTCH_Graph GA, GB, GC; static SCOTCH_Mesh MA;
static SCOTCH_Context *cctx;                                         /* context to bind to, or NULL */
static SCOTCH_Graph bgr; static SCOTCH_Mesh bme;
static SCOTCH_Graph *bg (SCOTCH_Graph *g) { if (cctx == NULL) return g; if (SCOTCH_contextBindGraph (cctx, g, &bgr) != 0) mc_fail ("graph not bound"); return &bgr; }
static SCOTCH_Mesh *bm (SCOTCH_Mesh *m) { if (cctx == NULL) return m; if (SCOTCH_contextBindMesh (cctx, m, &bme) != 0) mc_fail ("mesh not bound"); return &bme; }
static void ug (SCOTCH_Graph *g) { if (cctx != NULL && g == &bgr) SCOTCH_graphExit (g); }
static void um (SCOTCH_Mesh *m) { if (cctx != NULL && m == &bme) SCOTCH_meshExit (m); }
static Num part[400], perm[400], peri[400], rang[401], tree[400], vmlo[400];
static int partc (G *q, SCOTCH_Graph *g0, int k, int kind, const char *str, double bal) {
  SCOTCH_Strat st; SCOTCH_Graph *g = bg (g0); int i, r; double e = 1; SCOTCH_Arch ar;
  SCOTCH_stratInit (&st); if (str != NULL) { if ((kind == 2 ? SCOTCH_stratGraphPartOvl : SCOTCH_stratGraphMap) (&st, str) != 0) mc_fail ("strategy refused"); } else if (bal >= 0 && kind != 2) SCOTCH_stratGraphMapBuild (&st, SCOTCH_STRATQUALITY, k, bal);
  for (i = 0; i < q->n; i ++) { part[i] = (kind == 3) ? ((i % 3) ? i % k : -1) : -1; vmlo[i] = 1 + i % 2; }
  SCOTCH_archInit (&ar);
  switch (kind) {
    case 0: r = SCOTCH_graphPart (g, k, &st, part); break;
    case 1: SCOTCH_archTorus2 (&ar, 2, (k + 1) / 2); r = SCOTCH_graphMap (g, &ar, &st, part); break;
    case 2: r = SCOTCH_graphPartOvl (g, k, &st, part); break;
    case 3: r = SCOTCH_graphPartFixed (g, k, &st, part); break;
    case 4: { Num po[400]; for (i = 0; i < q->n; i ++) po[i] = (i / 3) % k; r = SCOTCH_graphRepart (g, k, po, e, vmlo, &st, part); break; }
    case 5: SCOTCH_archCmpltw (&ar, 3, (Num[]) { 2, 1, 3 }); r = SCOTCH_graphMap (g, &ar, &st, part); break;
    case 6: r = SCOTCH_archBuild (&ar, g, 0, NULL, &st); if (r == 0) { char *b = NULL; size_t l; FILE *f = open_memstream (&b, &l); SCOTCH_archSave (&ar, f); fclose (f); dg (b, l); free (b); } break;
    default: r = 1;
  }
  SCOTCH_archExit (&ar); SCOTCH_stratExit (&st); ug (g);
  dg (&r, sizeof (r)); dg (part, q->n * sizeof (Num));
  return r;
}
static int ordc (G *q, SCOTCH_Graph *g0, const char *str, int flags) {
  SCOTCH_Strat st; SCOTCH_Graph *g = bg (g0); Num c; int r;
  SCOTCH_stratInit (&st); if (str != NULL) { if (SCOTCH_stratGraphOrder (&st, str) != 0) mc_fail ("strategy refused"); } else if (flags) SCOTCH_stratGraphOrderBuild (&st, flags, 0, 0.1);
  r = SCOTCH_graphOrder (g, &st, perm, peri, &c, rang, tree); SCOTCH_stratExit (&st); ug (g);
  dg (&r, sizeof (r)); if (r == 0) { dg (perm, q->n * sizeof (Num)); dg (&c, sizeof (c)); dg (rang, (c + 1) * sizeof (Num)); dg (tree, c * sizeof (Num)); }
  return r;
}
static int mordc (void) {
  SCOTCH_Strat st; SCOTCH_Mesh *m = bm (&MA); Num c; int r;
  SCOTCH_stratInit (&st); r = SCOTCH_meshOrder (m, &st, perm, peri, &c, rang, tree); SCOTCH_stratExit (&st); um (m);
  dg (&r, sizeof (r)); if (r == 0) { dg (perm, mA.nn * sizeof (Num)); dg (&c, sizeof (c)); dg (tree, c * sizeof (Num)); }
  return r;
}
static int colorc (void) { SCOTCH_Graph *g = bg (&GB); Num c = 0; int r = SCOTCH_graphColor (g, part, &c, 0); ug (g); dg (&r, sizeof (r)); dg (part, gB.n * sizeof (Num)); dg (&c, sizeof (c)); return r; }
static int coarsc (void) { SCOTCH_Graph *g = bg (&GB), c; Num *mt = malloc (2 * gB.n * sizeof (Num)); int r; GV v; char e[200]; SCOTCH_graphInit (&c); r = SCOTCH_graphCoarsen (g, 1, 0.8, 0, &c, mt); dg (&r, sizeof (r)); if (r == 0) { gv_read (&v, &c, e, sizeof (e)); u64 h = gv_hash (&v); dg (&h, sizeof (h)); dg (mt, 2 * v.n * sizeof (Num)); gv_exit (&v); } free (mt); SCOTCH_graphExit (&c); ug (g); return r > 1; }
static int matchc (void) { SCOTCH_Graph *g = bg (&GB); Num c = 0, *mt = malloc (2 * gB.n * sizeof (Num)); int r; memset (mt, 0, 2 * gB.n * sizeof (Num)); r = SCOTCH_graphCoarsenMatch (g, &c, 0.8, 0, mt); dg (&r, sizeof (r)); dg (&c, sizeof (c)); dg (mt, gB.n * sizeof (Num)); free (mt); ug (g); return r > 1; }
static int badc (void) { SCOTCH_Strat st; SCOTCH_stratInit (&st); int r = SCOTCH_stratGraphMap (&st, "m{vert=,"); dg (&r, sizeof (r)); SCOTCH_stratExit (&st); return 0; }
static int diamc (void) { SCOTCH_Graph *g = bg (&GB); Num d = SCOTCH_graphDiamPV (g); ug (g); dg (&d, sizeof (d)); return 0; }
static int indc (void) { SCOTCH_Graph *g = bg (&GB), o; Num l[20], i; GV v; char e[200]; u64 h; for (i = 0; i < 10; i ++) l[i] = gB.base + 2 * i; SCOTCH_graphInit (&o); i = SCOTCH_graphInduceList (g, 10, l, &o); gv_read (&v, &o, e, sizeof (e)); h = gv_hash (&v); dg (&h, sizeof (h)); gv_exit (&v); SCOTCH_graphExit (&o); ug (g); return i; }
static int strc (void) { SCOTCH_Strat st; char *b = NULL; size_t l; FILE *f; SCOTCH_stratInit (&st); SCOTCH_stratGraphMapBuild (&st, SCOTCH_STRATBALANCE, 4, 0.05); f = open_memstream (&b, &l); SCOTCH_stratSave (&st, f); fclose (f); dg (b, l); free (b); SCOTCH_stratExit (&st); return 0; }

#define NC 25
static const char *cnm[NC] = { "partition 2", "partition 5", "mapping on a torus", "overlap partition", "fixed partition", "repartition", "mapping on a weighted target", "decomposition target", "ordering", "ordering with leaves", "simple ordering", "mesh ordering", "colouring", "coarsening", "matching", "syntax error", "diameter", "induced graph", "strategy", "large partition", "large ordering", "multilevel overlap", "k-way refined mapping", "recursive with exact balance", "balanced partition" };
static const char lib[] = "partition";
static int compute (int k) {
  int r; (void) lib;
  digest = 77 + k;
  switch (k) {
    case 0: r = partc (&gA, &GA, 2, 0, NULL, -1); break;
    case 1: r = partc (&gA, &GA, 5, 0, NULL, -1); break;
    case 2: r = partc (&gA, &GA, 4, 1, NULL, 0.1); break;
    case 3: r = partc (&gA, &GA, 4, 2, NULL, -1); break;
    case 4: r = partc (&gA, &GA, 4, 3, NULL, -1); break;
    case 5: r = partc (&gA, &GA, 4, 4, NULL, -1); break;
    case 6: r = partc (&gA, &GA, 3, 5, NULL, 0.2); break;
    case 7: r = partc (&gB, &GB, 2, 6, NULL, -1); break;
    case 8: r = ordc (&gA, &GA, NULL, 0); break;
    case 9: r = ordc (&gA, &GA, NULL, SCOTCH_STRATLEAFSIMPLE | SCOTCH_STRATQUALITY); break;
    case 10: r = ordc (&gB, &GB, "s", 0); break;
    case 11: r = mordc (); break;
    case 12: r = colorc (); break;
    case 13: r = coarsc (); break;
    case 14: r = matchc (); break;
    case 15: r = badc (); break;
    case 16: r = diamc (); break;
    case 17: r = indc (); break;
    case 18: r = strc (); break;
    case 19: r = partc (&gC, &GC, 7, 0, NULL, -1); break;
    case 20: r = ordc (&gC, &GC, NULL, 0); break;
    case 21: r = partc (&gA, &GA, 4, 2, "m{vert=10,low=r{sep=h{pass=5}},asc=f{pass=10}}", -1); break;
    case 22: r = partc (&gA, &GA, 4, 0, "m{vert=8,low=r{sep=h{pass=10}},asc=f{move=20,pass=-1,bal=0.1}}", -1); break;
    case 23: r = partc (&gA, &GA, 4, 0, "r{job=t,map=t,poli=S,sep=(m{vert=8,low=h{pass=10}f{bal=0.05,move=50},asc=b{width=3,bnd=f{bal=0.05},org=f{bal=0.05}}}|m{vert=8,low=h{pass=5}f,asc=f})}", -1); break;
    default: r = partc (&gA, &GA, 3, 0, NULL, 0.01); break;
  }
  mc_ops (1);
  return r;
}

/* model of a generator: what identifies its state */
typedef struct { long seed, proc; long rproc; u64 h; int on, ops[16]; } R;             /* proc: set; rproc: in use since the last reset */
static void r_reset (R *r) { r->rproc = r->proc; r->h = 1; r->on = 0; }
static u64 r_key (const R *r) { u64 k = mc_hashi (11, r->seed); k = mc_hashi (k, r->rproc); return mc_hash (k, &r->h, sizeof (u64)); }
static u64 opkey (const R *r, long op) { return mc_hashi (r_key (r), op); }
static void r_use (R *r, long op) { if (r->on < 16) r->ops[r->on] = op; r->on ++; r->h = mc_hashi (mc_hash (3, &r->h, sizeof (u64)), op); }
/* ---- memory: key of state and operation -> digest of result */
typedef struct { u64 k, v; int used; char why[160]; } E; static E *tab; static u64 tabm, tabn;
static u64 fin (u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33); }
static char hist[400];
static R glo;
/* states seen for the first time: at the end of the case, what they gave is compared with the same operations done alone from the seed */
typedef struct { R r; long op; u64 v; long proc; char what[80]; } Q; static Q pend[400]; static int pn;
static void see (u64 k, u64 v, const char *what, const R *r, long op) {
  u64 i;
  if (tab == NULL) { tabm = (1 << 14) - 1; tab = calloc (tabm + 1, sizeof (E)); }
  if (tabn * 2 > tabm) { E *o = tab; u64 om = tabm, j; tabm = tabm * 2 + 1; tab = calloc (tabm + 1, sizeof (E)); for (j = 0; j <= om; j ++) if (o[j].used) { for (i = fin (o[j].k) & tabm; tab[i].used; i = (i + 1) & tabm) ; tab[i] = o[j]; } free (o); }
  for (i = fin (k) & tabm; tab[i].used; i = (i + 1) & tabm) if (tab[i].k == k) {
    if (tab[i].v != v) mc_fail ("%s differs from what the same random state gave after [%s]", what, tab[i].why);
    return;
  }
  tab[i].used = 1; tab[i].k = k; tab[i].v = v; snprintf (tab[i].why, sizeof (tab[i].why), "%s", hist); tabn ++; mc_state (k ^ v);
  if (r->on <= 16 && pn < 400) { pend[pn].r = *r; pend[pn].op = op; pend[pn].v = v; pend[pn].proc = glo.proc; snprintf (pend[pn ++].what, 80, "%s", what); }
}
static const char lst[] = "state";

static R ctr[2], slot; static int own[2], sloton, opt[2]; static char *sltxt; static size_t slsiz; static SCOTCH_Context ctx[2];
static R *gen (int c) { return (c < 0 || ! own[c]) ? &glo : &ctr[c]; }
static void savecheck (char **b, size_t *l) {
  FILE *f = open_memstream (b, l); u64 k = opkey (&glo, 900); int r = SCOTCH_randomSave (f); fclose (f); (void) lst;
  k = mc_hashi (k, glo.proc);
  if (r != 0) mc_fail ("random state not saved"); else see (k, mc_hash (5, *b, *l), "saved random state", &glo, -1);
}
/* which computations take numbers from the generator is up to the code: as the key only grows by what was done since the last seeding, this is not assumed */
static void docomp (int k, int c) {
  u64 kk = opkey (gen (c), 1000 + k); char w[120]; int r;
  kk = mc_hashi (kk, c < 0 ? 0 : opt[c]);
  cctx = c < 0 ? NULL : &ctx[c]; r = compute (k); cctx = NULL;
  snprintf (w, sizeof (w), "%s%s", cnm[k], c < 0 ? "" : c == 0 ? " in the first context" : " in the second context");
  if (r != 0) mc_fail ("%s failed", w); else see (kk, digest, w, gen (c), (1000 + k) * 4 + (c < 0 ? 0 : opt[c]));
  r_use (gen (c), (1000 + k) * 4 + (c < 0 ? 0 : opt[c]));
}
static u64 alone1 (long op) {
  SCOTCH_Context c; char *b = NULL; size_t l; FILE *f; u64 h;
  if (op == -1) { f = open_memstream (&b, &l); SCOTCH_randomSave (f); fclose (f); h = mc_hash (5, b, l); free (b); return h; }
  if (op < 1000) return mc_hashi (0, SCOTCH_randomVal (op == 0 ? 1000000 : 7));
  if (op & 3) { SCOTCH_contextInit (&c); SCOTCH_contextOptionSetNum (&c, SCOTCH_OPTIONNUMDETERMINISTIC, 1); cctx = &c; }
  compute (op / 4 - 1000); if (op & 3) { SCOTCH_contextExit (&c); cctx = NULL; }
  return digest;
}
static void alone (void) {
  int q, i;
  for (q = 0; q < pn && ! mc_failed (); q ++) {
    SCOTCH_randomProc (pend[q].r.rproc); SCOTCH_randomSeed (pend[q].r.seed);
    for (i = 0; i < pend[q].r.on; i ++) alone1 (pend[q].r.ops[i]);
    if (pend[q].op == -1) SCOTCH_randomProc (pend[q].proc);
    if (alone1 (pend[q].op) != pend[q].v) mc_fail ("%s after [%s] differs from what the same random state gives alone", pend[q].what, hist);
  }
  pn = 0;
}
enum { O_VAL, O_VAL7, O_RESET, O_SEED5, O_SEEDM, O_PROC, O_SAVE, O_LOAD, O_CLONEA, O_CLONEB, O_RESETA, O_SEEDA, O_SEEDB, O_REINITA, O_COMP, O_COMPA, O_COMPB, O_ORDA, O_ORD, O_OPTA, O_NBR };
static const char *onm[O_NBR] = { "val", "val7", "reset", "seed 5", "seed -7", "proc", "save", "load", "cloneA", "cloneB", "resetA", "seedA", "seedB", "initA", "part", "partA", "partB", "ordA", "ord", "optA" };
static void start (void) { int c; SCOTCH_randomProc (0); SCOTCH_randomSeed (1); memset (&glo, 0, sizeof (glo)); glo.seed = 1; r_reset (&glo); sloton = 0; sltxt = NULL; for (c = 0; c < 2; c ++) { if (SCOTCH_contextInit (&ctx[c]) != 0) mc_fail ("context not initialized"); own[c] = opt[c] = 0; } hist[0] = 0; }
static void finish (void) { int c; for (c = 0; c < 2; c ++) SCOTCH_contextExit (&ctx[c]); free (sltxt); sltxt = NULL; }
static void step (int o) {
  SCOTCH_Num v; FILE *f; R *r; char *b = NULL; size_t l;
  mc_ops (1);
  switch (o) {
    case O_VAL: case O_VAL7: v = SCOTCH_randomVal (o == O_VAL ? 1000000 : 7); if (v < 0 || v >= (o == O_VAL ? 1000000 : 7)) mc_fail ("random value %ld out of range", (long) v); see (opkey (&glo, o), mc_hashi (0, v), "random value", &glo, o); r_use (&glo, O_VAL); break;
    case O_RESET: SCOTCH_randomReset (); r_reset (&glo); break;
    case O_SEED5: SCOTCH_randomSeed (5); glo.seed = 5; r_reset (&glo); break;
    case O_SEEDM: SCOTCH_randomSeed (-7); glo.seed = -7; r_reset (&glo); break;
    case O_PROC: SCOTCH_randomProc (3); glo.proc = 3; break;
    case O_SAVE: free (sltxt); sltxt = NULL; savecheck (&sltxt, &slsiz); slot = glo; sloton = 1; break;
    case O_LOAD: if (! sloton || sltxt == NULL) break; f = fmemopen (sltxt, slsiz, "r"); if (SCOTCH_randomLoad (f) != 0) mc_fail ("random state not loaded: %s", sltxt); fclose (f); glo = slot; savecheck (&b, &l); if (b && (l != slsiz || memcmp (b, sltxt, l))) mc_fail ("state %s became %s", sltxt, b); free (b); break;
    case O_CLONEA: case O_CLONEB: if (SCOTCH_contextRandomClone (&ctx[o - O_CLONEA]) != 0) mc_fail ("not cloned"); own[o - O_CLONEA] = 1; ctr[o - O_CLONEA] = glo; break;
    case O_RESETA: SCOTCH_contextRandomReset (&ctx[0]); r_reset (gen (0)); break;
    case O_SEEDA: case O_SEEDB: r = gen (o - O_SEEDA); SCOTCH_contextRandomSeed (&ctx[o - O_SEEDA], 5); r->seed = 5; r_reset (r); break;
    case O_REINITA: SCOTCH_contextExit (&ctx[0]); if (SCOTCH_contextInit (&ctx[0]) != 0) mc_fail ("context not initialized"); own[0] = opt[0] = 0; break;
    case O_COMP: docomp (0, -1); break;
    case O_COMPA: docomp (0, 0); break;
    case O_COMPB: docomp (0, 1); break;
    case O_ORDA: docomp (10, 0); break;
    case O_ORD: docomp (12, -1); break;
    case O_OPTA: if (SCOTCH_contextOptionSetNum (&ctx[0], SCOTCH_OPTIONNUMDETERMINISTIC, 1) != 0) mc_fail ("option not set"); if (SCOTCH_contextOptionGetNum (&ctx[0], SCOTCH_OPTIONNUMDETERMINISTIC, &v) != 0 || v != 1) mc_fail ("option is %ld", (long) v); if (SCOTCH_contextOptionGetNum (&ctx[1], SCOTCH_OPTIONNUMDETERMINISTIC, &v) != 0 || v == 1) mc_fail ("option of the other context is %ld", (long) v); opt[0] = 1; break;
  }
}
static void setup (void) {
  Shape s; sh_init (&s);
  sh_reset (&s, 20, "g"); sh_grid2 (&s, 5, 4, 0, 0); g_make (&gA, &s, 0, LAY_COMPACT, 1, 1, 0); g_build (&gA, &GA);
  sh_reset (&s, 24, "t"); sh_grid2 (&s, 6, 4, 1, 0); g_make (&gB, &s, 1, LAY_VEND, 0, 0, 0); g_build (&gB, &GB);
  sh_reset (&s, 210, "f"); sh_grid2 (&s, 15, 14, 0, 1); g_make (&gC, &s, 0, LAY_COMPACT, 0, 0, 0); g_build (&gC, &GC);
  m_family (&mA, 0, 0, 0, LAY_COMPACT, 0, 0, 0); m_build (&mA, &MA);
  sh_exit (&s);
}
static void teardown (void) { SCOTCH_graphExit (&GA); SCOTCH_graphExit (&GB); SCOTCH_graphExit (&GC); SCOTCH_meshExit (&MA); g_exit (&gA); g_exit (&gB); g_exit (&gC); m_exit (&mA); }

void mc_run (void) {
  int set = atoi (getenv ("MC_SET") ? getenv ("MC_SET") : "1"), d = set == 1 ? (mc_thorough ? 5 : 4) : 0, i, j, k, seq[8]; u64 nb, x;
  setup ();
  if (set == 1) {
    for (k = 1; k <= d; k ++) { for (nb = 1, i = 0; i < k; i ++) nb *= O_NBR;
      for (x = 0; x < nb; x ++) { u64 y = x; int last;
        for (i = k - 1; i >= 0; i --) { seq[i] = y % O_NBR; y /= O_NBR; }
        for (last = 0; last < k && seq[last] != O_SAVE; last ++) ; for (i = 0; i < k && seq[i] != O_LOAD; i ++) ; if (i < last && i < k) continue;   /* loading before anything is saved does nothing */
        if (mc_skip ()) continue;
        { char nm[300]; nm[0] = 0; for (i = 0; i < k; i ++) { strcat (nm, i ? ", " : ""); strcat (nm, onm[seq[i]]); }
          if (! mc_case ("history %s", nm)) continue;
          start (); snprintf (hist, sizeof (hist), "%s", nm); mc_nontrivial (); for (i = 0; i < k && ! mc_failed (); i ++) step (seq[i]); 
          snprintf (hist, sizeof (hist), "%s", nm);
          if (! mc_failed ()) { char *b = NULL; size_t l; savecheck (&b, &l); free (b); if (own[0]) docomp (0, 0); if (! mc_failed () && own[1]) docomp (0, 1); if (! mc_failed ()) { step (O_VAL); step (O_VAL); } }
          alone (); finish (); }
      } }
  }
  if (set == 2) for (i = 0; i < NC; i ++) for (j = 0; j < NC; j ++) for (k = 0; k < 10; k ++) {
    /* result of i must be that of i alone in the same state, whatever happens with j around it */
    if (mc_skip ()) continue;
    if (! mc_case ("%s, %s around, surroundings %d", cnm[i], cnm[j], k)) continue;
    mc_nontrivial (); start (); snprintf (hist, sizeof (hist), "%s alone", cnm[i]);
    docomp (i, -1); if (mc_failed ()) { pn = 0; finish (); continue; } 
    SCOTCH_randomReset (); r_reset (&glo);
    snprintf (hist, sizeof (hist), "%s, %s, surroundings %d", cnm[i], cnm[j], k);
    switch (k) {
      case 0: docomp (j, -1); step (O_RESET); docomp (i, -1); break;
      case 1: step (O_SAVE); docomp (i, -1); docomp (j, -1); step (O_LOAD); docomp (i, -1); docomp (j, -1); break;
      case 2: step (O_CLONEA); docomp (j, -1); docomp (i, 0); break;
      case 3: step (O_CLONEA); step (O_CLONEB); docomp (j, 0); docomp (i, 1); docomp (i, -1); break;
      case 4: step (O_CLONEA); docomp (j, 0); step (O_RESETA); docomp (i, 0); break;
      case 5: docomp (j, 0); step (O_RESETA); docomp (i, 1); break;
      case 6: step (O_CLONEA); docomp (j, 0); docomp (i, -1); docomp (j, 0); docomp (j, -1); break;
      case 7: step (O_SEEDM); docomp (j, -1); step (O_SAVE); docomp (i, -1); step (O_SEED5); docomp (j, -1); step (O_LOAD); docomp (i, -1); break;
      case 8: step (O_CLONEA); step (O_OPTA); docomp (i, 0); docomp (j, 0); step (O_RESETA); docomp (i, 0); docomp (i, -1); break;
      default: docomp (i, -1); docomp (j, -1); docomp (i, -1); step (O_RESET); docomp (i, -1); docomp (j, -1); docomp (i, -1); break;
    }
    alone (); finish ();
  }
  teardown ();
}
