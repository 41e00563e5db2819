/* Multi-threaded algorithms under all bounded schedules (MC_SET=28); independent user threads (MC_SET=29). */
#include "gspace.h"
#include "explore.h"

typedef struct { G *g; int op, k, thr, det; u64 ref; int refset; int parts; int fixed; } Job;
typedef struct { u64 h; int fail; char msg[300]; } Res;
#define BAD(...) do { if (! r->fail) { r->fail = 1; snprintf (r->msg, sizeof (r->msg), __VA_ARGS__); } } while (0)

static const char *mstr[] = { "", "r{job=t,map=t,poli=S,sep=h{pass=2}}", "r{job=t,map=t,poli=L,sep=(m{vert=2,low=h{pass=1},asc=f{bal=0.1}})}", "m{vert=2,low=r{job=t,map=t,poli=S,sep=h{pass=1}},asc=f{bal=0.1,move=5,pass=1}}",
  "m{vert=3,low=r{job=t,map=t,poli=S,sep=h},asc=b{bnd=d{pass=2,dif=1,rem=0},org=f{bal=0.1},width=1}}", "r{job=t,map=t,poli=S,sep=m{vert=2,low=h{pass=1},asc=b{bnd=d{pass=2},org=h{pass=1},width=1}}}", "m{vert=2,low=r{job=t,map=t,poli=S,sep=h{pass=1}f{bal=0.1}},asc=x{bal=0.1}}" };
static const char *ostr[] = { "", "n{sep=h{pass=2},ole=s,ose=s}", "n{sep=h{pass=1},ole=d{cmin=0,cmax=100,frat=0},ose=g{pass=1}}", "c{rat=1,cpr=n{sep=h{pass=1},ole=f{cmin=0,cmax=10,frat=0},ose=s},unc=n{sep=m{vert=2,low=h,asc=f},ole=s,ose=s}}", "o{strat=n{sep=h{pass=1},ole=b{strat=s,cmin=1},ose=s}}", "n{sep=/(vert>2)?(m{vert=1,low=h{pass=1},asc=f{bal=0.2,pass=1}});,ole=k{siz=2,strat=r{sep=h}},ose=s}" };
static const char *wstr[] = { "", "r{sep=h{pass=2}}", "r{sep=h{pass=1}f{bal=0.1}}f{bal=0.1,pass=2}", "m{vert=2,low=r{sep=h{pass=1}},asc=f{bal=0.1}}" };
static int deg (G *g, int i) { int x, d = 0; for (x = 0; x < g->n; x ++) d += g_adj (g, i, x) != 0; return d; }
enum { OP_COARSEN, OP_MATCH, OP_PART, OP_ORDER, OP_OVL, OP_FIX, OP_NBR };
static const int knbr[] = { 2, 2, 7, 6, 4, 2 };
static const char *onam[] = { "coarsen", "match", "part", "order", "overlap", "partfixed" };

static void compute (Job *j, SCOTCH_Graph *s, Res *r) {
  G *g = j->g; int n = g->n, i, k, o; Num *p = malloc ((n + 1) * sizeof (Num)), *q = malloc ((2 * n + 4) * sizeof (Num)), *t = malloc ((n + 4) * sizeof (Num)), *b = malloc ((n + 4) * sizeof (Num)), cb; SCOTCH_Strat st; u64 h = 7; Num base = g->base;
  SCOTCH_stratInit (&st);
  for (i = 0; i <= n; i ++) p[i] = -77; for (i = 0; i < 2 * n + 4; i ++) q[i] = -77;
  switch (j->op) {
    case OP_MATCH: {
      Num cv = 0;
      o = SCOTCH_graphCoarsenMatch (s, &cv, 1.0, j->k ? SCOTCH_COARSENNOMERGE : 0, p);
      if (o != 0 && o != 1) { BAD ("matching fails"); break; }
      if (o == 1) break;
      for (i = k = 0; i < n; i ++) { Num m = p[i] - base; if (m < 0 || m >= n || p[m] - base != i) { BAD ("mating array is not a pairing: %s", arr_str (p, n)); break; } if (m >= i) k ++; if (m != i && ! g_adj (g, i, (int) m)) { if (j->k || (deg (g, i) && deg (g, (int) m))) BAD ("vertices %d and %d mated although they are not neighbours", i, (int) m); } }
      if (! r->fail && k != cv) BAD ("number of coarse vertices is %ld, not %d: %s", (long) cv, k, arr_str (p, n));
      for (i = 0; i < n; i ++) h = mc_hashi (h, p[i]);
      break; }
    case OP_COARSEN: {
      SCOTCH_Graph c; Num cv, *seen = calloc (n + 1, sizeof (Num)); GV v; char err[200];
      SCOTCH_graphInit (&c);
      o = SCOTCH_graphCoarsen (s, 0, 1.0, j->k ? SCOTCH_COARSENNOMERGE : 0, &c, q);
      if (o != 0 && o != 1) BAD ("coarsening fails");
      else if (o == 0) {
        SCOTCH_graphSize (&c, &cv, NULL);
        if (SCOTCH_graphCheck (&c) != 0) BAD ("coarse graph inconsistent");
        else if (gv_read (&v, &c, err, sizeof (err)) != 0) BAD ("coarse graph: %s", err);
        else {
          int a, e, x, y; Num wsum;
          for (a = 0; a < cv && ! r->fail; a ++) {
            for (x = 0; x < 2; x ++) { Num m = q[2 * a + x] - base; if (m < 0 || m >= n) { BAD ("multinode out of range"); break; } if (x == 0 || q[2 * a] != q[2 * a + 1]) if (seen[m] ++) BAD ("vertex in two multinodes"); }
            if (r->fail) break;
            wsum = g->w[q[2 * a] - base] + (q[2 * a] != q[2 * a + 1] ? g->w[q[2 * a + 1] - base] : 0);
            if (v.w[a] != wsum) BAD ("coarse vertex load wrong");
          }
          for (i = 0; i < n && ! r->fail; i ++) if (! seen[i]) BAD ("vertex in no multinode");
          for (a = 0; a < cv && ! r->fail; a ++) for (e = 0; e < cv; e ++) if (a != e) {
            Num sum = 0; int na = q[2 * a] != q[2 * a + 1] ? 2 : 1, ne = q[2 * e] != q[2 * e + 1] ? 2 : 1;
            for (x = 0; x < na; x ++) for (y = 0; y < ne; y ++) { int u = q[2 * a + x] - base, w = q[2 * e + y] - base; if (g_adj (g, u, w)) sum += g->ew ? g->ew[(size_t) u * n + w] : 1; }
            if (v.ew[a * v.n + e] != sum) { BAD ("coarse edge %d-%d has load %ld instead of %ld", a, e, (long) v.ew[a * v.n + e], (long) sum); break; }
          }
          for (i = 0; i < 2 * cv; i ++) h = mc_hashi (h, q[i]);
          h = mc_hashi (h, gv_hash (&v));
          gv_exit (&v);
        }
      }
      SCOTCH_graphExit (&c); free (seen);
      break; }
    case OP_PART: case OP_FIX:
      if ((j->op == OP_PART ? mstr[j->k] : mstr[j->k ? 3 : 1])[0] && SCOTCH_stratGraphMap (&st, j->op == OP_PART ? mstr[j->k] : mstr[j->k ? 3 : 1]) != 0) { BAD ("strategy refused"); break; }
      if (j->op == OP_FIX) { for (i = 0; i < n; i ++) p[i] = i % 3 == 0 ? (i / 3) % j->parts : -1; o = SCOTCH_graphPartFixed (s, j->parts, &st, p); }
      else o = SCOTCH_graphPart (s, j->parts, &st, p);
      if (o != 0) { BAD ("partitioning fails: %s", mc_errbuf); break; }
      for (i = 0; i < n; i ++) { if (p[i] < 0 || p[i] >= j->parts) { BAD ("part out of range: %s", arr_str (p, n)); break; } if (j->op == OP_FIX && i % 3 == 0 && p[i] != (i / 3) % j->parts) BAD ("fixed vertex moved: %s", arr_str (p, n)); h = mc_hashi (h, p[i]); }
      if (mc_errnbr) BAD ("error message: %s", mc_errbuf);
      break;
    case OP_OVL:
      if (wstr[j->k][0] && SCOTCH_stratGraphPartOvl (&st, wstr[j->k]) != 0) { BAD ("strategy refused"); break; }
      if (SCOTCH_graphPartOvl (s, j->parts, &st, p) != 0) { BAD ("partitioning fails: %s", mc_errbuf); break; }
      for (i = 0; i < n && ! r->fail; i ++) { if (p[i] < -1 || p[i] >= j->parts) BAD ("part out of range: %s", arr_str (p, n)); h = mc_hashi (h, p[i]); for (k = 0; k < i; k ++) if (p[i] >= 0 && p[k] >= 0 && p[i] != p[k] && g_adj (g, i, k)) { BAD ("parts are not separated: %s", arr_str (p, n)); break; } }
      if (mc_errnbr) BAD ("error message: %s", mc_errbuf);
      break;
    case OP_ORDER:
      if (ostr[j->k][0] && SCOTCH_stratGraphOrder (&st, ostr[j->k]) != 0) { BAD ("strategy refused"); break; }
      if (SCOTCH_graphOrder (s, &st, p, q, &cb, b, t) != 0) { BAD ("ordering fails: %s", mc_errbuf); break; }
      if (cb < 1 || cb > n) { BAD ("number of blocks %ld", (long) cb); break; }
      for (i = 0; i < n; i ++) if (p[i] < base || p[i] >= n + base || q[p[i] - base] != i + base) { BAD ("not a permutation: %s / %s", arr_str (p, n), arr_str (q, n)); break; } else h = mc_hashi (h, p[i]);
      if (b[0] != base || b[cb] != n + base) BAD ("block ranges wrong");
      for (i = 0; i < cb && ! r->fail; i ++) { if (b[i] >= b[i + 1]) BAD ("empty block"); if (t[i] != -1 && (t[i] - base <= i || t[i] - base >= cb)) BAD ("parent array wrong: %s", arr_str (t, cb)); h = mc_hashi (mc_hashi (h, b[i]), t[i]); }
      if (! r->fail && j->k != 5) for (i = 0; i < n && ! r->fail; i ++) for (k = 0; k < i; k ++) if (g_adj (g, i, k)) {
        int x, y, a; for (x = 0; b[x + 1] <= p[i]; x ++) ; for (y = 0; b[y + 1] <= p[k]; y ++) ; if (x > y) { a = x; x = y; y = a; }
        for (a = x; a != -1 && a < y; a = t[a] == -1 ? -1 : t[a] - base) ;
        if (a != y) { BAD ("neighbours in unrelated blocks: perm %s blocks %s", arr_str (p, n), arr_str (b, cb + 1)); break; }
      }
      if (mc_errnbr) BAD ("error message: %s", mc_errbuf);
      break;
  }
  SCOTCH_stratExit (&st);
  if (! g_same (g)) BAD ("graph modified");
  if (p[n] != -77) BAD ("written past the result array");
  r->h = h;
  free (p); free (q); free (t); free (b);
}
static u64 outcomes[64]; static int outnbr;
static void body28 (void *a) {
  Job *j = a; SCOTCH_Context c; SCOTCH_Graph g, b; Res r; int i; memset (&r, 0, sizeof (r)); mc_errreset ();
  x_nopoint (1);
  SCOTCH_randomReset (); SCOTCH_contextInit (&c); if (j->det) SCOTCH_contextOptionSetNum (&c, SCOTCH_OPTIONNUMDETERMINISTIC, 1);
  SCOTCH_contextRandomClone (&c); SCOTCH_contextRandomReset (&c);
  if (SCOTCH_contextThreadSpawn (&c, j->thr, NULL) != 0 || g_build (j->g, &g) != 0) { mc_fail ("set-up fails"); return; }
  SCOTCH_graphInit (&b); SCOTCH_contextBindGraph (&c, &g, &b);
  x_nopoint (0);
  compute (j, &b, &r);
  x_nopoint (1);
  if (r.fail) { x_abort ("%s", r.msg); return; }
  if (! j->refset) { j->ref = r.h; j->refset = 1; }
  else if (j->det && r.h != j->ref) { x_abort ("deterministic mode: the result depends on the schedule"); return; }
  for (i = 0; i < outnbr && outcomes[i] != r.h; i ++) ; if (i == outnbr && outnbr < 64) outcomes[outnbr ++] = r.h;
  mc_state (mc_hashi (r.h, j->g->hash));
  SCOTCH_graphExit (&b); SCOTCH_contextExit (&c); SCOTCH_graphExit (&g);
  x_nopoint (0);
}
static int count28, light28;
static void run28 (Shape *s, int n, int kind, int salt) {
  int op, k, thr, det, x, d, heavy; G g; Job j; XStat st; char nm[40];
  for (op = 0; op < OP_NBR; op ++) for (k = 0; k < knbr[op]; k ++) for (thr = 2; thr <= 4; thr ++) for (det = 0; det < 2; det ++) {
    x = salt + op * 3 + k * 5 + thr * 2 + det;
    heavy = op == OP_ORDER || op == OP_OVL || (op == OP_PART && (k == 0 || k == 2));
    if (op >= OP_PART && ! mc_thorough && x % (n <= 4 ? 4 : kind < 0 ? 5 : 9)) continue;
    if (op < OP_PART && ! mc_thorough && thr == 4 && x % 4) continue;
    if (heavy) count28 ++; else if (op >= OP_PART) light28 ++;
    if (mc_skip ()) continue;
    g_make (&g, s, x % 2, (x / 2) % LAY_NBR, (x / 3) % 3 == 1 && ! (op == OP_ORDER && k == 4) ? 1 : 0, (x / 4) % 3, 0);
    memset (&j, 0, sizeof (j)); j.g = &g; j.op = op; j.k = k; j.thr = thr; j.det = det; j.parts = 2 + x % 4;
    d = 1; if (op < OP_PART && n <= 6 && thr <= 3 && ! det) d ++;
    if (op < OP_PART && mc_thorough) d ++;
    if (heavy && (n > (mc_thorough ? 5 : 4) || count28 % (mc_thorough ? 5 : 61) || (k == 0 && op != OP_OVL))) d = 0;
    if (op >= OP_PART && ! heavy && ! mc_thorough && (n > 5 || light28 % 3)) d = 0;
    if (mc_case ("%s/%d threads=%d %s parts=%d %d departures %s", onam[op], k, thr, det ? "deterministic" : "", j.parts, d, g.desc)) {
      outnbr = 0; x_explore (body28, &j, d, mc_thorough ? 100000 : op < OP_PART ? 20000 : 2500, XP_RACY, &st);
      mc_note ("schedules", st.runs); mc_note ("decisions", st.points); mc_note ("racy_accesses", st.racy); if (st.truncated) mc_note ("truncated", 1); if (outnbr > 1) { mc_nontrivial (); mc_note ("schedule_dependent_results", 1); } mc_note ("distinct_results", outnbr);
      sprintf (nm, "schedules_%s_%d_departures", onam[op], d); mc_note (nm, st.runs);
      if (st.maxpoints > 3) mc_nontrivial ();
    }
    g_exit (&g);
  }
}
/* ---- 29 ---- */
typedef struct { Job j[2]; Res r[2]; u64 alone[2]; int ctx[2]; } Two;
static Two *two; static int which;
static void one (int i) {
  Job *j = &two->j[i]; SCOTCH_Context c; SCOTCH_Graph g, b;
  SCOTCH_contextInit (&c); SCOTCH_contextRandomClone (&c); SCOTCH_contextRandomSeed (&c, 5 + i); SCOTCH_contextOptionSetNum (&c, SCOTCH_OPTIONNUMDETERMINISTIC, 1);
  if (SCOTCH_contextThreadSpawn (&c, j->thr, NULL) != 0 || g_build (j->g, &g) != 0) { two->r[i].fail = 1; strcpy (two->r[i].msg, "set-up fails"); return; }
  SCOTCH_graphInit (&b); SCOTCH_contextBindGraph (&c, &g, &b);
  compute (j, &b, &two->r[i]);
  SCOTCH_graphExit (&b); SCOTCH_contextExit (&c); SCOTCH_graphExit (&g);
}
static void *user (void *p) { one ((int) (intptr_t) p); return NULL; }
static void body29 (void *a) {
  pthread_t t[2]; int i;
  memset (two->r, 0, sizeof (two->r)); mc_errreset ();
  SCOTCH_randomReset ();
  if (which >= 0) { one (which); if (two->r[which].fail) x_abort ("alone: %s", two->r[which].msg); two->alone[which] = two->r[which].h; return; }
  for (i = 0; i < 2; i ++) pthread_create (&t[i], NULL, user, (void *) (intptr_t) i);
  for (i = 0; i < 2; i ++) pthread_join (t[i], NULL);
  for (i = 0; i < 2; i ++) { if (two->r[i].fail) x_abort ("call of user thread %d: %s", i, two->r[i].msg); if (two->r[i].h != two->alone[i]) x_abort ("call of user thread %d gives another result than alone", i); mc_state (two->r[i].h); }
}
static void run29 (void) {
  static const int fam[] = { 0, 3, 21, 25, 29 }; int a, b, ka, kb, f, x = 0; Shape s; G g[2]; Two tw; XStat st; sh_init (&s);
  for (a = 0; a < OP_NBR; a ++) for (ka = 0; ka < knbr[a]; ka ++) for (b = 0; b < OP_NBR; b ++) for (kb = 0; kb < knbr[b]; kb ++) for (f = 0; f < 5; f ++) {
    x ++;
    if (! mc_thorough && x % 7) continue;
    if (mc_skip ()) continue;
    if (f < 3) sh_atlas (&s, 5, (x * 5) % sh_atlasnbr (5)); else sh_family (&s, fam[f], 0);
    g_make (&g[0], &s, x % 2, x % LAY_NBR, x % 3 == 1 && ! (a == OP_ORDER && ka == 4), x % 2, 0);
    sh_atlas (&s, 6, (x * 11) % sh_atlasnbr (6)); g_make (&g[1], &s, (x + 1) % 2, (x / 2) % LAY_NBR, x % 5 == 1 && ! (b == OP_ORDER && kb == 4), (x / 3) % 2, 0);
    memset (&tw, 0, sizeof (tw)); two = &tw;
    tw.j[0].g = &g[0]; tw.j[0].op = a; tw.j[0].k = ka; tw.j[0].thr = 1 + (x % 5 == 0); tw.j[0].det = 1; tw.j[0].parts = 2 + x % 3;
    tw.j[1].g = &g[1]; tw.j[1].op = b; tw.j[1].k = kb; tw.j[1].thr = 1; tw.j[1].det = 1; tw.j[1].parts = 2 + x % 4;
    if (mc_case ("%s/%d beside %s/%d, %s and %s", onam[a], ka, onam[b], kb, g[0].desc, g[1].desc)) {
      for (which = 0; which < 2 && ! mc_failed (); which ++) x_explore (body29, NULL, 0, 10, 0, &st);
      which = -1; if (! mc_failed ()) { x_explore (body29, NULL, mc_thorough || x % 35 == 0 ? 1 : 0, mc_thorough ? 20000 : 1500, XP_RACY, &st);
      mc_note ("schedules", st.runs); mc_note ("decisions", st.points); mc_note ("racy_accesses", st.racy); if (st.truncated) mc_note ("truncated", 1); if (st.maxpoints > 3) mc_nontrivial (); }
    }
    g_exit (&g[0]); g_exit (&g[1]);
  }
}
void mc_run (void) {
  Shape s; int n, i; u64 m; sh_init (&s);
  if (atoi (getenv ("MC_SET")) == 29) { run29 (); return; }
  for (n = 1; n <= 4; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) { sh_mask (&s, n, m); run28 (&s, n, 1, (int) m); }
  for (n = 5; n <= (mc_thorough ? 6 : 5); n ++) for (i = 0; i < sh_atlasnbr (n); i ++) { sh_atlas (&s, n, i); run28 (&s, n, 0, i); }
  for (i = 0; sh_family (&s, i, 0); i ++) run28 (&s, s.n, -1, i);
}
