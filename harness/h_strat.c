/* Strategy strings: parsing is total, saving is faithful, conditions mean what they say (C23). */
#include "gspace.h"

enum { T_BIPART, T_MAP, T_OVL, T_ORDER, T_MESH, T_NBR };
static const char *tnam[] = { "graph bipartitioning", "graph mapping", "overlap partitioning", "graph ordering", "mesh ordering" };
static int parse (int t, SCOTCH_Strat *s, const char *str) {
  switch (t) { case T_BIPART: return SCOTCH_stratGraphBipart (s, str); case T_MAP: return SCOTCH_stratGraphMap (s, str); case T_OVL: return SCOTCH_stratGraphPartOvl (s, str); case T_ORDER: return SCOTCH_stratGraphOrder (s, str); default: return SCOTCH_stratMeshOrder (s, str); }
}
static char *save (SCOTCH_Strat *s) { char *b = NULL; size_t l = 0; FILE *f = open_memstream (&b, &l); int o = SCOTCH_stratSave (s, f); fclose (f); if (o != 0) { free (b); return NULL; } return b; }

static char *again (int t, const char *str) { SCOTCH_Strat s; char *a = NULL; SCOTCH_stratInit (&s); if (parse (t, &s, str) == 0) a = save (&s); SCOTCH_stratExit (&s); return a; }

/* Behaviour on a fixed set of small inputs, as a hash; -1 in *o if some call fails. */
static u64 behave (int t, SCOTCH_Strat *s, int *o) {
  static G gs[3]; static M ms; static int init; SCOTCH_Graph g; SCOTCH_Mesh m; Num p[40], q[40], r[41], tr[40], cb; int i, k, n; u64 h = 5; *o = 0;
  if (! init) { Shape a; sh_init (&a); init = 1; sh_reset (&a, 9, "grid3x3"); sh_grid2 (&a, 3, 3, 0, 0); g_make (&gs[0], &a, 0, 0, 0, 0, 0); sh_atlas (&a, 6, 77); g_make (&gs[1], &a, 1, 1, 0, 1, 0); sh_reset (&a, 20, "grid5x4"); sh_grid2 (&a, 5, 4, 0, 1); g_make (&gs[2], &a, 0, 0, 1, 0, 0); m_make (&ms, 4, 4, 0x7BD6, 0, 0, 0, 0, 0, 0); sh_exit (&a); }
  SCOTCH_randomReset ();
  if (t == T_MESH) { m_build (&ms, &m); if (SCOTCH_meshOrder (&m, s, p, q, &cb, r, tr) != 0) *o = -1; else { for (i = 0; i < 4; i ++) h = mc_hashi (h, p[i]); for (i = 0; i <= cb; i ++) h = mc_hashi (h, r[i]); } SCOTCH_meshExit (&m); return h; }
  for (k = 0; k < 3; k ++) {
    n = gs[k].n; g_build (&gs[k], &g);
    if (t == T_ORDER) { if (SCOTCH_graphOrder (&g, s, p, q, &cb, r, tr) != 0) *o = -1; else { for (i = 0; i < n; i ++) h = mc_hashi (h, p[i]); for (i = 0; i < cb; i ++) h = mc_hashi (mc_hashi (h, r[i]), tr[i]); } }
    else { if ((t == T_OVL ? SCOTCH_graphPartOvl (&g, 3, s, p) : SCOTCH_graphPart (&g, 3, s, p)) != 0) *o = -1; else for (i = 0; i < n; i ++) h = mc_hashi (h, p[i]); }
    SCOTCH_graphExit (&g);
  }
  return h;
}
static const char *valid[] = { "z", "r{job=t,map=t,poli=S,sep=h}", "r{sep=h}", "n{sep=h,ole=s,ose=s}", "n{sep=h,ole=s,ose=s}" };
/* Judges one string; mode: 0 any string, 1 must be accepted, 2 must be accepted and behave alike once saved and read again */
static int judge (int t, const char *str, int mode) {
  SCOTCH_Strat s, r, u; char *a = NULL, *b = NULL, *c = NULL; int o, o1, o2; long live = mc_live (); u64 h1, h2;
  SCOTCH_stratInit (&s); SCOTCH_stratInit (&r);
  mc_errreset ();
  o = parse (t, &s, str); mc_ops (1);
  if (o == 0 && mc_errnbr) mc_fail ("%s: \"%s\" accepted with an error message", tnam[t], str);
  if (o != 0 && ! mc_errnbr) mc_fail ("%s: \"%s\" refused without an error message", tnam[t], str);
  if (o != 0 && mode) mc_fail ("%s: \"%s\" refused", tnam[t], str);
  if (o != 0) {                                             /* the refused string must leave no trace */
    if (parse (t, &s, valid[t]) != 0) mc_fail ("%s: valid strategy refused after \"%s\"", tnam[t], str);
    else if ((a = save (&s)) == NULL || parse (t, &r, a) != 0 || (b = save (&r)) == NULL || strcmp (a, b)) mc_fail ("%s: valid strategy changed after \"%s\"", tnam[t], str);
  }
  else if ((a = save (&s)) == NULL) mc_fail ("%s: \"%s\" cannot be saved", tnam[t], str);
  else if (strstr (a, "=inf") || strstr (a, "=-inf")) ;     /* number too large to be represented */
  else if (parse (t, &r, a) != 0) mc_fail ("%s: \"%s\" is saved as \"%s\", which is refused", tnam[t], str, a);
  else if ((b = save (&r)) == NULL || (strcmp (a, b) && ((c = again (t, b)) == NULL || strcmp (b, c)))) { mc_fail ("%s: \"%s\" is saved as \"%s\", then as \"%s\" and then as \"%s\"", tnam[t], str, a, b ? b : "(error)", c ? c : "(error)"); free (c); }
  else {
    free (c); c = NULL;
    mc_nontrivial (); mc_state (mc_hash (t, a, strlen (a)));
    if (mode == 2) {
      h1 = behave (t, &s, &o1); h2 = behave (t, &r, &o2);
      if (o1) mc_fail ("%s: computation fails with \"%s\"", tnam[t], str);
      if (o1 != o2 || h1 != h2) mc_fail ("%s: \"%s\" and its saved form \"%s\" give different results", tnam[t], str, a);
      h2 = behave (t, &s, &o2); if (o1 != o2 || h1 != h2) mc_fail ("%s: \"%s\" gives different results the second time", tnam[t], str);
      c = save (&s); if (c == NULL || strcmp (a, c)) mc_fail ("%s: \"%s\" modified by its use", tnam[t], str); free (c);
      mc_state (h1);
    }
  }
  SCOTCH_stratExit (&s); SCOTCH_stratExit (&r); free (a); free (b);
  if (mc_live () != live && ! mc_failed ()) mc_fail ("%s: %ld blocks lost by \"%s\"", tnam[t], mc_live () - live, str);
  (void) u;
  return o == 0;
}
/* A: all short token strings */
static const char *tok[T_NBR][24] = {
  { "h", "x", "m", "q", "(", ")", "|", "/", "?", ":", ";", "{", "}", "=", ",", "low", "pass", "1", "0.5", " ", "vert>2", "\"", NULL },
  { "r", "m", "b", "q", "(", ")", "|", "/", "?", ":", ";", "{", "}", "=", ",", "sep", "job", "t", "0.05", "7", "vert>2", "vert<8&edge=4", "low=r", NULL },
  { "z", "f", "r", "q", "(", ")", "|", "/", "?", ":", ";", "{", "}", "=", ",", "sep", "pass", "1", "0.5", "\t", "vert>2", "3", NULL },
  { "s", "g", "n", "q", "(", ")", "|", "/", "?", ":", ";", "{", "}", "=", ",", "sep", "pass=2", "ole=s", "%", "-", "vert>2", "!", "levl", NULL },
  { "s", "n", "v", "q", "(", ")", "|", "/", "?", ":", ";", "{", "}", "=", ",", "sep", "strat", "1", "vnod>2", "velm", "*", "<", NULL } };
static void tokens (void) {
  int t, n, len, a, b; char str[200]; int i;
  for (t = 0; t < T_NBR; t ++) { for (n = 0; tok[t][n]; n ++) ; for (len = 1; len <= (mc_thorough ? 5 : 4); len ++) for (a = 0; a < n; a ++) for (b = 0; b < (len > 1 ? n : 1); b ++) if (mc_case ("%s: all strings of %d tokens starting with %s%s", tnam[t], len, tok[t][a], len > 1 ? tok[t][b] : "")) {
    u64 x, m = 1; long acc = 0; for (i = 2; i < len; i ++) m *= n;
    for (x = 0; x < m && ! mc_failed (); x ++) { u64 y = x; strcpy (str, tok[t][a]); if (len > 1) strcat (str, tok[t][b]); for (i = 2; i < len; i ++, y /= n) strcat (str, tok[t][y % n]); acc += judge (t, str, 0); }
    mc_note ("accepted", acc);
  } }
}
/* B: all single-character damages of valid strategies */
static const struct { int t; const char *s; } base[] = {
  { T_ORDER, "n{sep=/(vert>3)?(m{vert=2,low=h{pass=3},asc=b{bnd=f{bal=0.2,pass=2},org=(|h{pass=3})f{bal=0.123456},width=3},rat=0.8}|h);,ole=f{cmin=1,cmax=100,frat=0.05},ose=g{pass=2}}" },
  { T_ORDER, "c{rat=0.7,cpr=n{sep=/(vert>3)?h{pass=1};,ole=d{cmin=0,cmax=10,frat=0.1},ose=s},unc=n{sep=/(levl<1)?(h|g{pass=2});,ole=k{siz=2,strat=r{sep=h}},ose=g{pass=3}}}" },
  { T_MAP, "m{asc=b{bnd=d{pass=4,dif=1,rem=0}f{bal=0.05,move=-1,pass=-1},org=f{bal=0.05},width=3},low=r{job=t,bal=0.05,map=t,poli=S,sep=(m{vert=2,low=h{pass=2}f{bal=0.01},asc=b{bnd=f{move=12,bal=0.005},width=2,org=f}}|h)},vert=3,rat=0.9,type=h}" },
  { T_MAP, "r{job=u,map=u,poli=L,bal=0.1,sep=/((vert>4)&(load<100))|!(edge=2)?(m{vert=2,low=hx,asc=f{bal=1e-2}}|g{pass=3}):zf;}" },
  { T_OVL, "m{asc=f{bal=0.1,move=12,pass=2},low=r{sep=m{asc=f,low=h{pass=2},vert=2}f{bal=0.02}}f,vert=3,rat=0.7}" },
  { T_MESH, "c{rat=0.7,cpr=n{sep=/(vnod>3)?m{vnod=2,low=h{pass=2},asc=f{bal=0.2},rat=0.8,type=n};,ole=v{strat=f{cmin=1,cmax=100,frat=0}},ose=g},unc=n{sep=/((vnod*2)%5<3)?h{pass=1};,ole=v{strat=d},ose=s}}" },
  { T_BIPART, "(m{vert=2,low=h{pass=2}f{bal=0.1},asc=b{bnd=d{pass=3,type=k}f{move=4},width=1,org=f}}|/vert+1*2>4-(edge-1)?x:(h|zf);)" },
};
static void damage (void) {
  static const char chs[] = "abdehfgmnrsvxz019.,;:(){}[]|/?=<>&!%*+-\"# \n\t\\E\177"; char str[800]; int i, l, p, k;
  for (i = 0; i < (int) (sizeof (base) / sizeof (base[0])); i ++) { l = strlen (base[i].s);
    if (mc_case ("%s: %s", tnam[base[i].t], base[i].s)) judge (base[i].t, base[i].s, base[i].t == T_BIPART ? 1 : 2);
    for (p = 0; p <= l; p ++) if (mc_case ("%s: all damages at character %d of %s", tnam[base[i].t], p, base[i].s)) {
      long acc = 0;
      memcpy (str, base[i].s, p); str[p] = 0; acc += judge (base[i].t, str, 0);                                                     /* truncation */
      if (p < l) { memcpy (str, base[i].s, p); strcpy (str + p, base[i].s + p + 1); acc += judge (base[i].t, str, 0); }               /* removal */
      if (p + 1 < l) { strcpy (str, base[i].s); str[p] = base[i].s[p + 1]; str[p + 1] = base[i].s[p]; acc += judge (base[i].t, str, 0); } /* exchange */
      for (k = 0; chs[k] && ! mc_failed (); k ++) {
        if (p < l) { strcpy (str, base[i].s); str[p] = chs[k]; acc += judge (base[i].t, str, 0); }
        memcpy (str, base[i].s, p); str[p] = chs[k]; strcpy (str + p + 1, base[i].s + p); acc += judge (base[i].t, str, 0);
      }
      if (mc_thorough) for (k = p + 1; k <= l && ! mc_failed (); k ++) { memcpy (str, base[i].s, p); strcpy (str + p, base[i].s + k); acc += judge (base[i].t, str, 0); memcpy (str, base[i].s, k); strcpy (str + k, base[i].s + p); if (strlen (str) < 790) acc += judge (base[i].t, str, 0); }
      mc_note ("accepted", acc);
    } }
}
/* C: all compositions of small strategies */
static char *expr[4000]; static int exprn;
static void addx (const char *f, const char *a, const char *b) { char buf[1500]; if (exprn >= 4000) return; snprintf (buf, sizeof (buf), f, a, b); expr[exprn ++] = strdup (buf); }
static void build (int t, int n1) {
  static const char *at[T_NBR][4] = { { "h{pass=2}", "z", "hf{bal=0.1}", NULL }, { "r{job=t,map=t,poli=S,sep=h{pass=2}}", "r{job=u,map=t,poli=L,sep=z}f{bal=0.1}", NULL, NULL }, { "r{sep=h{pass=1}}", "z", "r{sep=g{pass=1}}f{bal=0.1}", NULL }, { "s", "g{pass=1}", "d{cmin=0,cmax=10,frat=0}", NULL }, { "s", "g{pass=1}", "v{strat=s}", NULL } };
  static const char *ml[T_NBR] = { "m{vert=2,low=%s,asc=%s}", "m{vert=2,low=%s,asc=f{bal=0.1}}", "m{vert=2,low=%s,asc=f{bal=0.1}}", "n{sep=/(vert>3)?h{pass=1};,ole=%s,ose=%s}", "n{sep=/(vnod>2)?h{pass=1};,ole=%s,ose=s}" };
  static const char *cn[] = { "vert>4", "(vert>4)&(edge<60)", "!(edge=24)|(vert<3)", "vert*2-3>11" }, *cm[] = { "vnod>4", "(vnod>2)&(velm<6)", "!(vnod=3)|(velm<3)", "vnod*2-3>1" };
  char f[200]; int i, j, n0, c; const char **cd = t == T_MESH ? cm : cn;
  exprn = 0; for (i = 0; at[t][i]; i ++) addx ("%s%s", at[t][i], "");
  n0 = exprn;
  for (i = 0; i < n0; i ++) for (j = 0; j < n0; j ++) {
    if (t != T_ORDER && t != T_MESH) addx ("%s%s", expr[i], expr[j]);
    if (t != T_ORDER && t != T_MESH) addx ("(%s|%s)", expr[i], expr[j]); addx (ml[t], expr[i], expr[j]);
    for (c = 0; c < 4; c ++) { sprintf (f, "/%s?%%s:%%s;", cd[c]); addx (f, expr[i], expr[j]); }
  }
  if (! n1) return;
  { int m0 = exprn; for (i = 0; i < m0; i += 1 + (m0 > 60)) for (j = 0; j < m0; j += 7) { if (t != T_ORDER && t != T_MESH) addx ("(%s|%s)", expr[i], expr[j]); addx (ml[t], expr[i], expr[j]); sprintf (f, "(/%s?(%%s):%%s;)", cd[(i + j) % 4]); addx (f, expr[i], expr[j]); } }
}
static void compose (void) {
  int t, i;
  for (t = 0; t < T_NBR; t ++) { if (t == T_BIPART) continue; build (t, 1); for (i = 0; i < exprn; i ++) { if (mc_case ("%s: %s", tnam[t], expr[i])) judge (t, expr[i], 2); free (expr[i]); } }
  build (T_BIPART, 1); for (i = 0; i < exprn; i ++) { if (mc_case ("%s: %s", tnam[T_BIPART], expr[i])) { char b[2000]; judge (T_BIPART, expr[i], 1); snprintf (b, sizeof (b), "r{job=t,map=t,poli=S,sep=%s}", expr[i]); judge (T_MAP, b, 2); } free (expr[i]); }
}
/* D: all flags */
static void flags (void) {
  static const double bal[] = { 0, 0.05, 0.3 }; int f, b, k, q; SCOTCH_Strat s, r; char *x, *y; u64 h1, h2; int o, o1, o2;
  static const Num bit[] = { 1, 2, 4, 8, 16, 0x100, 0x200, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000 };
  for (f = 0; f < 4096; f ++) for (k = 0; k < 5; k ++) for (b = 0; b < 3; b ++) {
    Num fl = 0; for (q = 0; q < 12; q ++) if (f >> q & 1) fl |= bit[q];
    if (! mc_thorough && (f + k + b) % 3) continue;
    if (mc_skip ()) continue;
    if (mc_case ("predefined strategy kind %d flags %lx balance %g", k, (long) fl, bal[b])) {
      int run = mc_thorough || (f + k) % 8 == 0, t = k == 0 || k == 1 ? T_MAP : k == 2 ? T_OVL : k == 3 ? T_ORDER : T_MESH;
      long live = mc_live ();
      SCOTCH_stratInit (&s); SCOTCH_stratInit (&r); mc_errreset ();
      o = k == 0 ? SCOTCH_stratGraphMapBuild (&s, fl, 3 + f % 5, bal[b]) : k == 1 ? SCOTCH_stratGraphClusterBuild (&s, fl, 2 + f % 7, 0.3 + bal[b], bal[b]) : k == 2 ? SCOTCH_stratGraphPartOvlBuild (&s, fl, 3, bal[b]) : k == 3 ? SCOTCH_stratGraphOrderBuild (&s, fl, f % 7, bal[b]) : SCOTCH_stratMeshOrderBuild (&s, fl, bal[b]);
      mc_ops (1); x = y = NULL;
      if (o != 0 || mc_errnbr) mc_fail ("refused: %s", mc_errbuf);
      else if ((x = save (&s)) == NULL) mc_fail ("cannot be saved");
      else if (parse (t, &r, x) != 0) mc_fail ("saved as \"%s\", which is refused", x);
      else if ((y = save (&r)) == NULL || strcmp (x, y)) mc_fail ("saved as \"%s\" and then as \"%s\"", x, y ? y : "(error)");
      else { mc_state (mc_hash (k, x, strlen (x))); mc_nontrivial ();
        if (run && k != 1) { h1 = behave (t, &s, &o1); h2 = behave (t, &r, &o2); if (o1) mc_fail ("computation fails"); if (o1 != o2 || h1 != h2) mc_fail ("saved form \"%s\" gives different results", x); } }
      SCOTCH_stratExit (&s); SCOTCH_stratExit (&r); free (x); free (y);
      if (mc_live () != live && ! mc_failed ()) mc_fail ("%ld blocks lost", mc_live () - live);
    }
  }
}
/* E: conditions. Reference evaluator over expression trees. */
typedef struct { char s[120]; int v; int pri; } Ex;      /* text, value on the test graph, priority of the root operator */
static int eval (const char *cond) {                      /* which branch does the library take? */
  static G g; static int init; SCOTCH_Graph gr; SCOTCH_Strat s, r; Num p[6], q[6], rg[7], tr[6], cb = -1; char b[400], *a; int res = -1, k;
  if (! init) { Shape sh; sh_init (&sh); sh_reset (&sh, 5, "c5"); for (k = 0; k < 5; k ++) sh_edge (&sh, k, (k + 1) % 5); g_make (&g, &sh, 0, 0, 0, 0, 0); init = 1; sh_exit (&sh); }
  snprintf (b, sizeof (b), "/%s?b{strat=s,cmin=1}:s;", cond);
  g_build (&g, &gr); SCOTCH_stratInit (&s); SCOTCH_stratInit (&r);
  for (k = 0; k < 2; k ++) {
    if (k == 0 ? SCOTCH_stratGraphOrder (&s, b) != 0 : ((a = save (&s)) == NULL || SCOTCH_stratGraphOrder (&r, a) != 0)) { mc_fail ("%s \"%s\" refused", k ? "saved form of" : "strategy", b); break; }
    if (SCOTCH_graphOrder (&gr, k ? &r : &s, p, q, &cb, rg, tr) != 0) { mc_fail ("ordering fails with \"%s\"", b); break; }
    if (k == 0) res = cb == 5; else { if ((cb == 5) != res) mc_fail ("condition \"%s\" is %s, but its saved form \"%s\" is not", cond, res ? "true" : "false", a); free (a); }
  }
  mc_ops (2);
  SCOTCH_graphExit (&gr); SCOTCH_stratExit (&s); SCOTCH_stratExit (&r);
  return res;
}
static Ex ar[4000], lo[60000]; static int arn, lon;
static void conditions (void) {
  static const char *an[] = { "vert", "edge", "load", "2", "mdeg", "7" }; static const int av[] = { 5, 10, 5, 2, 2, 7 };   /* cycle of 5 vertices, 10 arcs */
  static const char aop[] = "+-*%", rop[] = "<=>"; int i, j, k, n0, paren, m; char l[130], r[130];
  for (i = 0; i < 6; i ++) { strcpy (ar[arn].s, an[i]); ar[arn].v = av[i]; ar[arn ++].pri = 9; }
  n0 = 6;
  for (m = 0; m < 2; m ++) {                              /* depth 1, then depth 2 on either side */
    int a0 = m ? 6 : 0, a1 = arn;
    for (i = m ? a0 : 0; i < a1; i ++) for (j = 0; j < n0; j ++) for (k = 0; k < 4; k ++) for (paren = 0; paren < (m ? 2 : 1); paren ++) {
      Ex *x = &ar[i], *y = &ar[j], *z; int pr = k < 2 ? 1 : k - 0, v, lp, rp;   /* + - : 1, * : 2, % : 3 */
      if (m && ((i * 7 + j * 3 + k) % (mc_thorough ? 2 : 5))) continue;
      if (paren) { z = x; x = y; y = z; }
      if (k == 3 && y->v == 0) continue;
      v = k == 0 ? x->v + y->v : k == 1 ? x->v - y->v : k == 2 ? x->v * y->v : x->v % y->v;
      lp = x->pri < pr; rp = y->pri <= pr;
      snprintf (l, sizeof (l), lp ? "(%s)" : "%s", x->s); snprintf (r, sizeof (r), rp && y->pri < 9 ? "(%s)" : "%s", y->s);
      if (arn < 4000) { z = &ar[arn]; snprintf (z->s, sizeof (z->s), "%s%c%s", l, aop[k], r); z->v = v; z->pri = pr; arn ++; }
    }
  }
  for (i = 0; i < arn; i ++) for (j = 0; j < 6; j ++) for (k = 0; k < 3; k ++) { Ex *z = &lo[lon ++]; snprintf (z->s, sizeof (z->s), "%.90s%c%.20s", ar[i].s, rop[k], ar[j].s); z->v = k == 0 ? ar[i].v < ar[j].v : k == 1 ? ar[i].v == ar[j].v : ar[i].v > ar[j].v; z->pri = 9; if (lon > 50000) break; }
  m = lon;
  for (i = 0; i < m; i ++) { if (mc_skip ()) continue; if (mc_case ("condition %s", lo[i].s)) { int e = eval (lo[i].s); if (e >= 0 && e != lo[i].v && ! mc_failed ()) mc_fail ("condition %s is taken as %s", lo[i].s, e ? "true" : "false"); mc_state (mc_hash (3, lo[i].s, strlen (lo[i].s))); mc_nontrivial (); } }
  /* logical structure: all formulas of depth 2 over 3 true/false atoms, with and without redundant parentheses */
  { static const char *at[] = { "vert>4", "edge<3", "mdeg=2" }; static const int tv[] = { 1, 0, 1 }; Ex f[4000]; int n = 0, a, b, op, d, s0 = 0, e0;
    for (a = 0; a < 3; a ++) { strcpy (f[n].s, at[a]); f[n].v = tv[a]; f[n ++].pri = 4; }
    for (d = 0; d < 2; d ++) { e0 = n;
      for (a = d ? 3 : 0; a < e0; a ++) for (op = 0; op < 3; op ++) for (b = 0; b < (op == 2 ? 1 : d ? 3 : e0); b ++) for (s0 = 0; s0 < (d && op < 2 ? 2 : 1); s0 ++) { Ex *x = &f[a], *y = &f[b], *t; char l1[140], r1[140]; int pr = op == 2 ? 3 : op; if (s0) { t = x; x = y; y = t; }
        if (n >= 3990) break;
        if (op == 2) { snprintf (f[n].s, sizeof (f[n].s), "!(%.100s)", x->s); f[n].v = ! x->v; }
        else { snprintf (l1, sizeof (l1), x->pri < pr ? "(%s)" : "%s", x->s); snprintf (r1, sizeof (r1), y->pri <= pr ? "(%s)" : "%s", y->s); if (strlen (l1) + strlen (r1) > 110) continue; sprintf (f[n].s, "%s%c%s", l1, op ? '&' : '|', r1); f[n].v = op ? x->v && y->v : x->v || y->v; }
        f[n ++].pri = pr; }
    }
    for (a = 0; a < n; a ++) for (d = 0; d < 2; d ++) if (mc_case ("condition %s%s", f[a].s, d ? " in parentheses" : "")) { char z[160]; int e; sprintf (z, d ? "(%s)" : "%s", f[a].s); e = eval (z); if (e >= 0 && e != f[a].v && ! mc_failed ()) mc_fail ("condition %s is taken as %s", z, e ? "true" : "false"); mc_state (mc_hash (4 + d, z, strlen (z))); mc_nontrivial (); }
  }
}
void mc_run (void) { int o; SCOTCH_Strat s; SCOTCH_stratInit (&s); behave (T_ORDER, &s, &o); SCOTCH_stratExit (&s); conditions (); compose (); flags (); damage (); tokens (); }
