/* Damaged files: every truncation, every replaced, lost, repeated or exchanged token or line, every altered byte, of seed files of all formats. */
#include "aspace.h"
#include <ctype.h>

enum { K_GRAPH, K_MESH, K_ARCH, K_TAB, K_ORDER, K_CHAC, K_MMKT, K_HABO, K_GGEOM, K_MHABO, K_MGEOM, K_RANDOM, K_NBR };
static const char *knm[K_NBR] = { "graph", "mesh", "architecture", "mapping", "ordering", "Chaco graph", "Matrix Market graph", "Harwell-Boeing graph", "graph geometry", "Harwell-Boeing mesh", "mesh geometry", "random state" };
static char err[500];
static G gg; static M mm;                                           /* object the file applies to */

/* --- what is expected from an object that was loaded */

static void ckgraph (SCOTCH_Graph *gr) {
  Num b, n, m, *vert, *vend, *velo, *vlbl, *edge, *edlo; GV v;
  SCOTCH_graphData (gr, &b, &n, &vert, &vend, &velo, &vlbl, &m, &edge, &edlo);
  if (n < 0 || m < 0) { mc_fail ("loaded graph has %d vertices and %d arcs", (int) n, (int) m); return; }
  if (SCOTCH_graphCheck (gr) != 0) { mc_fail ("loaded graph does not pass the check"); return; }
  if (n > 300) return;
  if (gv_read (&v, gr, err, sizeof (err)) != 0) mc_fail ("loaded graph is inconsistent: %s", err); else { mc_state (gv_hash (&v)); mc_note ("accepted", 1); }
  gv_exit (&v);
  if (! mc_failed ()) { FILE *f; char *o = NULL; size_t l; f = open_memstream (&o, &l); if (SCOTCH_graphSave (gr, f) != 0) mc_fail ("loaded graph cannot be saved"); fclose (f); free (o); }
}
static void ckmesh (SCOTCH_Mesh *me) {
  Num eb, nb, ne, nn, m, dg, *vert, *vend, *velo, *vnlo, *vlbl, *edge, k, base; int i, j, isel, c; Num *cnt;
  SCOTCH_meshData (me, &eb, &nb, &ne, &nn, &vert, &vend, &velo, &vnlo, &vlbl, &m, &edge, &dg);
  base = eb < nb ? eb : nb;
  if (ne < 0 || nn < 0 || m < 0) { mc_fail ("loaded mesh has %d elements, %d nodes, %d arcs", (int) ne, (int) nn, (int) m); return; }
  if (ne + nn > 400) { if (SCOTCH_meshCheck (me) != 0) mc_fail ("loaded mesh does not pass the check"); return; }
  if (eb != base + (nb == base && nn > 0 ? nn : 0) && nb != base + ne && ne > 0 && nn > 0) { mc_fail ("loaded mesh has element base %d, node base %d for %d elements and %d nodes", (int) eb, (int) nb, (int) ne, (int) nn); return; }
  cnt = calloc ((size_t) (ne + nn + 1) * (ne + nn + 1), sizeof (Num));
  for (isel = 0; isel < 2; isel ++) for (i = 0; i < (isel ? ne : nn); i ++) {
    Num x = (isel ? eb : nb) + i - base, s = vert[x], e = vend ? vend[x] : vert[x + 1];
    if (s < base || e < s) { mc_fail ("loaded mesh has a wrong arc range"); goto end; }
    for (k = s; k < e; k ++) {
      Num t = edge[k - base] - (isel ? nb : eb);
      if (t < 0 || t >= (isel ? nn : ne)) { mc_fail ("loaded mesh has an arc to %d", (int) edge[k - base]); goto end; }
      cnt[x * (ne + nn) + edge[k - base] - base] ++;
    }
  }
  for (i = 0; i < ne + nn; i ++) for (j = 0; j < ne + nn; j ++) { c = cnt[i * (ne + nn) + j]; if (c > 1 || c != cnt[j * (ne + nn) + i]) { mc_fail ("loaded mesh has %d arcs from %d to %d and %d back", c, i, j, (int) cnt[j * (ne + nn) + i]); goto end; } }
  if (SCOTCH_meshCheck (me) != 0) mc_fail ("loaded mesh does not pass the check");
  mc_state (mc_hash (mc_hash (0, cnt, (size_t) (ne + nn) * (ne + nn) * sizeof (Num)), &ne, sizeof (Num))); mc_note ("accepted", 1);
  { FILE *f; char *o = NULL; size_t l; f = open_memstream (&o, &l); if (SCOTCH_meshSave (me, f) != 0) mc_fail ("loaded mesh cannot be saved"); fclose (f); free (o); }
end: free (cnt);
}
static int nodes, nodemax; static Num leaf[200]; static SCOTCH_ArchDom ldom[200]; static int lnbr;
static void walk (SCOTCH_Arch *a, SCOTCH_ArchDom *d, Num n, int depth) {
  SCOTCH_ArchDom x, y; Num s = SCOTCH_archDomSize (a, d), w = SCOTCH_archDomWght (a, d); int o;
  if (mc_failed ()) return;
  if (++ nodes > nodemax || depth > 2 * n + 2) { mc_fail ("loaded architecture has endless domains"); return; }
  if (s < 1) { mc_fail ("loaded architecture has a domain of size %d", (int) s); return; }
  o = SCOTCH_archDomBipart (a, d, &x, &y);
  if (o == 2 || o < 0) { mc_fail ("domain of loaded architecture cannot be bipartitioned"); return; }
  if (o == 1) {
    Num t = SCOTCH_archDomNum (a, d); int i;
    if (s != 1) { mc_fail ("loaded architecture has a terminal of size %d", (int) s); return; }
    for (i = 0; i < lnbr; i ++) if (leaf[i] == t) { mc_fail ("loaded architecture has two terminals %d", (int) t); return; }
    if (SCOTCH_archDomTerm (a, &x, t) != 0) mc_fail ("no domain for terminal %d of loaded architecture", (int) t);
    else if (SCOTCH_archDomNum (a, &x) != t || SCOTCH_archDomDist (a, d, &x) != 0) mc_fail ("wrong domain for terminal %d of loaded architecture", (int) t);
    ldom[lnbr] = *d; leaf[lnbr ++] = t;
    return;
  }
  if (SCOTCH_archDomSize (a, &x) + SCOTCH_archDomSize (a, &y) != s) { mc_fail ("loaded architecture splits %d in %d and %d", (int) s, (int) SCOTCH_archDomSize (a, &x), (int) SCOTCH_archDomSize (a, &y)); return; }
  if (SCOTCH_archDomWght (a, &x) + SCOTCH_archDomWght (a, &y) != w) { mc_fail ("loaded architecture splits weight %d in %d and %d", (int) w, (int) SCOTCH_archDomWght (a, &x), (int) SCOTCH_archDomWght (a, &y)); return; }
  SCOTCH_archDomDist (a, &x, &y);
  walk (a, &x, n, depth + 1); walk (a, &y, n, depth + 1);
}
static void ckarch (SCOTCH_Arch *a) {
  SCOTCH_ArchDom d; Num n; FILE *f; char *o = NULL, *o2 = NULL; size_t l; int i, j, v; const char *nm = SCOTCH_archName (a); SCOTCH_Arch b;
  v = (nm != NULL && ! strncmp (nm, "var", 3));
  f = open_memstream (&o, &l);
  if (SCOTCH_archSave (a, f) != 0) { fclose (f); free (o); mc_fail ("loaded architecture cannot be saved"); return; }
  fclose (f);
  f = fmemopen (o, l, "r"); SCOTCH_archInit (&b);
  if (SCOTCH_archLoad (&b, f) != 0) mc_fail ("loaded architecture is saved as %.200s, which cannot be loaded", o);
  else { FILE *h = open_memstream (&o2, &l); SCOTCH_archSave (&b, h); fclose (h); if (strcmp (o, o2)) mc_fail ("loaded architecture is saved as %.200s, then as %.200s", o, o2); }
  SCOTCH_archExit (&b); fclose (f); mc_state (mc_hash (0, o, strlen (o))); free (o); free (o2);
  SCOTCH_archDomFrst (a, &d);
  if (v || mc_failed ()) return;
  n = SCOTCH_archSize (a);
  if (n < 1) { mc_fail ("loaded architecture has %d terminals", (int) n); return; }
  if (n > 128) return;
  nodes = lnbr = 0; nodemax = 2 * n;
  walk (a, &d, n, 0);
  if (! mc_failed () && lnbr != n) mc_fail ("loaded architecture of size %d has %d terminals", (int) n, lnbr);
  for (i = 0; i < lnbr && ! mc_failed (); i ++) for (j = 0; j <= i; j ++) { Num x = SCOTCH_archDomDist (a, &ldom[i], &ldom[j]), y = SCOTCH_archDomDist (a, &ldom[j], &ldom[i]); if (x != y || x < 0 || (i == j && x != 0)) { mc_fail ("terminals %d and %d of loaded architecture are at distance %d and %d", (int) leaf[i], (int) leaf[j], (int) x, (int) y); break; } }
  mc_note ("accepted", 1);
}

/* --- loading */
static int lib (int k, const char *b, size_t len, int opt) {          /* returns 0 if accepted */
  FILE *f = len ? fmemopen ((void *) b, len, "r") : fopen ("/dev/null", "r"); int o = 1; long live; SCOTCH_Graph gr; SCOTCH_Mesh me;
  static const int bases[] = { -1, 1, 0 }, flags[] = { 0, 0, 3 };
  int hasg = (k == K_TAB || k == K_ORDER || k == K_GGEOM), hasm = (k == K_MGEOM);
  if (hasg) g_build (&gg, &gr);
  if (hasm) m_build (&mm, &me);
  live = mc_live (); mc_mark (); mc_errreset ();
  switch (k) {
    case K_GRAPH: SCOTCH_graphInit (&gr); if ((o = SCOTCH_graphLoad (&gr, f, bases[opt], flags[opt])) == 0) ckgraph (&gr); SCOTCH_graphExit (&gr); break;
    case K_MESH: SCOTCH_meshInit (&me); if ((o = SCOTCH_meshLoad (&me, f, bases[opt])) == 0) ckmesh (&me); SCOTCH_meshExit (&me); break;
    case K_ARCH: { SCOTCH_Arch a; SCOTCH_archInit (&a); if ((o = SCOTCH_archLoad (&a, f)) == 0) ckarch (&a); SCOTCH_archExit (&a); break; }
    case K_TAB:
      if (opt == 0) {
        Num *p = malloc ((gg.n + 2) * sizeof (Num)); int i; for (i = 0; i < gg.n + 2; i ++) p[i] = 12345;
        live ++; o = SCOTCH_graphTabLoad (&gr, p + 1, f);
        if (p[0] != 12345 || p[gg.n + 1] != 12345) mc_fail ("part array is overflowed");
        else if (o == 0) for (i = 0; i < gg.n; i ++) mc_state (mc_hashi (i, p[i + 1]));
        free (p); live --;
      } else {
        SCOTCH_Arch a; SCOTCH_Mapping mp; SCOTCH_archInit (&a); SCOTCH_archCmplt (&a, 3);
        SCOTCH_graphMapInit (&gr, &mp, &a, NULL); o = SCOTCH_graphMapLoad (&gr, &mp, f);
        if (o == 0) { FILE *h; char *t = NULL; size_t l; h = open_memstream (&t, &l); if (SCOTCH_graphMapSave (&gr, &mp, h) != 0) mc_note ("accepted mapping not saved", 1); fclose (h); free (t); }
        SCOTCH_graphMapExit (&gr, &mp); SCOTCH_archExit (&a);
      }
      break;
    case K_ORDER: {
      Num *p = malloc ((4 * gg.n + 8) * sizeof (Num)), cb = 0; SCOTCH_Ordering od; int i;
      live ++; SCOTCH_graphOrderInit (&gr, &od, p, p + gg.n, &cb, p + 2 * gg.n, p + 3 * gg.n + 1);
      o = SCOTCH_graphOrderLoad (&gr, &od, f);
      if (o == 0) {
        unsigned char *s = calloc (gg.n + 1, 1);
        if (SCOTCH_graphOrderCheck (&gr, &od) != 0) mc_fail ("loaded ordering does not pass the check");
        for (i = 0; i < gg.n && ! mc_failed (); i ++) { Num x = p[i] - gg.base; if (x < 0 || x >= gg.n || s[x]) mc_fail ("loaded ordering is not a permutation"); else { s[x] = 1; if (p[gg.n + x] - gg.base != i) mc_fail ("loaded ordering has wrong inverse"); } }
        free (s);
      }
      SCOTCH_graphOrderExit (&gr, &od); free (p); live --; break;
    }
    case K_CHAC: SCOTCH_graphInit (&gr); if ((o = SCOTCH_graphGeomLoadChac (&gr, NULL, f, NULL, "")) == 0) ckgraph (&gr); SCOTCH_graphExit (&gr); break;
    case K_MMKT: SCOTCH_graphInit (&gr); if ((o = SCOTCH_graphGeomLoadMmkt (&gr, NULL, f, NULL, "")) == 0) ckgraph (&gr); SCOTCH_graphExit (&gr); break;
    case K_HABO: SCOTCH_graphInit (&gr); if ((o = SCOTCH_graphGeomLoadHabo (&gr, NULL, f, NULL, "")) == 0) ckgraph (&gr); SCOTCH_graphExit (&gr); break;
    case K_MHABO: SCOTCH_meshInit (&me); if ((o = SCOTCH_meshGeomLoadHabo (&me, NULL, f, NULL, "")) == 0) ckmesh (&me); SCOTCH_meshExit (&me); break;
    case K_GGEOM: case K_MGEOM: {
      SCOTCH_Geom ge; Num d; double *t;
      SCOTCH_geomInit (&ge);
      if (k == K_GGEOM) {                                              /* loads the graph too */
        SCOTCH_Graph g2; char *s = NULL; size_t l; FILE *h = open_memstream (&s, &l); SCOTCH_graphSave (&gr, h); fclose (h); h = fmemopen (s, l, "r");
        SCOTCH_graphInit (&g2); if ((o = SCOTCH_graphGeomLoadScot (&g2, &ge, h, f, "")) == 0) ckgraph (&g2);
        SCOTCH_graphExit (&g2); fclose (h); free (s);
      } else {
        SCOTCH_Mesh m2; char *s = NULL; size_t l; FILE *h = open_memstream (&s, &l); SCOTCH_meshSave (&me, h); fclose (h); h = fmemopen (s, l, "r");
        SCOTCH_meshInit (&m2); if ((o = SCOTCH_meshGeomLoadScot (&m2, &ge, h, f, "")) == 0) ckmesh (&m2);
        SCOTCH_meshExit (&m2); fclose (h); free (s);
      }
      SCOTCH_geomData (&ge, &d, &t);
      if (o == 0) { int i, n = (k == K_GGEOM) ? gg.n : mm.nn; double s = 0; if (d < 1 || d > 3 || t == NULL) mc_fail ("loaded geometry has dimension %d", (int) d); else { for (i = 0; i < n * d; i ++) s += t[i]; mc_state (mc_hash (d, t, n * d * sizeof (double))); } (void) s; }
      SCOTCH_geomExit (&ge); break;
    }
    case K_RANDOM: {
      int i, dif = 0; Num x0 = 0;
      SCOTCH_randomReset (); o = SCOTCH_randomLoad (f);
      if (o == 0) { for (i = 0; i < 64; i ++) { Num x = SCOTCH_randomVal (1000); if (x < 0 || x >= 1000) mc_fail ("random value %d out of range", (int) x); if (i == 0) x0 = x; else dif |= (x != x0); } if (! dif) mc_fail ("loaded random state always gives the same value"); }
      SCOTCH_randomReset (); break;
    }
  }
  mc_ops (1);
  if (o != 0 && mc_errnbr == 0) mc_fail ("file refused without any message");
  if (! mc_failed () && mc_live () != live) { mc_fail ("%s: %ld blocks are not released", o ? "file refused" : "file accepted", mc_live () - live); mc_dump_live (); }
  if (hasg) SCOTCH_graphExit (&gr);
  if (hasm) SCOTCH_meshExit (&me);
  fclose (f);
  return o;
}

static int kind; static char *seed; static char seednm[100]; static size_t slen;
static void one (const char *b, size_t len, const char *fmt, int x, int y, const char *s) {
  char d[200]; int opt, on = (kind == K_GRAPH || kind == K_MESH) ? 3 : (kind == K_TAB) ? 2 : 1;
  if (mc_skip ()) return;
  snprintf (d, sizeof (d), fmt, x, y, s);
  if (mc_case ("%s file %s: %s", knm[kind], seednm, d)) {
    if (mc_verbose) { fwrite (b, 1, len, stdout); printf ("<EOF>\n"); }
    for (opt = 0; opt < on && ! mc_failed (); opt ++) if (lib (kind, b, len, opt) != 0) mc_nontrivial ();
  }
}
typedef struct { int s, e; } Tok;
static void damage (void) {
  int n = slen, i, j, k, tn = 0, ln = 0; Tok t[2000], l[600]; char *b = malloc (2 * n + 200);
  static const char *vals[] = { "-1", "0", "1", "2", "3", "4", "5", "7", "100", "2147483647", "2147483646", "-2147483648", "1073741824", "4294967297", "576460752303423488", "1152921504606846975", "99999999999999999999", "x", "-", "1.5", "+3", "1x", "%" };
  static const char bytes[] = " \n-+09x%\377\t.";
  for (i = 0; i < n && tn < 2000; i ++) if (! isspace ((unsigned char) seed[i]) && (i == 0 || isspace ((unsigned char) seed[i - 1]))) { t[tn].s = i; for (j = i; j < n && ! isspace ((unsigned char) seed[j]); j ++) ; t[tn ++].e = j; }
  for (i = j = 0; i < n && ln < 600; i ++) if (seed[i] == '\n') { l[ln].s = j; l[ln ++].e = j = i + 1; }
#define SPLICE(S,E,R,RL) (memcpy (b, seed, (S)), memcpy (b + (S), (R), (RL)), memcpy (b + (S) + (RL), seed + (E), n - (E)), n - ((E) - (S)) + (RL))
  one (seed, n, "intact", 0, 0, "");
  for (i = 0; i < n; i ++) one (seed, i, "cut after %d bytes", i, 0, "");
  for (i = 0; i < tn; i ++) {
    int s = t[i].s, e = t[i].e, q;
    for (j = 0; j < (int) (sizeof (vals) / sizeof (vals[0])); j ++) { q = SPLICE (s, e, vals[j], (int) strlen (vals[j])); one (b, q, "token %d replaced by %.0d%s", i + 1, 0, vals[j]); }
    q = SPLICE (s, e, "", 0); one (b, q, "token %d lost", i + 1, 0, "");
    { char r[600]; int rl = e - s < 280 ? e - s : 280; memcpy (r, seed + s, rl); r[rl] = ' '; memcpy (r + rl + 1, seed + s, rl); q = SPLICE (s, e, r, 2 * rl + 1); one (b, q, "token %d repeated", i + 1, 0, ""); }
    for (k = i + 1; k <= i + 2 && k < tn; k ++) if (t[k].e - s < 500) { char r[600]; int a1 = t[k].e - t[k].s, gl = t[k].s - e, a0 = e - s; memcpy (r, seed + t[k].s, a1); memcpy (r + a1, seed + e, gl); memcpy (r + a1 + gl, seed + s, a0); q = SPLICE (s, t[k].e, r, a0 + gl + a1); one (b, q, "tokens %d and %d exchanged", i + 1, k + 1, ""); }
  }
  for (i = 0; i < n; i ++) for (j = 0; j < (int) sizeof (bytes) - 1; j ++) if (seed[i] != bytes[j]) { memcpy (b, seed, n); b[i] = bytes[j]; char s[8]; snprintf (s, sizeof (s), "%d", (unsigned char) bytes[j]); one (b, n, "byte %d replaced by %.0d%s", i, 0, s); }
  for (i = 0; i < n; i ++) { b[0] = 0; int q = SPLICE (i, i + 1, "", 0); one (b, q, "byte %d lost", i, 0, ""); }
  for (i = 0; i < ln; i ++) { int q = SPLICE (l[i].s, l[i].e, "", 0); one (b, q, "line %d lost", i + 1, 0, ""); if (l[i].e - l[i].s < 180) { char r[400]; int z = l[i].e - l[i].s; memcpy (r, seed + l[i].s, z); memcpy (r + z, seed + l[i].s, z); q = SPLICE (l[i].s, l[i].e, r, 2 * z); one (b, q, "line %d repeated", i + 1, 0, ""); } }
  if (tn <= (mc_thorough ? 60 : 16)) {                                    /* pairs of numbers replaced */
    static const char *v2[] = { "-1", "0", "1", "2", "3", "6" };
    for (i = 0; i < tn; i ++) for (k = i + 1; k < tn; k ++) for (j = 0; j < 36; j ++) {
      const char *x = v2[j / 6], *y = v2[j % 6]; int q; char s[20];
      if (mc_skip ()) continue;
      memcpy (b, seed, t[i].s); q = t[i].s; q += sprintf (b + q, "%s", x); memcpy (b + q, seed + t[i].e, t[k].s - t[i].e); q += t[k].s - t[i].e; q += sprintf (b + q, "%s", y); memcpy (b + q, seed + t[k].e, n - t[k].e); q += n - t[k].e;
      snprintf (s, sizeof (s), "%s and %s", x, y);
      one (b, q, "tokens %d and %d replaced by %s", i + 1, k + 1, s);
    }
  }
  free (b);
}
static void from (int k, const char *nm, char *txt, size_t len) { kind = k; snprintf (seednm, sizeof (seednm), "%s", nm); seed = txt; slen = len; damage (); }
static void fromtxt (int k, const char *nm, const char *txt) { from (k, nm, (char *) txt, strlen (txt)); }

static void graphs (void) {
  static const struct { int n; u64 mask; int base, vk, ek, lk; } sp[] = {
    { 0, 0, 0, 0, 0, 0 }, { 1, 0, 1, 0, 0, 0 }, { 2, 1, 0, 0, 0, 0 }, { 3, 3, 1, 1, 0, 0 }, { 3, 7, 0, 0, 1, 0 }, { 4, 0x29, 0, 1, 1, 0 }, { 3, 3, 0, 0, 0, 1 }, { 4, 0x2d, 1, 1, 1, 2 }, { 5, 0x11, 0, 0, 0, 2 }, { 4, 0x3f, 7, 0, 1, 3 } };
  int i, j; Shape s; char nm[100];
  sh_init (&s);
  for (i = 0; i < (int) (sizeof (sp) / sizeof (sp[0])); i ++) {
    SCOTCH_Graph gr; char *o = NULL; size_t l; FILE *f;
    sh_mask (&s, sp[i].n, sp[i].mask); g_make (&gg, &s, sp[i].base, LAY_COMPACT, sp[i].vk, sp[i].ek, sp[i].lk); g_build (&gg, &gr);
    snprintf (nm, sizeof (nm), "of n=%d mask=%x base=%d vload=%d eload=%d labels=%d", sp[i].n, (int) sp[i].mask, sp[i].base, sp[i].vk, sp[i].ek, sp[i].lk);
    f = open_memstream (&o, &l); SCOTCH_graphSave (&gr, f); fclose (f); from (K_GRAPH, nm, o, l); free (o);
    if (gg.vlbl == NULL && sp[i].vk != 1) { o = NULL; f = open_memstream (&o, &l); if (SCOTCH_graphGeomSaveChac (&gr, NULL, f, NULL, "") == 0) { fclose (f); from (K_CHAC, nm, o, l); } else fclose (f); free (o);
      o = NULL; f = open_memstream (&o, &l); if (SCOTCH_graphGeomSaveMmkt (&gr, NULL, f, NULL, "") == 0) { fclose (f); from (K_MMKT, nm, o, l); } else fclose (f); free (o); }
    if (gg.n > 0) {
      char t[2000]; int q, d;
      for (d = 1; d <= 3; d ++) { q = sprintf (t, "%d\n%d\n", d, gg.n); for (j = 0; j < gg.n; j ++) { int e; q += sprintf (t + q, "%d", (int) (gg.vlbl ? gg.vlbl[j] : j + gg.base)); for (e = 0; e < d; e ++) q += sprintf (t + q, "\t%d.5", j * 3 + e); q += sprintf (t + q, "\n"); } fromtxt (K_GGEOM, nm, t); if (i > 3) break; }
      q = sprintf (t, "%d\n", gg.n); for (j = 0; j < gg.n; j ++) q += sprintf (t + q, "%d\t%d\n", (int) (gg.vlbl ? gg.vlbl[j] : j + gg.base), j % 3); fromtxt (K_TAB, nm, t);
      if (gg.vlbl == NULL) { q = sprintf (t, "%d\n", gg.n); for (j = 0; j < gg.n; j ++) q += sprintf (t + q, "%d\t%d\n", j + (int) gg.base, (j + 1) % gg.n + (int) gg.base); fromtxt (K_ORDER, nm, t); }
    }
    SCOTCH_graphExit (&gr); g_exit (&gg);
  }
  sh_exit (&s);
  fromtxt (K_CHAC, "with comments", "% comment\n3 2\n\n% another\n2\n1 3\n2\n");
  fromtxt (K_CHAC, "weighted", "3 2 11\n4 2 5\n2 1 5 3 6\n1 2 6\n");
  fromtxt (K_CHAC, "labelled", "3 2 100\n1 2\n2 1 3\n3 2\n");
  fromtxt (K_CHAC, "two loads", "2 1 10 2\n4 5 2\n6 7 1\n");
  fromtxt (K_MMKT, "symmetric pattern", "%%MatrixMarket matrix coordinate pattern symmetric\n% comment\n3 3 3\n1 1\n2 1\n3 2\n");
  fromtxt (K_MMKT, "general real", "%%MatrixMarket matrix coordinate real general\n3 3 4\n1 2 3.5\n2 1 -1e3\n3 3 0\n3 1 7\n");
  fromtxt (K_MMKT, "complex hermitian", "%%MatrixMarket matrix coordinate complex hermitian\n2 2 2\n1 1 1.0 2.0\n2 1 3.0 4.0\n");
  fromtxt (K_RANDOM, "state", "1\n0\t42\n123456789\t987654321\n");
  { char *o = NULL; size_t l; FILE *f = open_memstream (&o, &l); SCOTCH_randomReset (); SCOTCH_randomSave (f); fclose (f); from (K_RANDOM, "initial state", o, l); free (o); }
}
static void habo (void) {
  char t[2000];
#define H1 "title                                                                   key     \n"
#define HB(T,R,C,NZ,NE,P,I) sprintf (t, "%-72s%-8s\n%14d%14d%14d%14d%14d\n%-14s%14d%14d%14d%14d\n%-16s%-16s%-20s%-20s\n%s%s", "title", "key", 2, 1, 1, 0, 0, T, R, C, NZ, NE, "(8I5)", "(8I5)", "", "", P, I)
  HB ("PSA", 3, 3, 4, 0, "    1    3    4    5\n", "    1    2    3    3\n"); fromtxt (K_HABO, "pattern symmetric", t);
  HB ("PUA", 3, 3, 4, 0, "    1    3    4    5\n", "    1    2    3    1\n"); fromtxt (K_HABO, "pattern unsymmetric", t);
  HB ("RUA", 2, 2, 2, 0, "    1    2    3\n", "    2    1\n"); fromtxt (K_HABO, "real without values", t);
  HB ("PSE", 4, 2, 6, 0, "    1    4    7\n", "    1    2    3    2    3    4\n"); fromtxt (K_MHABO, "elements", t);
  HB ("PUE", 3, 3, 5, 0, "    1    3    5    6\n", "    1    2    2    3    3\n"); fromtxt (K_MHABO, "elements, unsymmetric", t);
}
static void meshes (void) {
  static const struct { int ne, nn; u64 mask; int base, first, ek, nk, lk; } sp[] = { { 1, 1, 1, 0, 0, 0, 0, 0 }, { 1, 2, 3, 1, 1, 0, 0, 0 }, { 2, 2, 7, 0, 0, 1, 0, 0 }, { 2, 3, 0x1b, 1, 0, 0, 1, 0 }, { 3, 2, 0x2d, 0, 1, 1, 1, 0 }, { 2, 2, 6, 0, 0, 0, 0, 1 }, { 0, 0, 0, 0, 0, 0, 0, 0 } };
  int i, j; char nm[100];
  for (i = 0; i < (int) (sizeof (sp) / sizeof (sp[0])); i ++) {
    SCOTCH_Mesh me; char *o = NULL; size_t l; FILE *f;
    m_make (&mm, sp[i].ne, sp[i].nn, sp[i].mask, sp[i].base, sp[i].first, LAY_COMPACT, sp[i].ek, sp[i].nk, sp[i].lk); m_build (&mm, &me);
    snprintf (nm, sizeof (nm), "of %dx%d mask=%x base=%d first=%d loads=%d,%d labels=%d", sp[i].ne, sp[i].nn, (int) sp[i].mask, sp[i].base, sp[i].first, sp[i].ek, sp[i].nk, sp[i].lk);
    f = open_memstream (&o, &l); SCOTCH_meshSave (&me, f); fclose (f); from (K_MESH, nm, o, l); free (o);
    if (mm.nn > 0 && mm.vlbl == NULL) { char t[1000]; int q; q = sprintf (t, "2\n%d\n", mm.nn); for (j = 0; j < mm.nn; j ++) q += sprintf (t + q, "%d\t%d.5\t-%de1\n", j + mm.base, j, j); fromtxt (K_MGEOM, nm, t); }
    SCOTCH_meshExit (&me); m_exit (&mm);
  }
  fromtxt (K_MESH, "without loads, hand-made", "1\n2\t2\t6\n0\t2\t0\n2\t0\t1\n1\t1\n1\t0\n2\t0\t1\n");
  fromtxt (K_MESH, "labelled, hand-made", "1\n1\t2\t4\n1\t2\t100\n3\t2\t5\t9\n5\t1\t3\n9\t1\t3\n");
}
static void archs (void) {
  ASpec s; int i; A a; char nm[100];
  for (i = 0; a_list (i, &s); i ++) {
    char *o = NULL; size_t l; FILE *f;
    SCOTCH_randomReset (); if (a_make (&a, &s) != 0) continue;
    f = open_memstream (&o, &l); SCOTCH_archSave (&a.arch, f); fclose (f); snprintf (nm, sizeof (nm), "%.90s", a.desc); from (K_ARCH, nm, o, l); free (o); a_exit (&a);
  }
  fromtxt (K_ARCH, "type 0 decomposition", "deco\n0\n3\t5\n0\t1\t2\n1\t2\t6\n2\t1\t7\n1\n2\t1\n");
  fromtxt (K_ARCH, "type 0 decomposition of 4", "deco 0\n4 7\n0 1 4 1 1 5 2 1 6 3 1 7\n1 2 1 2 1 1\n");
  fromtxt (K_ARCH, "term", "term\n");
  fromtxt (K_ARCH, "mesh", "mesh2D 4 3\n");
  fromtxt (K_ARCH, "sub of cmpltw", "sub 2 1 3\ncmpltw 4 1 2 3 4\n");
}
void mc_run (void) {
  archs (); graphs (); habo (); meshes ();
}
