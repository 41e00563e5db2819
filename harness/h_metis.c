/* METIS-compatible calls (C36): ranges, numbering, reported cost, permutations, dual graphs, status, untouched inputs. */
#include "gspace.h"
#include "metis.h"

#define CAT(a,b) a##b
/* Fortran entry points */
typedef const Num *CN;
extern void scotchfmetis_v3_partgraphkway_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *);
extern void scotchfmetis_v3_partgraphrecursive_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *);
extern void scotchfmetis_v3_partgraphvkway_ (CN, CN, CN, CN, CN, CN, CN, CN, CN, Num *, Num *, int *);
extern void scotchfmetis_v5_partgraphkway_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, const double *, CN, Num *, Num *, int *);
extern void scotchfmetis_v5_partgraphrecursive_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, const double *, CN, Num *, Num *, int *);
extern void scotchfmetis_meshtodual_ (CN, CN, CN, CN, CN, CN, Num **, Num **);
extern void scotchfmetis_partmeshdual_ (CN, CN, CN, CN, CN, CN, CN, CN, const double *, CN, Num *, Num *, Num *);

static Num cutof (int n, const Num *ew, const Num *p) { Num c = 0; int i, j; for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (ew[i * n + j] && p[i] != p[j]) c += ew[i * n + j]; return c; }
static Num volof (int n, const Num *ew, const Num *vs, const Num *p) {
  Num v = 0; int i, j, k;
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) if (ew[i * n + j] && p[j] != p[i]) { for (k = 0; k < j; k ++) if (ew[i * n + k] && p[k] == p[j]) break; if (k == j) v += vs ? vs[i] : 1; }
  return v;
}
/* Balance that any sensible partition keeps: checked on larger graphs only */
enum { F_V3K, F_V3R, F_V3V, F_V5K, F_V5R, F_STUBK, F_STUBR, F_STUBV, F_FOR3K, F_FOR3R, F_FOR3V, F_FOR5K, F_FOR5R, F_NBR };
static const char *fnam[] = { "METIS_V3_PartGraphKway", "METIS_V3_PartGraphRecursive", "METIS_V3_PartGraphVKway", "METIS_V5_PartGraphKway", "METIS_V5_PartGraphRecursive", "METIS_PartGraphKway", "METIS_PartGraphRecursive", "METIS_PartGraphVKway",
  "Fortran v3 kway", "Fortran v3 recursive", "Fortran v3 vkway", "Fortran v5 kway", "Fortran v5 recursive" };
static double twmax;                                      /* largest target weight fraction */

static void part (const G *g, int f, Num np, int wf, int vsk, int tw, int ub, int large) {
  int n = g->n, i, v3 = (f <= F_V3V || (f >= F_FOR3K && f <= F_FOR3V)), vol = f == F_V3V || f == F_STUBV || f == F_FOR3V, o, rev = 77, useop = 1;
  Num nn = n, nc = 1, fl = wf, ba = g->base, op[METIS_NOPTIONS], p[600], q[600], vs[600], cut = -77, ref, ops[METIS_NOPTIONS]; double tp[20], ubv[1] = { 0.05 }, tps[20]; const Num *vw = g->velo, *aw = g->edlo, *vp; u64 h = g_hash (g);
  if (METISV == 3 && f >= F_STUBK && f <= F_STUBV) v3 = 1;
  if (METISV == 5 && f == F_STUBV) return;
  for (i = 0; i < n; i ++) vs[i] = 1 + (i * 3 + 1) % 5;
  SCOTCH_METIS_SetDefaultOptions (op); op[METIS_OPTION_NUMBERING] = ba; memcpy (ops, op, sizeof (op));
  if (ba == 0 && wf % 2) useop = 0;
  { double s = 0; for (i = 0; i < np; i ++) s += tp[i] = tw == 1 ? 1 : i + 1; for (i = 0; i < np; i ++) tp[i] /= s; memcpy (tps, tp, sizeof (tp)); }
  vp = vsk ? vs : NULL;
  for (i = 0; i < 600; i ++) p[i] = q[i] = -9;
  SCOTCH_randomReset (); mc_errreset (); mc_ops (1);
#define A3 &nn, g->vert, g->edge, vw, vol ? (vsk ? vs : NULL) : aw, &fl, &ba, &np, op, &cut, p
#define A5 &nn, &nc, g->vert, g->edge, vw, vp, aw, &np, tw ? tp : NULL, ub ? ubv : NULL, useop ? op : NULL, &cut, p
  switch (f) {
    case F_V3K: o = SCOTCH_METIS_V3_PartGraphKway (A3); break;
    case F_V3R: o = SCOTCH_METIS_V3_PartGraphRecursive (A3); break;
    case F_V3V: o = SCOTCH_METIS_V3_PartGraphVKway (A3); break;
    case F_V5K: o = SCOTCH_METIS_V5_PartGraphKway (A5); break;
    case F_V5R: o = SCOTCH_METIS_V5_PartGraphRecursive (A5); break;
#if METISV == 3
    case F_STUBK: o = METIS_PartGraphKway (A3); break;
    case F_STUBR: o = METIS_PartGraphRecursive (A3); break;
    case F_STUBV: o = METIS_PartGraphVKway (A3); break;
#else
    case F_STUBK: o = METIS_PartGraphKway (A5); break;
    case F_STUBR: o = METIS_PartGraphRecursive (A5); break;
#endif
    case F_FOR3K: scotchfmetis_v3_partgraphkway_ (A3, &rev); o = rev; break;
    case F_FOR3R: scotchfmetis_v3_partgraphrecursive_ (A3, &rev); o = rev; break;
    case F_FOR3V: scotchfmetis_v3_partgraphvkway_ (A3, &rev); o = rev; break;
    case F_FOR5K: scotchfmetis_v5_partgraphkway_ (A5, &rev); o = rev; break;
    case F_FOR5R: scotchfmetis_v5_partgraphrecursive_ (A5, &rev); o = rev; break;
    default: return;
  }
  if (o != METIS_OK) { mc_fail ("%s returns %d on a valid request", fnam[f], o); return; }
  if (v3) { if (! (wf & 2)) vw = NULL; if (! (wf & 1)) { aw = NULL; vp = NULL; } }
  for (i = 0; i < n; i ++) { q[i] = p[i]; if (p[i] < ba || p[i] >= ba + np) { mc_fail ("%s: vertex %d is in part %ld, not in [%ld,%ld]", fnam[f], i, (long) p[i], (long) ba, (long) (ba + np - 1)); return; } }
  if (p[n] != -9) mc_fail ("%s: writes after the end of the part array", fnam[f]);
  if (vol || (! v3 && vp != NULL)) ref = volof (n, g->ew, vp, p);
  else { Num *e = malloc ((n * n + 1) * sizeof (Num)); for (i = 0; i < n * n; i ++) e[i] = g->ew[i] ? (aw ? g->ew[i] : 1) : 0; ref = cutof (n, e, p); free (e); }
  if (cut != ref) mc_fail ("%s: reports a cost of %ld, which is %ld for %s", fnam[f], (long) cut, (long) ref, arr_str (p, n));
  if (! g_same (g) || g_hash (g) != h) mc_fail ("%s: modified the graph arrays", fnam[f]);
  if (nn != n || nc != 1 || fl != wf || ba != g->base || memcmp (op, ops, sizeof (op)) || memcmp (tp, tps, np * sizeof (double))) mc_fail ("%s: modified its arguments", fnam[f]);
  for (i = 0; i < n; i ++) if (vs[i] != 1 + (i * 3 + 1) % 5) mc_fail ("%s: modified the communication sizes", fnam[f]);
  if (large) {                                            /* the requested target weights are followed on graphs that are easy to balance */
    Num ld[20] = { 0 }, tot = 0; for (i = 0; i < n; i ++) { Num w = vw ? g->w[i] : 1; ld[p[i] - ba] += w; tot += w; }
    for (i = 0; i < np; i ++) { double want = (tw && ! v3 ? tps[i] : 1.0 / np) * tot; if (ld[i] > want * 1.25 + 4 || ld[i] < want * 0.75 - 4) mc_fail ("%s: part %d holds %ld out of %ld, %g wanted", fnam[f], i, (long) ld[i], (long) tot, want); }
  }
  if (cut > 0) mc_nontrivial ();
  mc_state (mc_hash (f * 100 + np, p, n * sizeof (Num)) ^ g->hash);
}
static void order (const G *g) {
  int n = g->n, i, k, o; Num nn = n, ba = g->base, op[METIS_NOPTIONS] = { 0 }, p[600], ip[600]; u64 h = g_hash (g);
  op[METIS_OPTION_NUMBERING] = ba;
  for (k = 0; k < 6; k ++) {
    for (i = 0; i < 600; i ++) p[i] = ip[i] = -9;
    SCOTCH_randomReset (); mc_ops (1);
    switch (k) {
      case 0: o = SCOTCH_METIS_V3_EdgeND (&nn, g->vert, g->edge, &ba, op, p, ip); break;
      case 1: o = SCOTCH_METIS_V3_NodeND (&nn, g->vert, g->edge, &ba, op, p, ip); break;
      case 2: o = SCOTCH_METIS_V3_NodeWND (&nn, g->vert, g->edge, g->velo, &ba, op, p, ip); break;
      case 3: o = SCOTCH_METIS_V5_NodeND (&nn, g->vert, g->edge, g->velo, ba ? op : NULL, p, ip); break;
#if METISV == 3
      case 4: o = METIS_NodeWND (&nn, g->vert, g->edge, g->velo, &ba, op, p, ip); break;
      default: o = METIS_EdgeND (&nn, g->vert, g->edge, &ba, op, p, ip); break;
#else
      default: o = METIS_NodeND (&nn, g->vert, g->edge, g->velo, op, p, ip); break;
#endif
    }
    if (o != METIS_OK) { mc_fail ("ordering %d returns %d", k, o); return; }
    for (i = 0; i < n; i ++) {
      if (p[i] < ba || p[i] >= ba + n || ip[i] < ba || ip[i] >= ba + n) { mc_fail ("ordering %d: index out of range: perm %s", k, arr_str (p, n)); return; }
    }
    for (i = 0; i < n; i ++) if (ip[p[i] - ba] != i + ba || p[ip[i] - ba] != i + ba) { mc_fail ("ordering %d: perm and iperm are not inverse of each other", k); return; }
    if (p[n] != -9 || ip[n] != -9) mc_fail ("ordering %d: writes after the end of arrays", k);
    if (! g_same (g) || g_hash (g) != h) mc_fail ("ordering %d: modified the graph arrays", k);
    /* METIS: perm holds original indices of reordered vertices, the inverse permutation of Scotch */
    { SCOTCH_Graph gr; SCOTCH_Strat s; Num sp[600], si[600]; SCOTCH_graphInit (&gr); SCOTCH_stratInit (&s); SCOTCH_randomReset ();
      if (SCOTCH_graphBuild (&gr, ba, n, g->vert, NULL, k == 2 || k == 3 || (METISV == 5 && k >= 4) || (METISV == 3 && k == 4) ? g->velo : NULL, NULL, g->m, g->edge, NULL) == 0 && SCOTCH_graphOrder (&gr, &s, sp, si, NULL, NULL, NULL) == 0 && (memcmp (si, p, n * sizeof (Num)) || memcmp (sp, ip, n * sizeof (Num)))) mc_fail ("ordering %d: perm is %s, the library ordering is %s", k, arr_str (p, n), arr_str (si, n));
      SCOTCH_graphExit (&gr); SCOTCH_stratExit (&s); }
    mc_state (mc_hash (k, p, n * sizeof (Num)) ^ g->hash);
  }
  mc_nontrivial ();
}
/* invalid graphs are refused by all calls, with the documented status */
static void refuse (const G *g0) {
  Num e[60], v[20], vert[12], nn, ba, np = 2, fl = 0, cut, p[20], ip[20]; int i, k, x; const G *g = g0;
  for (i = 0; i <= g->n; i ++) vert[i] = g->vert[i];
  for (i = 0; i < g->m; i ++) for (k = 0; k < 4; k ++) {
    int src, j, bad = 0; Num c[30][30] = { { 0 } };
    for (j = 0; j < g->m; j ++) e[j] = g->edge[j];
    e[i] = k == 0 ? g->base - 1 : k == 1 ? g->base + g->n : k == 2 ? g->base : g->base + g->n - 1;
    for (src = 0; src < g->n; src ++) for (j = vert[src] - g->base; j < vert[src + 1] - g->base; j ++) { int t = e[j] - g->base; if (t < 0 || t >= g->n || t == src) bad = 1; else c[src][t] ++; }
    for (src = 0; src < g->n; src ++) for (j = 0; j < g->n; j ++) if (c[src][j] > 1 || c[src][j] != c[j][src]) bad = 1;
    if (! bad) continue;
    nn = g->n; ba = g->base;
    for (x = 0; x < 6; x ++) {
      int o; Num op[METIS_NOPTIONS] = { 0 }, nc = 1; op[METIS_OPTION_NUMBERING] = ba; cut = 5; mc_ops (1);
      switch (x) { case 0: o = SCOTCH_METIS_V3_PartGraphKway (&nn, vert, e, NULL, NULL, &fl, &ba, &np, op, &cut, p); break; case 1: o = SCOTCH_METIS_V3_PartGraphRecursive (&nn, vert, e, NULL, NULL, &fl, &ba, &np, op, &cut, p); break;
        case 2: o = SCOTCH_METIS_V3_PartGraphVKway (&nn, vert, e, NULL, NULL, &fl, &ba, &np, op, &cut, p); break; case 3: o = SCOTCH_METIS_V5_PartGraphKway (&nn, &nc, vert, e, NULL, NULL, NULL, &np, NULL, NULL, op, &cut, p); break;
        case 4: o = SCOTCH_METIS_V3_NodeND (&nn, vert, e, &ba, op, p, ip); break; default: o = SCOTCH_METIS_V5_NodeND (&nn, vert, e, NULL, op, p, ip); break; }
      if (o == METIS_OK || o >= 0) { mc_fail ("call %d accepts, with status %d, edge array %s", x, o, arr_str (e, g->m)); return; }
    }
    mc_nontrivial (); mc_state (mc_hash (9, e, g->m * sizeof (Num)));
  }
}
static void mesh (int ne, int nn, const unsigned char *inc, int base, int var) {
  Num eptr[70], eind[600], eptr2[70], eind2[600], *xa, *ad, nce, ba = base, nne = ne, nnn = nn, ep[70], npp[200], obj, np, op[METIS_NOPTIONS]; int i, j, k, v, m = 0, o; Num *ew = calloc (ne * ne + 1, sizeof (Num)), vs[70], vw[70];
  for (i = 0; i < ne; i ++) { eptr[i] = m + base; for (v = 0; v < nn; v ++) { int w = var & 1 ? nn - 1 - v : v; if (inc[i * nn + w]) eind[m ++] = w + base; } vs[i] = 1 + i % 4; vw[i] = 1 + i % 3; } eptr[ne] = m + base;
  memcpy (eptr2, eptr, sizeof (eptr)); memcpy (eind2, eind, sizeof (eind));
  for (nce = 1; nce <= 3; nce ++) {
    for (i = 0; i < ne; i ++) for (j = 0; j < ne; j ++) { int c = 0, di = -1, dj = -1, mn; for (v = 0; v < nn; v ++) { c += inc[i * nn + v] && inc[j * nn + v]; di += inc[i * nn + v]; dj += inc[j * nn + v]; } mn = di < dj ? di : dj; if (nce < mn) mn = nce; ew[i * ne + j] = i != j && c >= 1 && c >= mn; }   /* as METIS does, the threshold never exceeds the size of an element minus one */
    xa = ad = (Num *) 1; mc_errreset (); mc_ops (1);
    if (var & 2) { scotchfmetis_meshtodual_ (&nne, &nnn, eptr, eind, &nce, &ba, &xa, &ad); o = xa ? METIS_OK : METIS_ERROR; }
    else if (var & 4) o = METIS_MeshToDual (&nne, &nnn, eptr, eind, &nce, &ba, &xa, &ad); else o = SCOTCH_METIS_MeshToDual (&nne, &nnn, eptr, eind, &nce, &ba, &xa, &ad);
    if (o != METIS_OK) { mc_fail ("METIS_MeshToDual returns %d", o); break; }
    { Num *got = calloc (ne * ne + 1, sizeof (Num)); int bad = xa[0] != base;
      for (i = 0; i < ne && ! bad; i ++) { if (xa[i + 1] < xa[i]) bad = 1; else for (k = xa[i] - base; k < xa[i + 1] - base; k ++) { Num t = ad[k] - base; if (t < 0 || t >= ne) bad = 1; else got[i * ne + t] ++; } }
      if (bad) mc_fail ("METIS_MeshToDual: invalid arrays"); else for (i = 0; i < ne * ne; i ++) if (got[i] != ew[i]) { mc_fail ("METIS_MeshToDual, %ld common nodes: %ld arcs instead of %ld from element %d to %d", (long) nce, (long) got[i], (long) ew[i], i / ne, i % ne); break; }
      free (got); }
    free (xa); free (ad);
    for (np = 1; np <= 4; np ++) for (k = 0; k < 6 && ! mc_failed (); k ++) { double tp[8]; const Num *vsp = k == 1 || k == 3 ? vs : NULL, *vwp = k == 2 || k == 3 ? vw : NULL; int usevol = k == 4, usetp = k == 5; Num ref, bv; double s = 0;
      if (k > 1 && (np + nce) % 2) continue;
      memset (op, 0, sizeof (op)); SCOTCH_METIS_SetDefaultOptions (op); op[METIS_OPTION_NUMBERING] = base; if (usevol) op[METIS_OPTION_OBJTYPE] = METIS_OBJTYPE_VOL;
      for (i = 0; i < np; i ++) s += tp[i] = i + 1; for (i = 0; i < np; i ++) tp[i] /= s;
      for (i = 0; i < 70; i ++) ep[i] = -9; for (i = 0; i < 200; i ++) npp[i] = -9;
      SCOTCH_randomReset (); obj = -77; mc_ops (1);
      if (var & 2) { scotchfmetis_partmeshdual_ (&nne, &nnn, eptr, eind, vwp ? vwp : (np % 2) ? &nne : NULL, vsp ? vsp : (np % 2) ? NULL : &nne, &nce, &np, usetp ? tp : NULL, base || usevol ? op : &nne, &obj, ep, npp); o = obj < 0 ? obj : METIS_OK; }
      else o = (var & 4 ? METIS_PartMeshDual : SCOTCH_METIS_PartMeshDual) (&nne, &nnn, eptr, eind, vwp, vsp, &nce, &np, usetp ? tp : NULL, base || usevol ? op : NULL, &obj, ep, npp);
      if (o != METIS_OK) { mc_fail ("METIS_PartMeshDual returns %d", o); break; }
      for (i = 0; i < ne; i ++) if (ep[i] < base || ep[i] >= base + np) { mc_fail ("element %d in part %ld of %ld", i, (long) ep[i], (long) np); break; }
      for (v = 0; v < nn; v ++) { int iso = 1, ok = 0; for (i = 0; i < ne; i ++) if (inc[i * nn + v]) { iso = 0; ok |= ep[i] == npp[v]; }
        if (npp[v] < base || npp[v] >= base + np) { mc_fail ("node %d in part %ld, not in [%d,%ld]", v, (long) npp[v], base, (long) (base + np - 1)); break; }
        if (! iso && ! ok) { mc_fail ("node %d in part %ld, which holds none of its elements", v, (long) npp[v]); break; } }
      if (ep[ne] != -9 || npp[nn] != -9) mc_fail ("METIS_PartMeshDual writes after the end of arrays");
      if (mc_failed ()) break;
      ref = vsp || usevol ? volof (ne, ew, vsp, ep) : cutof (ne, ew, ep);
      if (obj != ref) mc_fail ("METIS_PartMeshDual reports %ld, not %ld", (long) obj, (long) ref);
      if (ref) mc_nontrivial ();
      mc_state (mc_hash (np * 10 + k, ep, ne * sizeof (Num)) ^ mc_hash (nce, eind, m * sizeof (Num)));
    }
    if (memcmp (eptr, eptr2, sizeof (eptr)) || memcmp (eind, eind2, sizeof (eind))) mc_fail ("mesh arrays modified");
    if (mc_failed ()) break;
  }
  /* invalid requests */
  if (m > 0 && ! mc_failed ()) { Num kp = eind[m - 1]; static const int dv[] = { -1, 0, 1, 5 }; double tp[2] = { 0.5, 0.4 };
    nce = 1; np = 2; memset (op, 0, sizeof (op)); op[METIS_OPTION_NUMBERING] = base; op[METIS_OPTION_OBJTYPE] = METIS_OBJTYPE_CUT;
    for (i = 0; i < 4; i ++) { eind[m - 1] = i == 0 ? base - 1 : base + nn + dv[i]; xa = (Num *) 1; ad = NULL; mc_ops (2);
      o = SCOTCH_METIS_MeshToDual (&nne, &nnn, eptr, eind, &nce, &ba, &xa, &ad); if (o != METIS_ERROR_INPUT || xa != NULL) { mc_fail ("METIS_MeshToDual: node number %ld out of range gives status %d", (long) eind[m - 1], o); break; }
      obj = 5; o = SCOTCH_METIS_PartMeshDual (&nne, &nnn, eptr, eind, NULL, NULL, &nce, &np, NULL, op, &obj, ep, npp); if (o != METIS_ERROR_INPUT || obj != METIS_ERROR_INPUT) { mc_fail ("METIS_PartMeshDual: node number %ld out of range gives status %d", (long) eind[m - 1], o); break; } }
    eind[m - 1] = kp;
    obj = 5; o = SCOTCH_METIS_PartMeshDual (&nne, &nnn, eptr, eind, NULL, NULL, &nce, &np, tp, op, &obj, ep, npp); if (o != METIS_ERROR_INPUT || obj != METIS_ERROR_INPUT) mc_fail ("METIS_PartMeshDual: target weights that do not sum up to one give status %d", o);
  }
  free (ew);
}
static int cnt;
static void dograph (const Shape *s, int all, int large) {
  int base, vk, ek, f, np, x = 0; G g; memset (&g, 0, sizeof (g));
  for (base = 0; base < 2; base ++) for (vk = 0; vk < 2; vk ++) for (ek = 0; ek < 2; ek ++) {
    cnt ++; if (! all && (cnt % 8) != base * 4 + vk * 2 + ek) continue;
    if (mc_skip ()) continue;
    g_make (&g, s, base, 0, vk, ek, 0);
    if (mc_case ("METIS partitions of %s", g.desc)) {
      for (f = 0; f < F_NBR && ! mc_failed (); f ++) for (np = 1; np <= (large ? 8 : 4) && ! mc_failed (); np ++) {
        int v5 = f == F_V5K || f == F_V5R || f >= F_FOR5K || (METISV == 5 && (f == F_STUBK || f == F_STUBR));
        x ++;
        if (! v5) { int w; for (w = 0; w < 4; w ++) if (all || (w + x) % 2) part (&g, f, np, w, 1, 0, 0, large); }
        else { int w; for (w = 0; w < 12 && ! mc_failed (); w ++) if ((w + x) % (all ? 2 : 4) == 0) part (&g, f, np, w & 1, w >> 1 & 1, w % 3, w >> 1 & 1 ? 0 : 1, large); }
      }
    }
  }
}
void mc_run (void) {
  Shape s; G g; int n, k, base; u64 m, mm; sh_init (&s); memset (&g, 0, sizeof (g));
  for (n = 1; n <= 5; n ++) for (m = 0; m < (1ULL << sh_maskbits (n)); m ++) {
    sh_mask (&s, n, m); dograph (&s, n <= 3 || (mc_thorough && n <= 4), 0);
    for (base = 0; base < 2; base ++) for (k = 0; k < 2; k ++) { if (n > 4 && ! mc_thorough && ((m + base * 2 + k) % 4)) continue; if (mc_skip ()) continue; g_make (&g, &s, base, 0, k, 0, 0); if (mc_case ("METIS orderings of %s", g.desc)) order (&g); }
    if (n <= 3 || (n == 4 && m % (mc_thorough ? 1 : 3) == 0)) for (base = 0; base < 2; base ++) { g_make (&g, &s, base, 0, 0, 0, 0); if (mc_case ("invalid variants of %s", g.desc)) refuse (&g); }
  }
  for (n = 6; n <= 7; n ++) for (k = 0; sh_atlas (&s, n, k); k ++) { if (! mc_thorough && k % 3) continue; dograph (&s, 0, 0); if (mc_skip ()) continue; g_make (&g, &s, k & 1, 0, k >> 1 & 1, 0, 0); if (mc_case ("METIS orderings of %s", g.desc)) order (&g); }
  sh_reset (&s, 240, "grid20x12"); sh_grid2 (&s, 20, 12, 0, 0); dograph (&s, 1, 1);
  sh_reset (&s, 96, "torus12x8"); sh_grid2 (&s, 12, 8, 1, 0); dograph (&s, 1, 1);
  for (k = 0; sh_family (&s, k, 0); k ++) { if (s.n < 590) { dograph (&s, 0, 0); if (mc_skip ()) continue; g_make (&g, &s, k & 1, 0, k >> 1 & 1, 0, 0); if (mc_case ("METIS orderings of %s", g.desc)) order (&g); } }
  { static const int dims[][2] = { { 1, 1 }, { 1, 3 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 3, 3 }, { 2, 4 }, { 4, 2 }, { 3, 4 }, { 4, 3 } }; int d, i, var = 0; unsigned char inc[400];
    for (d = 0; d < 10; d ++) { int ne = dims[d][0], nn = dims[d][1], b = ne * nn; for (mm = 0; mm < (1ULL << b); mm ++) for (base = 0; base < 2; base ++) { if (b > 9 && ! mc_thorough && mm % 7) continue; var ++; if (mc_skip ()) continue; for (i = 0; i < b; i ++) inc[i] = mm >> i & 1; if (mc_case ("mesh of %d elements and %d nodes, incidence %llx, base %d, variant %d", ne, nn, mm, base, (var + var / 2) % 8)) mesh (ne, nn, inc, base, (var + var / 2) % 8); } }
    for (d = 2; d <= 6; d ++) for (base = 0; base < 2; base ++) { int ne = d * d, nn = (d + 1) * (d + 1); unsigned char *q = calloc (ne, nn); for (i = 0; i < ne; i ++) { int r = i / d, c = i % d; q[i * nn + r * (d + 1) + c] = q[i * nn + r * (d + 1) + c + 1] = q[i * nn + (r + 1) * (d + 1) + c] = q[i * nn + (r + 1) * (d + 1) + c + 1] = 1; } for (i = 0; i < 8; i ++) if (mc_case ("grid mesh %dx%d base %d variant %d", d, d, base, i)) mesh (ne, nn, q, base, i); free (q); } }
  sh_exit (&s);
}
