/* Gain tables, Fibonacci heaps and sorts (C40): all operation sequences up to a depth against a plain reference. */
#include "mc.h"
#include "module.h"
#include "common.h"
#include "gain.h"
#include "fibo.h"
#undef malloc
#undef free

/* ---- gain tables ---- */
#define GMAX 6
typedef struct { GainLink lnk; INT gain; int in, id; } GE;
static INT bucket (INT g, int lin, int sub) {                 /* gains that the table may confuse have the same value here */
  INT m, i; int neg = g < 0;
  if (lin) return g < -GAIN_LINMAX ? -GAIN_LINMAX : g > GAIN_LINMAX - 1 ? GAIN_LINMAX - 1 : g;
  m = neg ? - (g + 1) : g; for (i = 0; (m >> i) >= ((INT) 1 << (sub + 1)); i ++) ; m = (m >> i) << i;
  return neg ? - m - 1 : m;
}
static const char *gaincheck (GainTabl *t, GE *e, int n, int lin, int sub, int frstonly) {
  GE *p; int i, cnt = 0, nin = 0, seen[GMAX] = { 0 }; INT best = 0, last = 0; static char msg[200];
  for (i = 0; i < n; i ++) if (e[i].in) { INT b = bucket (e[i].gain, lin, sub); if (! nin ++ || b < best) best = b; }
  p = (GE *) gainTablFrst (t);
  if (! nin) return p ? "empty table yields an element" : NULL;
  if (p == NULL) return "no element although some remain";
  if (p < e || p >= e + n || ! p->in) return "first element is not in the table";
  if (bucket (p->gain, lin, sub) != best) { sprintf (msg, "first element has gain %ld, not %ld", (long) p->gain, (long) best); return msg; }
  if (frstonly) return NULL;
  for (last = best; p != NULL; p = (GE *) gainTablNext (t, &p->lnk)) {
    if (p < e || p >= e + n || ! p->in) return "iteration yields an element that is not in the table";
    if (seen[p - e] ++) return "iteration yields an element twice";
    if (bucket (p->gain, lin, sub) < last) return "iteration is not in order";
    last = bucket (p->gain, lin, sub); cnt ++;
  }
  if (cnt != nin) { sprintf (msg, "iteration yields %d elements out of %d", cnt, nin); return msg; }
  return NULL;
}
static int ngain; static const INT *gains; static int gn, gdepth, glin, gsub;
static int gops (int d, int *op, const char **err) {           /* replays op[0..d-1] on a fresh table; -1: sequence not allowed */
  GainTabl *t = gainTablInit (glin ? 100 : GAIN_LINMAX, gsub); GE area[2 * GMAX], *e = area; int i, k, r = 0; memset (area, 0, sizeof (area)); *err = NULL;
  for (i = 0; i < GMAX; i ++) e[i].id = i;
  if (t == NULL) { *err = "table not created"; return 0; }
  for (i = 0; i < d && r == 0; i ++) {
    k = op[i];
    if (k < gn * ngain) { GE *x = e + k / ngain; if (x->in) { gainTablDel (t, &x->lnk); } x->gain = gains[k % ngain]; gainTablAdd (t, &x->lnk, x->gain); x->in = 1; }
    else if ((k -= gn * ngain) < gn) { GE *x = e + k; if (! x->in) r = -1; else { gainTablDel (t, &x->lnk); x->in = 0; } }
    else if ((k -= gn) == 0) { int j; gainTablFree (t); for (j = 0; j < gn; j ++) e[j].in = 0; if (i == 0) r = -1; }
    else if (k == 1) { GE *x; int j; ptrdiff_t dlt; x = e == area ? area + GMAX : area; memcpy (x, e, GMAX * sizeof (GE)); dlt = (char *) x - (char *) e; memset (e, 0xA5, GMAX * sizeof (GE)); e = x; for (j = 0; j < GMAX; j ++) ; gainTablMove (t, dlt); if (i == 0 || op[i - 1] == op[i]) r = -1; }
    else { const char *m = gaincheck (t, e, gn, glin, gsub, 1); if (m && ! *err) *err = m; if (i == 0 || op[i - 1] == op[i]) r = -1; }
  }
  if (r == 0 && *err == NULL) { *err = gaincheck (t, e, gn, glin, gsub, 0);
    if (*err == NULL) { GE *x; int left = 0; for (i = 0; i < gn; i ++) left += e[i].in;             /* drain */
      while ((x = (GE *) gainTablFrst (t)) != NULL) { *err = gaincheck (t, e, gn, glin, gsub, 0); if (*err || ! left) break; gainTablDel (t, &x->lnk); x->in = 0; left --; }
      if (*err == NULL && left) *err = "elements lost"; } }
  gainTablExit (t);
  return r;
}
static void gainseq (int d, int *op, int nop) {
  int k; const char *err; char buf[300];
  for (k = 0; k < nop; k ++) {
    op[d] = k;
    if (gops (d + 1, op, &err) != 0) continue;
    mc_ops (1); { u64 h = glin * 7 + gsub; int i; for (i = 0; i <= d; i ++) h = mc_hashi (h, op[i]); mc_state (h); }
    if (err != NULL) { int i, l = 0; for (i = 0; i <= d; i ++) l += sprintf (buf + l, " %d", op[i]); mc_fail ("%s after operations%s", err, buf); return; }
    if (d + 1 < gdepth) { gainseq (d + 1, op, nop); if (mc_failed ()) return; }
  }
}
static void gain_all (void) {
  static const INT g1[] = { -2000, -1, 0, 1022, 1023, 5000 }, g2[] = { -70000, -9, -8, 0, 3, 17, 100000 }, g3[] = { -3, 0, 2 }; int f, a, op[12], nop;
  static const struct { const INT *g; int ng, n, lin, sub, depth; } t[] = { { g1, 6, 3, 1, 0, 4 }, { g2, 7, 3, 0, 0, 4 }, { g2, 7, 3, 0, 2, 4 }, { g3, 3, 5, 1, 0, 5 }, { g3, 3, 4, 0, 1, 5 }, { g1, 6, 2, 0, 1, 5 }, { g2, 7, 2, 1, 0, 5 } };
  for (f = 0; f < 7; f ++) { gains = t[f].g; ngain = t[f].ng; gn = t[f].n; glin = t[f].lin; gsub = t[f].sub; gdepth = t[f].depth + mc_thorough; nop = gn * ngain + gn + 3;
    for (a = 0; a < gn * ngain; a ++) if (mc_case ("gain table %s sub-bits %d, %d elements, %d gains, first insertion %d, all sequences of %d operations", glin ? "linear" : "logarithmic", gsub, gn, ngain, a, gdepth)) {
      const char *err; op[0] = a; if (gops (1, op, &err) == 0 && err) mc_fail ("%s after one insertion", err); else gainseq (1, op, nop); mc_nontrivial (); }
  }
}
/* ---- Fibonacci heaps ---- */
typedef struct { FiboNode nod; int key, in; } FE;
static int fcmp (const FiboNode *a, const FiboNode *b) { const FE *x = (const FE *) a, *y = (const FE *) b; return x->key < y->key ? -1 : x->key > y->key ? 1 : 0; }
static int fn0, fmaxkey, fdepth; static int finit[12], fpre;
#define FMAX 12
static int refmin (FE *e, int n) { int i, m = -1; for (i = 0; i < n; i ++) if (e[i].in && (m < 0 || e[i].key < m)) m = e[i].key; return m; }
static const char *heapmin (FiboHeap *t, FE *e, int n, FE **out) {
  FE *p = (FE *) fiboHeapMin (t); int m = refmin (e, n); *out = p;
  if (m < 0) return p ? "empty heap yields an element" : NULL;
  if (! p) return "no element although some remain";
  if (p < e || p >= e + n || ! p->in) return "minimum is not in the heap";
  return p->key != m ? "returned element is not of least key" : NULL;
}
static int fops (int d, int *op, const char **err) {
  FiboHeap h, *treeptr = &h; FE e[FMAX], *x; int i, r = 0, k; memset (e, 0, sizeof (e)); *err = NULL;
  if (fiboHeapInit (treeptr, fcmp) != 0) { *err = "heap not created"; return 0; }
  for (i = 0; i < fn0; i ++) { e[i].key = finit[i]; e[i].in = 1; fiboHeapAdd (treeptr, &e[i].nod); }
  if (fpre) { *err = heapmin (treeptr, e, FMAX, &x); for (i = 1; i < fpre && x && ! *err; i ++) { fiboHeapDel (treeptr, &x->nod); x->in = 0; *err = heapmin (treeptr, e, FMAX, &x); } }
  for (i = 0; i < d && r == 0 && *err == NULL; i ++) {
    k = op[i];
    if (k < fn0) { FiboNode *nodeptr = &e[k].nod; if (! e[k].in || e[k].key <= 1) r = -1; else { e[k].key -= 2; fiboHeapDecrease (treeptr, nodeptr); } }
    else if ((k -= fn0) < fn0) { if (! e[k].in) r = -1; else { fiboHeapDel (treeptr, &e[k].nod); e[k].in = 0; } }
    else if ((k -= fn0) < fn0) { if (e[k].in) r = -1; else { e[k].key = (e[k].key * 3 + 1) % (fmaxkey + 1); e[k].in = 1; fiboHeapAdd (treeptr, &e[k].nod); } }
    else if (k - fn0 == 0) { if (i && op[i - 1] == op[i]) r = -1; *err = heapmin (treeptr, e, FMAX, &x); }
    else { *err = heapmin (treeptr, e, FMAX, &x); if (x == NULL) r = -1; else if (! *err) { fiboHeapDel (treeptr, &x->nod); x->in = 0; } }
  }
  if (r == 0 && *err == NULL) { int left = 0, last = -1; for (i = 0; i < FMAX; i ++) left += e[i].in;
    while (left >= 0) { *err = heapmin (treeptr, e, FMAX, &x); if (*err || ! x) break; if (x->key < last) { *err = "elements do not come in order"; break; } last = x->key; fiboHeapDel (treeptr, &x->nod); x->in = 0; left --; }
    if (! *err && left) *err = "elements lost";
    if (! *err) { for (i = 0; i < 3; i ++) { e[i].in = 1; fiboHeapAdd (treeptr, &e[i].nod); } fiboHeapFree (treeptr); if (fiboHeapMin (treeptr) != NULL) *err = "flushed heap is not empty"; } }
  fiboHeapExit (treeptr);
  return r;
}
static void fiboseq (int d, int *op, int nop) {
  int k; const char *err; char buf[300];
  for (k = 0; k < nop; k ++) {
    op[d] = k;
    if (fops (d + 1, op, &err) != 0) continue;
    mc_ops (1); { u64 h = 99; int i; for (i = 0; i <= d; i ++) h = mc_hashi (h, op[i]); for (i = 0; i < fn0; i ++) h = mc_hashi (h, finit[i]); mc_state (h); }
    if (err != NULL) { int i, l = 0; for (i = 0; i <= d; i ++) l += sprintf (buf + l, " %d", op[i]); mc_fail ("%s after operations%s", err, buf); return; }
    if (d + 1 < fdepth) { fiboseq (d + 1, op, nop); if (mc_failed ()) return; }
  }
}
static void fibo_all (void) {
  int n, pat, i, op[12]; u64 x;
  for (n = 1; n <= (mc_thorough ? 12 : 10); n ++) for (pat = 0; pat < (n <= 4 ? 256 : 24); pat ++) for (fpre = 0; fpre <= (n > 2 ? 2 : 1); fpre ++) {
    if (mc_skip ()) continue;
    fn0 = n; fmaxkey = 9; fdepth = n <= 3 ? 4 : 3; if (mc_thorough) fdepth ++;
    for (i = 0, x = pat; i < n; i ++) finit[i] = n <= 4 ? (x & 3) * 2 + (i & 1) : (int) ((i * (pat % 5 + 1) + pat / 5) * 7 % (11 + pat % 3) % 10), x >>= 2;
    if (mc_case ("heap of %d elements, key pattern %d, %d extractions first, all sequences of %d operations", n, pat, fpre, fdepth)) { fiboseq (0, op, 3 * n + 2); mc_nontrivial (); }
  }
}
/* ---- sorts ---- */
static int sorted (const INT *a, int i, int w, int k) { if (a[i * w] != a[(i + 1) * w]) return a[i * w] < a[(i + 1) * w]; return k < 2 || a[i * w + 1] <= a[(i + 1) * w + 1]; }
static int cmp3 (const void *p, const void *q) { const INT *a = p, *b = q; int i; for (i = 0; i < 3; i ++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static void sort1 (const INT *key, const INT *key2, int n, int which) {
  static const int W[] = { 1, 2, 2, 3, 3, 2 }, K[] = { 1, 1, 2, 1, 2, 0 }; static const char *nm[] = { "intSort1asc1", "intSort2asc1", "intSort2asc2", "intSort3asc1", "intSort3asc2", "intPsort2asc1" };
  static INT a[3 * 700 + 2], b[3 * 700], c[3 * 700]; int w = W[which], i, j; u64 h = which;
  for (i = 0; i < n; i ++) { a[1 + i * w] = key[i]; if (w > 1) a[1 + i * w + 1] = K[which] == 2 ? key2[i] : i; if (w > 2) a[1 + i * w + 2] = i; }
  for (i = 0; i < n; i ++) for (j = 0; j < 3; j ++) b[3 * i + j] = j < w ? a[1 + i * w + j] : 0;
  a[0] = a[1 + n * w] = 424242;
  switch (which) { case 0: intSort1asc1 (a + 1, n); break; case 1: intSort2asc1 (a + 1, n); break; case 2: intSort2asc2 (a + 1, n); break; case 3: intSort3asc1 (a + 1, n); break; case 4: intSort3asc2 (a + 1, n); break; default: intPsort2asc1 (a + 1, n, 3); }
  mc_ops (1);
  if (a[0] != 424242 || a[1 + n * w] != 424242) { mc_fail ("%s writes outside its array", nm[which]); return; }
  if (K[which]) { for (i = 0; i < n - 1; i ++) if (! sorted (a + 1, i, w, K[which])) { mc_fail ("%s of %d items: not in order at %d", nm[which], n, i); return; } }
  else if (n > 6) { INT mx = a[1]; int ok = 0; for (i = 0; i < n - 1; i ++) { INT mn = a[1 + (i + 1) * w]; if (a[1 + i * w] > mx) mx = a[1 + i * w]; for (j = i + 1; j < n; j ++) if (a[1 + j * w] < mn) mn = a[1 + j * w]; if (mx <= mn) { ok = 1; break; } } if (! ok) { mc_fail ("partial sort does not split the array"); return; } }
  for (i = 0; i < n; i ++) { for (j = 0; j < 3; j ++) c[3 * i + j] = j < w ? a[1 + i * w + j] : 0; h = mc_hashi (h, a[1 + i * w]); }
  qsort (b, n, 3 * sizeof (INT), cmp3); qsort (c, n, 3 * sizeof (INT), cmp3);
  if (memcmp (b, c, n * 3 * sizeof (INT)) != 0) mc_fail ("%s of %d items does not give a permutation of its input", nm[which], n);
  mc_state (h); if (n > 6) mc_nontrivial ();
}
static void sortperm (INT *a, INT *z, int n, int k, int which) { int i; INT t; if (mc_failed ()) return; if (k == n) { sort1 (a, z, n, which); return; } for (i = k; i < n; i ++) { t = a[i]; a[i] = a[k]; a[k] = t; sortperm (a, z, n, k + 1, which); t = a[i]; a[i] = a[k]; a[k] = t; } }
static void sort_all (void) {
  INT a[700], z[700]; int n, which, i, pat; u64 x, m;
  for (which = 0; which < 6; which ++) {
    for (n = 0; n <= (mc_thorough ? 9 : 8); n ++) { for (i = 0; i < 700; i ++) { a[i] = i - 2; z[i] = (i * 3) % 4; } if (mc_case ("sort %d: all permutations of %d items", which, n)) sortperm (a, z, n, 0, which); }
    for (n = 1; n <= (mc_thorough ? 11 : 9); n ++) if (mc_case ("sort %d: all arrays of %d items over 3 values", which, n)) { for (m = 1, i = 0; i < n; i ++) m *= 3; for (x = 0; x < m && ! mc_failed (); x ++) { u64 y = x; for (i = 0; i < n; i ++, y /= 3) { a[i] = y % 3; z[i] = (n - i) % 3; } sort1 (a, z, n, which); } }
    for (n = 10; n <= (mc_thorough ? 18 : 15); n ++) if (mc_case ("sort %d: all arrays of %d items over 2 values", which, n)) for (x = 0; x < (1ULL << n) && ! mc_failed (); x ++) { for (i = 0; i < n; i ++) { a[i] = (x >> i) & 1; z[i] = (i * 5) % 7; } sort1 (a, z, n, which); }
    for (n = 7; n <= 600; n += n < 40 ? 1 : 37) for (pat = 0; pat < 12; pat ++) if (mc_case ("sort %d: pattern %d of %d items", which, pat, n)) {
      for (i = 0; i < n; i ++) { static const INT big = ((INT) 1 << (sizeof (INT) * 8 - 2)); switch (pat) { case 0: a[i] = i; break; case 1: a[i] = -i; break; case 2: a[i] = i < n / 2 ? i : n - i; break; case 3: a[i] = i % 7; break; case 4: a[i] = 5; break; case 5: a[i] = (i * 7919) % n; break; case 6: a[i] = i & 1 ? i : -i; break; case 7: a[i] = i < n / 2 ? n / 2 - i : i; break; case 8: a[i] = i == n - 1 ? -1 : i; break; case 9: a[i] = i == 0 ? n : i; break; case 10: a[i] = i % 3 == 0 ? big : i % 3 == 1 ? -big : i; break; default: a[i] = (i * i * 31 + 17 * i) % (n / 3 + 1); } z[i] = (i * 13) % 11 - 5; }
      sort1 (a, z, n, which);
    }
  }
}
void mc_run (void) { gain_all (); fibo_all (); sort_all (); }
