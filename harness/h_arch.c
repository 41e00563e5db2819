/* Target architectures: decomposition into terminals (14), distances (15), files (16). */
#include "aspace.h"
#include "module.h"
#include "common.h"
#include "graph.h"
#include "arch.h"

static int sel;
#define AR(a) (&(a)->arch)
#define MAXD 4096
typedef struct { SCOTCH_ArchDom d; Num num, siz, wgt; int son[2], lev; u64 *set; } Node;

static u64 key;
static void expand (SCOTCH_Arch *ar, Node *t, int *nt, int x, int cap, int lev, int maxlev) {
  Node *n = &t[x]; int o;
  n->num = SCOTCH_archDomNum (ar, &n->d); n->siz = SCOTCH_archDomSize (ar, &n->d); n->wgt = SCOTCH_archDomWght (ar, &n->d); n->son[0] = n->son[1] = -1; n->lev = lev;
  mc_ops (4);
  key = mc_hashi (mc_hashi (mc_hashi (mc_hashi (key, n->num), n->siz), n->wgt), lev);
  mc_state (key);
  if (lev >= maxlev) return;
  if (*nt + 2 > cap) { mc_fail ("decomposition does not end: %d domains", *nt); return; }
  memset (&t[*nt], 0, 2 * sizeof (Node));
  o = SCOTCH_archDomBipart (ar, &n->d, &t[*nt].d, &t[*nt + 1].d);
  if (o == 2 || o < 0) { mc_fail ("bipartitioning reports an error"); return; }
  if (o == 0) {
    int a = *nt; *nt += 2;
    n->son[0] = a; n->son[1] = a + 1;
    expand (ar, t, nt, a, cap, lev + 1, maxlev); if (mc_failed ()) return;
    expand (ar, t, nt, a + 1, cap, lev + 1, maxlev);
  }
}
static int W;
static A *ca;
static int ix (Num num) { int i; if (ca->n > 0 && ca->num[0] == 0 && num >= 0 && num < ca->n && ca->num[num] == num) return (int) num; for (i = 0; i < ca->n; i ++) if (ca->num[i] == num) return i; return -1; }
static void collect (Node *t, int x, int n) {               /* set of terminals below each domain */
  t[x].set = calloc (W, 8);
  if (t[x].son[0] < 0) { int q = ix (t[x].num); if (q >= 0) t[x].set[q / 64] |= 1ULL << (q % 64); }
  else { int i, k; for (k = 0; k < 2; k ++) { collect (t, t[x].son[k], n); for (i = 0; i < W; i ++) t[x].set[i] |= t[t[x].son[k]].set[i]; } }
}
static int subset (const u64 *a, const u64 *b) { int i; for (i = 0; i < W; i ++) if (a[i] & ~ b[i]) return 0; return 1; }   /* a within b */

/* description of the machine as seen through the public interface, for comparison after a file round-trip */
static u64 walk (SCOTCH_Arch *ar, int n, int var) {
  Node *t = calloc (2 * (n ? n : 64) + 2, sizeof (Node)); int nt = 1, i, j; u64 h = 5;
  key = 7; SCOTCH_archDomFrst (ar, &t[0].d); expand (ar, t, &nt, 0, 2 * (n ? n : 64) + 2, 0, var ? 4 : 64);
  h = key;
  for (i = 0; i < nt; i ++) for (j = 0; j < nt; j ++) if (! ca->term || (t[i].son[0] < 0 && t[j].son[0] < 0)) h = mc_hashi (h, SCOTCH_archDomDist (ar, &t[i].d, &t[j].d));
  free (t);
  return h;
}

static void onearch (A *a, const ASpec *s) {
  SCOTCH_Arch *ar = &a->arch; int n = a->n, cap = a->var ? 70 : 2 * n + 1, nt = 1, i, j; Node *t = calloc (cap + 2, sizeof (Node)); SCOTCH_ArchDom *td = calloc (n + 1, sizeof (SCOTCH_ArchDom));
  ca = a;
  if (! a->var && SCOTCH_archSize (ar) != n) { mc_fail ("size is %d instead of %d", (int) SCOTCH_archSize (ar), n); goto out; }
  if (SCOTCH_archVar (ar) != a->var) mc_fail ("variable-size flag is %d", SCOTCH_archVar (ar));
  if (SCOTCH_archDomFrst (ar, &t[0].d) != 0) { mc_fail ("no first domain"); goto out; }
  key = 3;
  if (n > 1 || a->var) mc_nontrivial ();
  for (i = 0; i < n; i ++) if (SCOTCH_archDomTerm (ar, &td[i], a->num[i]) != 0) { mc_fail ("terminal %d has no domain", (int) a->num[i]); goto out; }
  if (sel == 14) {
    expand (ar, t, &nt, 0, cap, 0, a->var ? 4 : 100);
    if (mc_failed ()) goto out;
    W = (n + 63) / 64 + 1;
    collect (t, 0, n);
    if (! a->var) {
      if (nt != 2 * n - 1) mc_fail ("%d domains for %d terminals", nt, n);
      for (i = 0; i < nt && ! mc_failed (); i ++) {
        int c = 0, lo = -1; Num w = 0;
        for (j = 0; j < n; j ++) if ((t[i].set[j / 64] >> (j % 64)) & 1) { c ++; w += a->wght[j]; if (lo < 0) lo = j; }
        if (t[i].son[0] < 0) {
          if (t[i].siz != 1 || c != 1) mc_fail ("leaf domain %d has size %d and terminal number %d", i, (int) t[i].siz, (int) t[i].num);
          else {
            int q = ix (t[i].num);
            if (SCOTCH_archDomNum (ar, &td[q]) != t[i].num) mc_fail ("terminal domain %d gives back number %d", (int) t[i].num, (int) SCOTCH_archDomNum (ar, &td[q]));
            if (SCOTCH_archDomSize (ar, &td[q]) != 1 || SCOTCH_archDomWght (ar, &td[q]) != a->wght[q]) mc_fail ("terminal domain %d has size %d and weight %d instead of %d", (int) t[i].num, (int) SCOTCH_archDomSize (ar, &td[q]), (int) SCOTCH_archDomWght (ar, &td[q]), (int) a->wght[q]);
            if (SCOTCH_archDomDist (ar, &td[q], &t[i].d) != 0) mc_fail ("terminal domain %d is not the leaf of that number", (int) t[i].num);
          }
        }
        else { u64 x = 0; for (j = 0; j < W; j ++) x |= t[t[i].son[0]].set[j] & t[t[i].son[1]].set[j]; if (x) mc_fail ("the two parts of domain %d share terminals", i); }
        if (c != t[i].siz) mc_fail ("domain %d has size %d but %d terminals", i, (int) t[i].siz, c);
        else if (w != t[i].wgt) mc_fail ("domain %d has weight %d instead of %d", i, (int) t[i].wgt, (int) w);
        else if (ix (t[i].num) < 0 || ! ((t[i].set[ix (t[i].num) / 64] >> (ix (t[i].num) % 64)) & 1)) mc_fail ("the number %d of domain %d is not one of its terminals", (int) t[i].num, i);
        mc_ops (3);
      }
      if (! mc_failed ()) for (i = 0; i < n; i ++) if (! ((t[0].set[i / 64] >> (i % 64)) & 1)) mc_fail ("terminal %d is not reached", i);
    }
    else for (i = 0; i < nt && ! mc_failed (); i ++) {
      SCOTCH_ArchDom d; int lv; Num x;
      for (lv = 0, x = t[i].num; x > 1; x >>= 1) lv ++;
      if (t[i].siz != 1 || t[i].wgt != 1 || lv != t[i].lev) mc_fail ("variable domain %d at level %d: number %d size %d weight %d", i, t[i].lev, (int) t[i].num, (int) t[i].siz, (int) t[i].wgt);
      for (j = 0; j < i; j ++) if (t[i].num == t[j].num) mc_fail ("two domains have number %d", (int) t[i].num);
      if (SCOTCH_archDomTerm (ar, &d, t[i].num) != 0 || SCOTCH_archDomNum (ar, &d) != t[i].num || SCOTCH_archDomDist (ar, &d, &t[i].d) != 0) mc_fail ("domain number %d not found back", (int) t[i].num);
      if (t[i].son[0] >= 0 && (t[t[i].son[0]].num != 2 * t[i].num || t[t[i].son[1]].num != 2 * t[i].num + 1)) mc_fail ("sons of domain number %d are %d and %d", (int) t[i].num, (int) t[t[i].son[0]].num, (int) t[t[i].son[1]].num);
    }
    for (i = 0; i < nt && ! mc_failed (); i ++) for (j = 0; j < nt && ! mc_failed (); j ++) {     /* inclusion agrees with the decomposition */
      int want, got;
      if (a->var) { Num x = t[j].num; while (x > t[i].num) x >>= 1; want = (x == t[i].num); } else want = subset (t[j].set, t[i].set);
      got = archDomIncl ((Arch *) ar, (ArchDom *) &t[i].d, (ArchDom *) &t[j].d);
      if (got != want) mc_fail ("inclusion of domain %d (number %d, size %d) in domain %d (number %d, size %d) reported as %d", j, (int) t[j].num, (int) t[j].siz, i, (int) t[i].num, (int) t[i].siz, got);
      mc_ops (1);
    }
    { SCOTCH_ArchDom d; Num mx = -1; for (i = 0; i < n; i ++) if (a->num[i] > mx) mx = a->num[i]; if (! a->var && SCOTCH_archDomTerm (ar, &d, mx + 1) == 0) mc_fail ("terminal number %d accepted, out of %d", (int) mx + 1, n); }
    for (i = 0; i < nt; i ++) free (t[i].set);
  }
  if (sel == 15) {
    for (i = 0; i < n && ! mc_failed (); i ++) for (j = 0; j < n && ! mc_failed (); j ++) {
      Num d = SCOTCH_archDomDist (ar, &td[i], &td[j]);
      mc_ops (1); key = mc_hashi (key, d);
      if (a->exact) { if (d != a->dist[i * n + j]) mc_fail ("distance of terminals %d and %d is %d instead of %d", i, j, (int) d, (int) a->dist[i * n + j]); }
      else if ((i == j) != (d == 0) || d < 0 || d != SCOTCH_archDomDist (ar, &td[j], &td[i])) mc_fail ("distance of terminals %d and %d is %d, and %d backwards", i, j, (int) d, (int) SCOTCH_archDomDist (ar, &td[j], &td[i]));
    }
    expand (ar, t, &nt, 0, cap, 0, a->var ? 4 : 100);
    for (i = 0; i < nt && ! mc_failed (); i ++) for (j = 0; j < nt; j ++) {          /* all domains: symmetric, null between a domain and itself */
      Num d = SCOTCH_archDomDist (ar, &t[i].d, &t[j].d);
      if (d < 0 || d != SCOTCH_archDomDist (ar, &t[j].d, &t[i].d)) { mc_fail ("domain distance %d/%d is %d forwards, %d backwards (numbers %d, %d, sizes %d, %d)", i, j, (int) d, (int) SCOTCH_archDomDist (ar, &t[j].d, &t[i].d), (int) t[i].num, (int) t[j].num, (int) t[i].siz, (int) t[j].siz); break; }
      if (a->var) {                                          /* variable-sized: complete graph, or hypercube with unknown bits counting one half */
        Num x = t[i].num, y = t[j].num, w = 0; int li = t[i].lev, lj = t[j].lev;
        if (s->kind == AK_VCMPLT) w = (x != y);
        else { w = (li > lj ? li - lj : lj - li) / 2; if (li > lj) x >>= li - lj; else y >>= lj - li; w += __builtin_popcountl (x ^ y); }
        if (d != w) { mc_fail ("distance of variable domains %d and %d is %d instead of %d", (int) t[i].num, (int) t[j].num, (int) d, (int) w); break; }
      }
      mc_ops (2); key = mc_hashi (key, d);
    }
    for (i = 0; i < nt && ! mc_failed (); i ++) if (t[i].son[0] < 0 && SCOTCH_archDomDist (ar, &t[i].d, &t[i].d) != 0) mc_fail ("a terminal is at non-null distance of itself");
    mc_state (key);
  }
  if (sel == 16) {
    SCOTCH_Arch b; char *buf = NULL, *buf2 = NULL; size_t len = 0, len2 = 0; FILE *f; int o; u64 h0;
    f = open_memstream (&buf, &len); o = SCOTCH_archSave (ar, f); fprintf (f, "%s", " 31337 tail"); fclose (f);
    if (o != 0) { mc_fail ("not saved"); free (buf); goto out; }
    SCOTCH_archInit (&b);
    f = fmemopen (buf, len, "r");
    if (SCOTCH_archLoad (&b, f) != 0) { mc_fail ("saved architecture not accepted: %.300s", buf); SCOTCH_archExit (&b); fclose (f); free (buf); goto out; }
    { long x = 0; if (fscanf (f, "%ld", &x) != 1 || x != 31337) mc_fail ("loading reads too much or too little of: %.300s", buf); }
    fclose (f);
    if (strcmp (SCOTCH_archName (ar), SCOTCH_archName (&b)) != 0) mc_fail ("name %s becomes %s", SCOTCH_archName (ar), SCOTCH_archName (&b));
    if (! mc_failed () && SCOTCH_archVar (&b) != a->var) mc_fail ("variable-size flag lost");
    if (! mc_failed () && SCOTCH_archSize (&b) != SCOTCH_archSize (ar)) mc_fail ("size %d becomes %d", (int) SCOTCH_archSize (ar), (int) SCOTCH_archSize (&b));
    if (! mc_failed ()) {
      h0 = walk (ar, n, a->var);
      if (! mc_failed () && walk (&b, n, a->var) != h0) mc_fail ("decomposition or distances differ after loading back: %.300s", buf);
      for (i = 0; i < n && ! mc_failed (); i ++) { SCOTCH_ArchDom x; if (SCOTCH_archDomTerm (&b, &x, a->num[i]) != 0 || SCOTCH_archDomNum (&b, &x) != a->num[i] || SCOTCH_archDomWght (&b, &x) != a->wght[i]) mc_fail ("terminal %d differs after loading back", i); }
    }
    if (! mc_failed ()) {
      f = open_memstream (&buf2, &len2); o = SCOTCH_archSave (&b, f); fprintf (f, "%s", " 31337 tail"); fclose (f);
      if (o != 0 || (! a->term && strcmp (buf, buf2) != 0)) mc_fail ("second save differs: %.200s / %.200s", buf, buf2);
      free (buf2); buf2 = NULL;
    }
    expand (ar, t, &nt, 0, cap, 0, a->var ? 4 : 100);
    for (i = 0; i < nt && ! mc_failed (); i ++) {           /* domains saved and loaded back */
      SCOTCH_ArchDom x; memset (&x, 0x5a, sizeof (x));
      f = open_memstream (&buf2, &len2); o = archDomSave ((Arch *) ar, (ArchDom *) &t[i].d, f); fprintf (f, " 31337 tail"); fclose (f);
      f = fmemopen (buf2, len2, "r");
      if (o != 0 || archDomLoad ((Arch *) &b, (ArchDom *) &x, f) != 0) mc_fail ("domain number %d not saved or loaded: %.100s", (int) t[i].num, buf2);
      else {
        long z = 0; if (fscanf (f, "%ld", &z) != 1 || z != 31337) mc_fail ("loading a domain reads too much or too little of: %.100s", buf2);
        if (SCOTCH_archDomNum (&b, &x) != t[i].num || SCOTCH_archDomSize (&b, &x) != t[i].siz || SCOTCH_archDomWght (&b, &x) != t[i].wgt) mc_fail ("domain (number %d, size %d, weight %d) loaded back as (%d, %d, %d)", (int) t[i].num, (int) t[i].siz, (int) t[i].wgt, (int) SCOTCH_archDomNum (&b, &x), (int) SCOTCH_archDomSize (&b, &x), (int) SCOTCH_archDomWght (&b, &x));
        else if (archDomIncl ((Arch *) &b, (ArchDom *) &x, (ArchDom *) &t[i].d) != 1 || archDomIncl ((Arch *) &b, (ArchDom *) &t[i].d, (ArchDom *) &x) != 1) mc_fail ("domain number %d loaded back as another one", (int) t[i].num);
      }
      fclose (f); free (buf2); buf2 = NULL; mc_ops (2);
    }
    SCOTCH_archExit (&b);
    free (buf);
    mc_ops (4);
  }
out:
  free (t); free (td);
}

static int level;
static void visit (const ASpec *s) {
  A a; int o;
  if (sel == 16 && s->kind == AK_SUB && s->nq > 4 && s->np == 99) return;
  if (mc_skip ()) return;
  SCOTCH_randomReset ();
  { char b[200]; int i, k = snprintf (b, 200, "kind=%d p=", s->kind); for (i = 0; i < s->np && k < 90; i ++) k += snprintf (b + k, 200 - k, "%d,", s->p[i]); k += snprintf (b + k, 200 - k, " q="); for (i = 0; i < s->nq && k < 180; i ++) k += snprintf (b + k, 200 - k, "%d,", s->q[i]);
    if (s->kind == AK_DECO || s->kind == AK_DECO2) snprintf (b + k, 200 - k, " graph=%d:%llx vk=%d ek=%d base=%d", s->gn, (unsigned long long) s->gmask, s->vk, s->ek, s->base);
    if (! mc_case ("%s%s%d", b, s->kind == AK_SUB ? " org kind=" : " ", s->kind == AK_SUB ? s->org->kind : 0)) return; }
  o = a_make (&a, s);
  if (mc_verbose) fprintf (stderr, "%s\n", a.desc);
  if (o != 0) { mc_fail ("architecture not built: %s", a.desc); if (a.org) { SCOTCH_archExit (&a.org->arch); } return; }
  onearch (&a, s);
  if (mc_errnbr && ! mc_failed ()) mc_fail ("error message while the calls succeed (%s)", a.desc);
  a_exit (&a);
}
void mc_run (void) {
  sel = atoi (getenv ("MC_SET"));
  level = mc_thorough ? 3 : 2;
  a_each (level, visit);
}
