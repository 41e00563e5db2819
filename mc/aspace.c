#include "aspace.h"

static void prod (A *a, const int *dim, int nd, int wrap) {      /* terminals of a mesh or torus: first dimension varies fastest */
  int i, j, k; Num d;
  for (i = 0; i < a->n; i ++) for (j = 0; j < a->n; j ++) {
    int x = i, y = j; d = 0;
    for (k = 0; k < nd; k ++) { int u = x % dim[k], v = y % dim[k], w = u > v ? u - v : v - u; if (wrap && dim[k] - w < w) w = dim[k] - w; d += w; x /= dim[k]; y /= dim[k]; }
    a->dist[i * a->n + j] = d;
  }
}

int a_make (A *a, const ASpec *s) {
  int i, j, k, o = 1, n = 0; Num v[64];
  static const char *nm[] = { "cmplt", "cmpltw", "hcub", "mesh2", "mesh3", "meshX", "torus2", "torus3", "torusX", "tleaf", "ltleaf", "deco", "deco2", "sub", "vcmplt", "vhcub" };
  memset (a, 0, sizeof (*a)); a->exact = 1;
  k = snprintf (a->desc, sizeof (a->desc), "%s(", nm[s->kind]);
  for (i = 0; i < s->np; i ++) k += snprintf (a->desc + k, sizeof (a->desc) - k, "%s%d", i ? "," : "", s->p[i]);
  if (s->nq) { k += snprintf (a->desc + k, sizeof (a->desc) - k, ";"); for (i = 0; i < s->nq; i ++) k += snprintf (a->desc + k, sizeof (a->desc) - k, "%s%d", i ? "," : "", s->q[i]); }
  for (i = 0; i < s->np; i ++) v[i] = s->p[i];
  SCOTCH_archInit (&a->arch);
  switch (s->kind) {
    case AK_CMPLT: case AK_CMPLTW: n = (s->kind == AK_CMPLT) ? s->p[0] : s->np; break;
    case AK_HCUB: n = 1 << s->p[0]; break;
    case AK_MESH2: case AK_MESH3: case AK_MESHX: case AK_TORUS2: case AK_TORUS3: case AK_TORUSX: case AK_TLEAF: case AK_LTLEAF: for (n = 1, i = 0; i < s->np; i ++) n *= s->p[i]; break;
    case AK_DECO: case AK_DECO2: case AK_SUB: n = s->nq; break;
    default: a->var = 1; break;
  }
  if (s->kind == AK_DECO || s->kind == AK_DECO2) {
    Shape sh; sh_init (&sh); if (s->gn == -2) { sh_reset (&sh, (int) s->gmask, "star"); for (i = 1; i < (int) s->gmask; i ++) sh_edge (&sh, 0, i); } else if (s->gn < 0) sh_family (&sh, (int) s->gmask, 0); else sh_mask (&sh, s->gn, s->gmask);
    a->g = malloc (sizeof (G)); g_make (a->g, &sh, s->base, LAY_COMPACT, s->vk, s->ek, 0); sh_exit (&sh);
    k += snprintf (a->desc + k, sizeof (a->desc) - k, " of %.600s", a->g->desc);
    if (n == 0) n = a->g->n;
  }
  a->n = n; a->num = malloc ((n + 1) * sizeof (Num)); a->wght = malloc ((n + 1) * sizeof (Num)); a->dist = calloc ((size_t) n * n + 1, sizeof (Num));
  for (i = 0; i < n; i ++) { a->wght[i] = 1; a->num[i] = i; }
  switch (s->kind) {
    case AK_CMPLT: case AK_CMPLTW:
      for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) a->dist[i * n + j] = (i != j);
      if (s->kind == AK_CMPLT) o = SCOTCH_archCmplt (&a->arch, n);
      else { for (i = 0; i < n; i ++) a->wght[i] = s->p[i]; o = SCOTCH_archCmpltw (&a->arch, n, v); }
      break;
    case AK_HCUB:
      for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) a->dist[i * n + j] = __builtin_popcount (i ^ j);
      o = SCOTCH_archHcub (&a->arch, s->p[0]); break;
    case AK_MESH2: prod (a, s->p, 2, 0); o = SCOTCH_archMesh2 (&a->arch, v[0], v[1]); break;
    case AK_MESH3: prod (a, s->p, 3, 0); o = SCOTCH_archMesh3 (&a->arch, v[0], v[1], v[2]); break;
    case AK_MESHX: prod (a, s->p, s->np, 0); o = SCOTCH_archMeshX (&a->arch, s->np, v); break;
    case AK_TORUS2: prod (a, s->p, 2, 1); o = SCOTCH_archTorus2 (&a->arch, v[0], v[1]); break;
    case AK_TORUS3: prod (a, s->p, 3, 1); o = SCOTCH_archTorus3 (&a->arch, v[0], v[1], v[2]); break;
    case AK_TORUSX: prod (a, s->p, s->np, 1); o = SCOTCH_archTorusX (&a->arch, s->np, v); break;
    case AK_TLEAF: case AK_LTLEAF: {
      Num l[64], pm[64]; int pn = s->nq - s->np, inv[64];
      for (i = 0; i < s->np; i ++) l[i] = s->q[i];
      for (i = 0; i < pn; i ++) { pm[i] = s->q[s->np + i]; inv[pm[i]] = i; }
      for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) {        /* cost of the links from the leaves up to the common ancestor */
        int x = i, y = j, lv; Num d = 0;
        if (s->kind == AK_LTLEAF) { x = i - i % pn + inv[i % pn]; y = j - j % pn + inv[j % pn]; }
        for (lv = s->np - 1; x != y; lv --) { x /= s->p[lv]; y /= s->p[lv]; d += l[lv]; }
        a->dist[i * n + j] = d;
      }
      o = (s->kind == AK_TLEAF) ? SCOTCH_archTleaf (&a->arch, s->np, v, l) : SCOTCH_archLtleaf (&a->arch, s->np, v, l, pn, pm);
      break;
    }
    case AK_DECO: case AK_DECO2: {
      SCOTCH_Strat st; Num list[64]; int gn = a->g->n, x, y, z; Num *d = malloc ((size_t) gn * gn * sizeof (Num));
      for (x = 0; x < gn; x ++) for (y = 0; y < gn; y ++) d[x * gn + y] = (x == y) ? 0 : g_adj (a->g, x, y) ? (s->ek ? a->g->ew[x * gn + y] : 1) : 1000000000;
      for (z = 0; z < gn; z ++) for (x = 0; x < gn; x ++) if (d[x * gn + z] < 1000000000) for (y = 0; y < gn; y ++) if (d[x * gn + z] + d[z * gn + y] < d[x * gn + y]) d[x * gn + y] = d[x * gn + z] + d[z * gn + y];
      for (i = 0; i < n; i ++) {
        x = s->nq ? s->q[i] : i; if (s->nq) list[i] = x + s->base;
        if (s->kind == AK_DECO) a->num[i] = x + s->base;         /* compiled decompositions keep the numbers of the vertices */
        a->wght[i] = a->g->w[x];
        for (j = 0; j < n; j ++) a->dist[i * n + j] = d[x * gn + (s->nq ? s->q[j] : j)];
      }
      free (d);
      a->exact = (s->kind == AK_DECO); a->term = (s->kind == AK_DECO2);
      a->graf = malloc (sizeof (SCOTCH_Graph)); g_build (a->g, a->graf);
      SCOTCH_stratInit (&st); SCOTCH_randomReset ();
      o = (s->kind == AK_DECO) ? SCOTCH_archBuild0 (&a->arch, a->graf, s->nq, s->nq ? list : NULL, &st) : SCOTCH_archBuild2 (&a->arch, a->graf, s->nq, s->nq ? list : NULL);
      SCOTCH_stratExit (&st);
      break;
    }
    case AK_SUB: {
      Num list[64];
      a->org = malloc (sizeof (A));
      if (a_make (a->org, s->org) != 0) break;
      k += snprintf (a->desc + k, sizeof (a->desc) - k, " of %.600s", a->org->desc);
      for (i = 0; i < n; i ++) { list[i] = s->q[i]; a->wght[i] = a->org->wght[s->q[i]]; for (j = 0; j < n; j ++) a->dist[i * n + j] = a->org->dist[s->q[i] * a->org->n + s->q[j]]; }
      a->exact = a->org->exact; a->term = a->org->term;
      o = SCOTCH_archSub (&a->arch, &a->org->arch, n, list);
      break;
    }
    case AK_VCMPLT: o = SCOTCH_archVcmplt (&a->arch); break;
    case AK_VHCUB: o = SCOTCH_archVhcub (&a->arch); break;
  }
  snprintf (a->desc + k, sizeof (a->desc) - k, ")");
  return o;
}
void a_exit (A *a) {
  SCOTCH_archExit (&a->arch);
  if (a->org) { a_exit (a->org); free (a->org); }
  if (a->graf) { SCOTCH_graphExit (a->graf); free (a->graf); }
  if (a->g) { g_exit (a->g); free (a->g); }
  free (a->num); free (a->wght); free (a->dist);
}

static void set (ASpec *s, int kind, int np, ...) { va_list ap; int i; memset (s, 0, sizeof (*s)); s->kind = kind; s->np = np; va_start (ap, np); for (i = 0; i < np; i ++) s->p[i] = va_arg (ap, int); va_end (ap); }

static int connected (int n, u64 mask) {
  int i, j, k, seen = 1, old = 0;
  while (seen != old) { old = seen; k = 0; for (j = 0; j < n; j ++) for (i = 0; i < j; i ++, k ++) if ((mask >> k) & 1) { if ((seen >> i) & 1) seen |= 1 << j; if ((seen >> j) & 1) seen |= 1 << i; } }
  return seen == (1 << n) - 1;
}

int a_list (int idx, ASpec *s) {
  static ASpec org[4]; static int done; int i;
  if (! done) { set (&org[0], AK_MESH2, 2, 3, 2); set (&org[1], AK_HCUB, 1, 3); set (&org[2], AK_TLEAF, 2, 2, 3); org[2].q[0] = 3; org[2].q[1] = 1; org[2].nq = 2; set (&org[3], AK_CMPLTW, 4, 1, 2, 3, 1); done = 1; }
  switch (idx) {
    case 0: set (s, AK_CMPLT, 1, 1); break;
    case 1: set (s, AK_CMPLT, 1, 2); break;
    case 2: set (s, AK_CMPLT, 1, 3); break;
    case 3: set (s, AK_CMPLT, 1, 5); break;
    case 4: set (s, AK_CMPLTW, 3, 2, 1, 3); break;
    case 5: set (s, AK_CMPLTW, 4, 1, 5, 2, 1); break;
    case 6: set (s, AK_HCUB, 1, 2); break;
    case 7: set (s, AK_HCUB, 1, 3); break;
    case 8: set (s, AK_MESH2, 2, 2, 2); break;
    case 9: set (s, AK_MESH2, 2, 3, 2); break;
    case 10: set (s, AK_TORUS2, 2, 3, 3); break;
    case 11: set (s, AK_MESHX, 3, 2, 1, 2); break;
    case 12: set (s, AK_TLEAF, 2, 2, 2); s->q[0] = 5; s->q[1] = 1; s->nq = 2; break;
    case 13: set (s, AK_TLEAF, 2, 3, 2); s->q[0] = 2; s->q[1] = 1; s->nq = 2; break;
    case 14: set (s, AK_LTLEAF, 2, 2, 2); s->q[0] = 5; s->q[1] = 1; s->q[2] = 1; s->q[3] = 0; s->nq = 4; break;
    case 15: set (s, AK_DECO, 0); s->gn = 4; s->gmask = 0x29; break;                /* path 0-1-2-3 */
    case 16: set (s, AK_DECO, 0); s->gn = 3; s->gmask = 3; s->vk = 1; s->base = 1; break;
    case 17: set (s, AK_SUB, 0); s->org = &org[0]; s->nq = 4; s->q[0] = 5; s->q[1] = 0; s->q[2] = 3; s->q[3] = 1; break;
    case 18: set (s, AK_SUB, 0); s->org = &org[2]; s->nq = 3; s->q[0] = 1; s->q[1] = 3; s->q[2] = 4; break;
    case 19: set (s, AK_DECO2, 0); s->gn = 4; s->gmask = 0x29; break;
    case 20: set (s, AK_VCMPLT, 0); break;
    case 21: set (s, AK_VHCUB, 0); break;
    default: return 0;
  }
  (void) i;
  return 1;
}

static void perms (int n, int *a, int k, void (*fn) (void *, int *), void *arg) {
  int i, t;
  if (k == n) { fn (arg, a); return; }
  for (i = k; i < n; i ++) { t = a[k]; a[k] = a[i]; a[i] = t; perms (n, a, k + 1, fn, arg); t = a[k]; a[k] = a[i]; a[i] = t; }
}
typedef struct { ASpec s; void (*fn) (const ASpec *); int off, len; } PA;
static void permfn (void *arg, int *a) { PA *p = arg; int i; for (i = 0; i < p->len; i ++) p->s.q[p->off + i] = a[i]; p->s.nq = p->off + p->len; p->fn (&p->s); }
static void subs (const ASpec *org, int n, int maxperm, void (*fn) (const ASpec *)) {   /* all non-empty subsets of terminals, in all orders for small ones */
  int m, i; PA p;
  p.fn = fn;
  for (m = 1; m < (1 << n); m ++) {
    int a[40], k = 0;
    for (i = 0; i < n; i ++) if ((m >> i) & 1) a[k ++] = i;
    set (&p.s, AK_SUB, 0); p.s.org = org; p.off = 0; p.len = k;
    if (k <= maxperm) perms (k, a, 0, permfn, &p);
    else { int b[40]; permfn (&p, a); for (i = 0; i < k; i ++) b[i] = a[k - 1 - i]; permfn (&p, b); for (i = 0; i < k; i ++) b[i] = a[(i + k / 2) % k]; permfn (&p, b); }
  }
}

void a_each (int level, void (*fn) (const ASpec *)) {
  ASpec s; int i, j, k, l, q, hi = level > 1, vh = level > 2;
  for (i = 0; a_list (i, &s); i ++) fn (&s);
  if (level == 0) return;
  for (i = 4; i <= 48; i += 4) {                                    /* decompositions as deep as the number of their terminals */
    static ASpec st[12]; ASpec *o = &st[i / 4 - 1];
    set (o, AK_DECO2, 0); o->gn = -2; o->gmask = i + 1; fn (o); o->ek = 1; fn (o); o->ek = 0;
    set (&s, AK_SUB, 0); s.org = o; for (j = 0; j <= i && s.nq < 40; j += 1 + i / 20) s.q[s.nq ++] = i - j; fn (&s);
  }
  for (i = 1; i <= (vh ? 130 : hi ? 40 : 17); i ++) { set (&s, AK_CMPLT, 1, i); fn (&s); }
  for (k = 1; k <= (hi ? 6 : 5); k ++) {                            /* all weight vectors */
    int mx = (k <= 3) ? 4 : 3, tot = 1; for (i = 0; i < k; i ++) tot *= mx;
    for (q = 0; q < tot; q ++) { set (&s, AK_CMPLTW, 0); s.np = k; for (i = 0, j = q; i < k; i ++, j /= mx) s.p[i] = 1 + (j % mx) * (j % mx + 1) / 2; fn (&s); }
  }
  for (i = 6; i <= 14; i ++) { set (&s, AK_CMPLTW, 0); s.np = i; for (j = 0; j < i; j ++) s.p[j] = 1 + (j * 7 + i) % 9; fn (&s); }
  for (i = 0; i <= (vh ? 8 : hi ? 6 : 5); i ++) { set (&s, AK_HCUB, 1, i); fn (&s); }
  for (i = 1; i <= (vh ? 14 : hi ? 9 : 6); i ++) for (j = 1; j <= (vh ? 14 : hi ? 9 : 6); j ++) { set (&s, AK_MESH2, 2, i, j); fn (&s); s.kind = AK_TORUS2; fn (&s); }
  for (i = 1; i <= (vh ? 7 : hi ? 5 : 4); i ++) for (j = 1; j <= (vh ? 7 : hi ? 5 : 4); j ++) for (k = 1; k <= (vh ? 7 : hi ? 5 : 4); k ++) { set (&s, AK_MESH3, 3, i, j, k); fn (&s); s.kind = AK_TORUS3; fn (&s); }
  for (k = 1; k <= (hi ? 5 : 4); k ++) {
    int mx = (k == 1) ? 9 : (k <= 3) ? (vh ? 6 : 4) : 3, tot = 1; for (i = 0; i < k; i ++) tot *= mx;
    for (q = 0; q < tot; q ++) { set (&s, AK_MESHX, 0); s.np = k; for (i = 0, j = q; i < k; i ++, j /= mx) s.p[i] = 1 + j % mx; fn (&s); s.kind = AK_TORUSX; fn (&s); }
  }
  for (k = 1; k <= 3; k ++) {                                       /* trees of 2 to 4 sons, link costs over {1,2,5} */
    int mx = (k == 1) ? 7 : (hi ? 4 : 3), tot = 1, lt = 1; for (i = 0; i < k; i ++) { tot *= mx; lt *= 3; }
    for (q = 0; q < tot; q ++) for (l = 0; l < lt; l ++) {
      static const int lc[3] = { 1, 2, 5 };
      set (&s, AK_TLEAF, 0); s.np = s.nq = k;
      for (i = 0, j = q; i < k; i ++, j /= mx) s.p[i] = 2 + j % mx;
      for (i = 0, j = l; i < k; i ++, j /= 3) s.q[i] = lc[j % 3];
      fn (&s);
    }
  }
  for (k = 1; k <= 3; k ++) {                                       /* labelled trees: all permutations of the lowest level, rotations of higher ones */
    int tot = 1; for (i = 0; i < k; i ++) tot *= 3;
    for (q = 0; q < tot; q ++) {
      int sz = 1, lv, a[40]; PA p;
      set (&s, AK_LTLEAF, 0); s.np = k; for (i = 0, j = q; i < k; i ++, j /= 3) { s.p[i] = 2 + j % 3; s.q[i] = 1 + (i * 2) % 3; }
      s.q[k] = 0; s.nq = k + 1; fn (&s);
      for (lv = k - 1; lv >= 0; lv --) {
        sz *= s.p[lv];
        if (sz > 24) break;
        p.fn = fn; p.s = s; p.off = k; p.len = sz;
        for (i = 0; i < sz; i ++) a[i] = i;
        if (sz <= (hi ? 6 : 4)) perms (sz, a, 0, permfn, &p);
        else { int b[40]; for (i = 0; i < sz; i ++) b[i] = (i * 5 + 3) % sz; if (sz % 5 != 0) permfn (&p, b); for (i = 0; i < sz; i ++) b[i] = sz - 1 - i; permfn (&p, b); for (i = 0; i < sz; i ++) b[i] = (i + 1) % sz; permfn (&p, b); }
      }
    }
  }
  for (k = 1; k <= (hi ? 5 : 4); k ++) for (q = 0; q < (1 << sh_maskbits (k)); q ++) {     /* decompositions of all connected graphs, over all subsets of terminals */
    if (! connected (k, q)) continue;
    for (l = 0; l < 4; l ++) {
      int m;
      set (&s, AK_DECO, 0); s.gn = k; s.gmask = q; s.vk = (l & 1); s.ek = 0; s.base = (l >> 1) & 1; fn (&s);
      if (l < 2) { s.kind = AK_DECO2; fn (&s); s.ek = 1; fn (&s); s.kind = AK_DECO; fn (&s); s.ek = 0; }
      if (k > 4 && l > 0) continue;
      for (m = 1; m < (1 << k) - 1; m ++) {
        s.nq = 0; for (i = 0; i < k; i ++) if ((m >> i) & 1) s.q[s.nq ++] = i;
        s.kind = AK_DECO; fn (&s);
        if (s.base == 0) { s.kind = AK_DECO2; fn (&s); }
        if (s.nq > 1) { int b[8]; for (i = 0; i < s.nq; i ++) b[i] = s.q[s.nq - 1 - i]; memcpy (s.q, b, s.nq * sizeof (int)); s.kind = AK_DECO; fn (&s); if (s.base == 0) { s.kind = AK_DECO2; fn (&s); } }
      }
    }
  }
  for (k = 5; k <= (hi ? 7 : 6); k ++) for (i = 0; i < sh_atlasnbr (k); i ++) {
    Shape sh; u64 m; int e; sh_init (&sh); sh_atlas (&sh, k, i);
    for (m = 0, e = 0; e < sh.m; e ++) { int a = sh.e[e][0], b = sh.e[e][1], t; if (a > b) { t = a; a = b; b = t; } m |= 1ULL << (b * (b - 1) / 2 + a); }
    sh_exit (&sh);
    if (! connected (k, m)) continue;
    set (&s, AK_DECO, 0); s.gn = k; s.gmask = m; s.vk = i & 1; s.base = (i >> 1) & 1; fn (&s);
    s.kind = AK_DECO2; s.base = 0; fn (&s);
  }
  { Shape sh; sh_init (&sh);
    for (i = 0; sh_family (&sh, i, 0); i ++) {
      G g; int c; g_make (&g, &sh, 0, LAY_COMPACT, 0, 0, 0); c = g_comp (&g, NULL, NULL); g_exit (&g);
      if (c != 1) continue;
      set (&s, AK_DECO, 0); s.gn = -1; s.gmask = i; s.vk = i & 1; s.base = (i >> 1) & 1; fn (&s);
      s.kind = AK_DECO2; s.base = 0; fn (&s);
    }
    sh_exit (&sh);
  }
  { static ASpec org[16]; int on = 0;
    set (&org[on ++], AK_CMPLT, 1, 4); set (&org[on ++], AK_CMPLTW, 4, 1, 4, 2, 3); set (&org[on ++], AK_HCUB, 1, 2); set (&org[on ++], AK_MESH2, 2, 2, 2); set (&org[on ++], AK_TORUS2, 2, 4, 1); set (&org[on ++], AK_MESHX, 3, 1, 2, 2); set (&org[on ++], AK_CMPLT, 1, 5);
    set (&org[on], AK_TLEAF, 2, 2, 2); org[on].q[0] = 3; org[on].q[1] = 1; org[on ++].nq = 2;
    set (&org[on], AK_LTLEAF, 2, 2, 2); org[on].q[0] = 3; org[on].q[1] = 1; org[on].q[2] = 1; org[on].q[3] = 0; org[on ++].nq = 4;
    set (&org[on], AK_DECO2, 0); org[on].gn = 4; org[on ++].gmask = 0x29;
    set (&org[on], AK_MESH2, 2, 3, 1); on ++;
    for (i = 0; i < on; i ++) subs (&org[i], (org[i].kind == AK_CMPLT && org[i].p[0] == 5) ? 5 : (i == on - 1) ? 3 : 4, hi ? 4 : 3, fn);
    { static ASpec o2[8]; on = 0;
      set (&o2[on ++], AK_MESH2, 2, 3, 2); set (&o2[on ++], AK_TORUS2, 2, 3, 2); set (&o2[on ++], AK_MESH3, 3, 1, 3, 2); set (&o2[on ++], AK_CMPLTW, 6, 3, 1, 4, 1, 5, 9);
      set (&o2[on], AK_TLEAF, 2, 3, 2); o2[on].q[0] = 3; o2[on].q[1] = 1; o2[on ++].nq = 2;
      set (&o2[on], AK_SUB, 0); o2[on].org = &o2[0]; o2[on].nq = 6; for (i = 0; i < 6; i ++) o2[on].q[i] = (i * 5 + 2) % 6; on ++;
      set (&o2[on], AK_DECO2, 0); o2[on].gn = 6; o2[on ++].gmask = 0x4229 ;
      for (i = 0; i < on; i ++) subs (&o2[i], 6, hi ? 4 : 2, fn);
    }
  }
}
