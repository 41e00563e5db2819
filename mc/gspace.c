#include "gspace.h"
#include "atlas.h"

void sh_init (Shape *s) { memset (s, 0, sizeof (*s)); }
void sh_exit (Shape *s) { free (s->e); s->e = NULL; s->cap = 0; }
void sh_reset (Shape *s, int n, const char *name) { s->n = n; s->m = 0; snprintf (s->name, sizeof (s->name), "%s", name); }
void sh_edge (Shape *s, int i, int j) {
  int k;
  if (i == j) return;
  for (k = 0; k < s->m; k ++) if ((s->e[k][0] == i && s->e[k][1] == j) || (s->e[k][0] == j && s->e[k][1] == i)) return;
  if (s->m >= s->cap) { s->cap = s->cap * 2 + 32; s->e = realloc (s->e, s->cap * sizeof (s->e[0])); }
  s->e[s->m][0] = i; s->e[s->m ++][1] = j;
}
int sh_maskbits (int n) { return n * (n - 1) / 2; }
void sh_mask (Shape *s, int n, u64 mask) {
  int i, j, k = 0; char b[64];
  snprintf (b, sizeof (b), "n%d:%llx", n, (unsigned long long) mask);
  sh_reset (s, n, b);
  for (j = 0; j < n; j ++) for (i = 0; i < j; i ++, k ++) if ((mask >> k) & 1) sh_edge (s, i, j);
}
int sh_atlasnbr (int n) { return atlasnbr[n]; }
int sh_atlas (Shape *s, int n, int idx) { if (idx >= atlasnbr[n]) return 0; sh_mask (s, n, atlastab[n][idx]); return 1; }
void sh_grid2 (Shape *s, int a, int b, int torus, int five) {
  int x, y;
  for (y = 0; y < b; y ++) for (x = 0; x < a; x ++) {
    if (x + 1 < a) sh_edge (s, y * a + x, y * a + x + 1); else if (torus && a > 2) sh_edge (s, y * a + x, y * a);
    if (y + 1 < b) sh_edge (s, y * a + x, (y + 1) * a + x); else if (torus && b > 2) sh_edge (s, y * a + x, x);
    if (five && x + 1 < a && y + 1 < b) { sh_edge (s, y * a + x, (y + 1) * a + x + 1); sh_edge (s, y * a + x + 1, (y + 1) * a + x); }
  }
}
void sh_grid3 (Shape *s, int a, int b, int c) {
  int x, y, z;
  for (z = 0; z < c; z ++) for (y = 0; y < b; y ++) for (x = 0; x < a; x ++) {
    int v = (z * b + y) * a + x;
    if (x + 1 < a) sh_edge (s, v, v + 1);
    if (y + 1 < b) sh_edge (s, v, v + a);
    if (z + 1 < c) sh_edge (s, v, v + a * b);
  }
}
#define FAM(nm, nn) if (idx -- == 0) { sh_reset (s, (nn), nm);
#define MAF return 1; }
int sh_family (Shape *s, int idx, int big) {
  int i, j, k, n;
  static const int pn[3][3] = { { 8, 9, 13 }, { 30, 41, 64 }, { 150, 257, 400 } };
  for (k = 0; k < 3; k ++) {
    n = pn[big][k];
    FAM ("path", n) for (i = 1; i < n; i ++) sh_edge (s, i - 1, i); MAF
    FAM ("cycle", n) for (i = 0; i < n; i ++) sh_edge (s, i, (i + 1) % n); MAF
    FAM ("star", n) for (i = 1; i < n; i ++) sh_edge (s, 0, i); MAF
    FAM ("bintree", n) for (i = 1; i < n; i ++) sh_edge (s, (i - 1) / 2, i); MAF
    FAM ("wheel", n) for (i = 1; i < n; i ++) { sh_edge (s, 0, i); sh_edge (s, i, (i == n - 1) ? 1 : i + 1); } MAF
    FAM ("scatter", n) for (i = 0; i < n; i ++) { sh_edge (s, i, (i * 7 + 3) % n); sh_edge (s, i, (i * 5 + 1) % n); } MAF
    FAM ("caterpillar", n) for (i = 1; i < n; i ++) sh_edge (s, (i % 2) ? ((i > 1) ? i - 2 : 0) : i - 1, i); MAF
  }
  {
    static const int ga[3][3] = { { 2, 3, 4 }, { 5, 7, 8 }, { 12, 15, 20 } }, gb[3][3] = { { 4, 3, 4 }, { 5, 6, 8 }, { 12, 17, 20 } };
    for (k = 0; k < 3; k ++) {
      int a = ga[big][k], b = gb[big][k];
      FAM ("grid", a * b) sh_grid2 (s, a, b, 0, 0); MAF
      FAM ("torus", a * b) sh_grid2 (s, a, b, 1, 0); MAF
      FAM ("grid8", a * b) sh_grid2 (s, a, b, 0, 1); MAF
      FAM ("grid+isolated", a * b + 3) sh_grid2 (s, a, b, 0, 0); MAF
      FAM ("twogrids", 2 * a * b) sh_grid2 (s, a, b, 0, 0); n = s->m; for (i = 0; i < n; i ++) sh_edge (s, s->e[i][0] + a * b, s->e[i][1] + a * b); MAF
      FAM ("bridgedgrids", 2 * a * b) sh_grid2 (s, a, b, 0, 0); n = s->m; for (i = 0; i < n; i ++) sh_edge (s, s->e[i][0] + a * b, s->e[i][1] + a * b); sh_edge (s, 0, 2 * a * b - 1); MAF
      FAM ("grid+hub", a * b + 1) sh_grid2 (s, a, b, 0, 0); for (i = 0; i < a * b; i ++) sh_edge (s, i, a * b); MAF
    }
  }
  { int a = (big == 0) ? 2 : (big == 1) ? 3 : 6;
    FAM ("grid3", a * a * (a + 1)) sh_grid3 (s, a, a, a + 1); MAF
    n = (big == 0) ? 6 : (big == 1) ? 12 : 30;
    FAM ("complete", n) for (j = 0; j < n; j ++) for (i = 0; i < j; i ++) sh_edge (s, i, j); MAF
    FAM ("bipartite", 2 * n - 2) for (j = 0; j < n; j ++) for (i = n; i < 2 * n - 2; i ++) sh_edge (s, i, j); MAF
    FAM ("barbell", 2 * n) for (j = 0; j < n; j ++) for (i = 0; i < j; i ++) { sh_edge (s, i, j); sh_edge (s, i + n, j + n); } sh_edge (s, 0, n); MAF
    FAM ("twocliques", 2 * n) for (j = 0; j < n; j ++) for (i = 0; i < j; i ++) { sh_edge (s, i, j); sh_edge (s, i + n, j + n); } MAF
    k = (big == 0) ? 3 : (big == 1) ? 5 : 8;
    FAM ("hypercube", 1 << k) for (i = 0; i < (1 << k); i ++) for (j = 0; j < k; j ++) sh_edge (s, i, i ^ (1 << j)); MAF
    n = (big == 0) ? 7 : (big == 1) ? 25 : 120;
    FAM ("isolated", n) MAF
    FAM ("matching", 2 * n) for (i = 0; i < n; i ++) sh_edge (s, 2 * i, 2 * i + 1); MAF
    FAM ("staroftriangles", 3 * n + 1) for (i = 0; i < n; i ++) { sh_edge (s, 3 * i + 1, 3 * i + 2); sh_edge (s, 3 * i + 2, 3 * i + 3); sh_edge (s, 3 * i + 1, 3 * i + 3); sh_edge (s, 0, 3 * i + 1); } MAF
    FAM ("twinleaves", 3 * n) for (i = 1; i < n; i ++) sh_edge (s, i - 1, i); for (i = 0; i < n; i ++) { sh_edge (s, i, n + 2 * i); sh_edge (s, i, n + 2 * i + 1); } MAF
  }
  return 0;
}

static int inbr (const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
static Num wv (int k, int i) { switch (k) { case 1: return 1 + (i * 7 + 3) % 5; case 2: return (i % 3 == 0) ? 0 : 1 + i % 4; case 3: return 1 + ((i % 4 == 1) ? 20 : 0); case 4: return 2; default: return 1; } }
static Num we (int k, int i, int j) { int a = i < j ? i : j, b = i < j ? j : i; switch (k) { case 1: return 1 + (a * 3 + b * 5 + a * b) % 6; case 2: return 1 + ((a + b) % 3 == 0 ? 30 : 0); case 3: return 3; default: return 1; } }

void g_make (G *g, const Shape *s, int base, int layout, int vk, int ek, int lk) {
  int n = s->n, i, j, k, q, *deg, **adj; Num pos; char *d; size_t l;
  memset (g, 0, sizeof (*g));
  g->n = n; g->base = base; g->layout = layout; g->vk = vk; g->ek = ek; g->lk = lk; g->m = 2 * s->m;
  deg = calloc (n + 1, sizeof (int)); adj = calloc (n + 1, sizeof (int *));
  for (k = 0; k < s->m; k ++) { deg[s->e[k][0]] ++; deg[s->e[k][1]] ++; }
  for (i = 0; i < n; i ++) { adj[i] = malloc ((deg[i] + 1) * sizeof (int)); deg[i] = 0; }
  for (k = 0; k < s->m; k ++) { i = s->e[k][0]; j = s->e[k][1]; adj[i][deg[i] ++] = j; adj[j][deg[j] ++] = i; }
  for (i = 0; i < n; i ++) qsort (adj[i], deg[i], sizeof (int), inbr);
  g->w = calloc (n + 1, sizeof (Num)); g->ew = (n <= 2000) ? calloc ((size_t) n * n + 1, sizeof (Num)) : NULL;
  for (i = 0; i < n; i ++) g->w[i] = wv (vk, i);
  if (g->ew) for (k = 0; k < s->m; k ++) { i = s->e[k][0]; j = s->e[k][1]; g->ew[(size_t) i * n + j] = g->ew[(size_t) j * n + i] = we (ek, i, j); }
  g->edgesiz = g->m + ((layout == LAY_GAPS) ? 2 * n : 0);
  g->vert = malloc ((n + ((layout == LAY_COMPACT || layout == LAY_DESC) ? 1 : 0)) * sizeof (Num) + (n == 0));
  g->vend = (layout == LAY_GAPS || layout == LAY_VEND) ? malloc (n * sizeof (Num) + (n == 0)) : NULL;
  g->edge = malloc (g->edgesiz * sizeof (Num) + (g->edgesiz == 0));
  g->edlo = ek ? malloc (g->edgesiz * sizeof (Num) + (g->edgesiz == 0)) : NULL;
  for (k = 0; k < g->edgesiz; k ++) { g->edge[k] = -77777; if (g->edlo) g->edlo[k] = -55555; }
  pos = base;
  for (q = 0; q < n; q ++) {
    i = (layout == LAY_GAPS) ? n - 1 - q : q;
    if (layout == LAY_GAPS) pos += (i % 3);
    g->vert[i] = pos;
    for (k = 0; k < deg[i]; k ++) {
      j = adj[i][(layout == LAY_DESC) ? deg[i] - 1 - k : (layout == LAY_GAPS) ? (k + 1) % deg[i] : k];
      g->edge[pos - base] = j + base;
      if (g->edlo) g->edlo[pos - base] = we (ek, i, j);
      pos ++;
    }
    if (g->vend) g->vend[i] = pos;
  }
  if (! g->vend) g->vert[n] = pos;
  g->velo = NULL; if (vk) { g->velo = malloc (n * sizeof (Num) + (n == 0)); for (i = 0; i < n; i ++) g->velo[i] = g->w[i]; }
  g->vlbl = NULL; if (lk) { g->vlbl = malloc (n * sizeof (Num) + (n == 0)); for (i = 0; i < n; i ++) g->vlbl[i] = (lk == 1) ? base + n - 1 - i : (lk == 2) ? base + 10 + 3 * ((i * 2 + 1) % (n | 1)) : base + i; }
  for (i = 0; i < n; i ++) free (adj[i]);
  free (adj); free (deg);
  g->hash = g_hash (g);
  d = g->desc; l = sizeof (g->desc);
  k = snprintf (d, l, "%s n=%d base=%d layout=%d vload=%d eload=%d vlbl=%d", s->name, n, base, layout, vk, ek, lk);
  if (s->m <= 60) { k += snprintf (d + k, l - k, " edges="); for (i = 0; i < s->m; i ++) k += snprintf (d + k, l - k, "%d-%d,", s->e[i][0], s->e[i][1]); }
}
void g_exit (G *g) { free (g->vert); free (g->vend); free (g->velo); free (g->vlbl); free (g->edge); free (g->edlo); free (g->w); free (g->ew); memset (g, 0, sizeof (*g)); }
u64 g_hash (const G *g) {
  u64 h = 1469598103934665603ULL; int n = g->n;
  h = mc_hash (h, g->vert, (n + (g->vend ? 0 : 1)) * sizeof (Num));
  if (g->vend) h = mc_hash (h, g->vend, n * sizeof (Num));
  if (g->velo) h = mc_hash (h, g->velo, n * sizeof (Num));
  if (g->vlbl) h = mc_hash (h, g->vlbl, n * sizeof (Num));
  h = mc_hash (h, g->edge, g->edgesiz * sizeof (Num));
  if (g->edlo) h = mc_hash (h, g->edlo, g->edgesiz * sizeof (Num));
  return mc_hashi (h, n * 64 + g->base);
}
int g_same (const G *g) { return g_hash (g) == g->hash; }
int g_build (const G *g, SCOTCH_Graph *gr) {
  if (SCOTCH_graphInit (gr) != 0) return 1;
  return SCOTCH_graphBuild (gr, g->base, g->n, g->vert, g->vend, g->velo, g->vlbl, g->m, g->edge, g->edlo);
}
int g_adj (const G *g, int i, int j) { return g->ew[(size_t) i * g->n + j] != 0; }
Num g_vsum (const G *g) { Num s = 0; int i; for (i = 0; i < g->n; i ++) s += g->w[i]; return s; }
Num g_esum (const G *g) { Num s = 0; size_t i; for (i = 0; i < (size_t) g->n * g->n; i ++) s += g->ew[i]; return s; }
int g_comp (const G *g, const int *in, int *comp) {
  int *c = comp ? comp : malloc ((g->n + 1) * sizeof (int)), *q = malloc ((g->n + 1) * sizeof (int)), i, j, k = 0, h, t;
  for (i = 0; i < g->n; i ++) c[i] = -1;
  for (i = 0; i < g->n; i ++) {
    if (c[i] >= 0 || (in && ! in[i])) continue;
    c[i] = k; h = 0; t = 0; q[t ++] = i;
    while (h < t) { int v = q[h ++]; for (j = 0; j < g->n; j ++) if (g_adj (g, v, j) && c[j] < 0 && (! in || in[j])) { c[j] = k; q[t ++] = j; } }
    k ++;
  }
  if (! comp) free (c);
  free (q);
  return k;
}
void g_dist (const G *g, int v, int *dist) {
  int *q = malloc ((g->n + 1) * sizeof (int)), i, h = 0, t = 0;
  for (i = 0; i < g->n; i ++) dist[i] = -1;
  dist[v] = 0; q[t ++] = v;
  while (h < t) { int x = q[h ++]; for (i = 0; i < g->n; i ++) if (g_adj (g, x, i) && dist[i] < 0) { dist[i] = dist[x] + 1; q[t ++] = i; } }
  free (q);
}

int gv_read (GV *v, SCOTCH_Graph *gr, char *err, size_t el) {
  Num n, m, *vert, *vend, *velo, *vlbl, *edge, *edlo, base, k, arcs = 0; int i, j;
  memset (v, 0, sizeof (*v));
  SCOTCH_graphData (gr, &base, &n, &vert, &vend, &velo, &vlbl, &m, &edge, &edlo);
  v->n = n; v->base = base; v->m = m; v->hasvelo = velo != NULL; v->hasedlo = edlo != NULL; v->haslbl = vlbl != NULL;
  if (n < 0 || m < 0) { snprintf (err, el, "negative sizes %d %d", (int) n, (int) m); return 1; }
  v->w = calloc (n + 1, sizeof (Num)); v->lbl = calloc (n + 1, sizeof (Num)); v->ew = calloc ((size_t) n * n + 1, sizeof (Num)); v->mult = calloc ((size_t) n * n + 1, sizeof (int));
  for (i = 0; i < n; i ++) {
    Num a = vert[i], b = vend ? vend[i] : vert[i + 1];
    v->w[i] = velo ? velo[i] : 1; v->velosum += v->w[i]; v->lbl[i] = vlbl ? vlbl[i] : base + i;
    if (a < base || b < a) { snprintf (err, el, "vertex %d has arc range [%d,%d)", i, (int) a, (int) b); return 1; }
    arcs += b - a;
    for (k = a; k < b; k ++) {
      j = edge[k - base] - base;
      if (j < 0 || j >= n) { snprintf (err, el, "vertex %d has neighbour %d out of range", i, j); return 1; }
      if (j == i) { snprintf (err, el, "vertex %d has a loop", i); return 1; }
      v->mult[(size_t) i * n + j] ++; v->ew[(size_t) i * n + j] += edlo ? edlo[k - base] : 1; v->edlosum += edlo ? edlo[k - base] : 1;
    }
  }
  if (arcs != m) { snprintf (err, el, "arc number %d but %d arcs", (int) m, (int) arcs); return 1; }
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) {
    if (v->mult[(size_t) i * n + j] > 1) v->dup = 1;
    if (v->mult[(size_t) i * n + j] != v->mult[(size_t) j * n + i] || v->ew[(size_t) i * n + j] != v->ew[(size_t) j * n + i]) { snprintf (err, el, "arcs (%d,%d) not symmetric", i, j); return 1; }
  }
  return 0;
}
void gv_exit (GV *v) { free (v->w); free (v->lbl); free (v->ew); free (v->mult); memset (v, 0, sizeof (*v)); }
u64 gv_hash (const GV *v) {
  u64 h = mc_hashi (77, v->n); h = mc_hashi (h, v->base);
  h = mc_hash (h, v->w, v->n * sizeof (Num)); h = mc_hash (h, v->lbl, v->n * sizeof (Num)); return mc_hash (h, v->ew, (size_t) v->n * v->n * sizeof (Num));
}
const char *arr_str (const Num *a, int n) {
  static char b[4][1500]; static int r; int i, k = 0; char *s = b[r = (r + 1) & 3];
  s[0] = 0;
  for (i = 0; i < n && k < 1400; i ++) k += snprintf (s + k, 1500 - k, "%s%ld", i ? "," : "", (long) a[i]);
  return s;
}

/* Meshes: bipartite element / node graphs */
void m_make2 (M *q, int ne, int nn, const unsigned char *inc, const char *name, int base, int first, int layout, int ek, int nk, int lk) {
  int i, j, k, n = ne + nn; Num pos = base;
  memset (q, 0, sizeof (*q));
  q->ne = ne; q->nn = nn; q->base = base; q->first = first; q->layout = layout; q->ek = ek; q->nk = nk; q->lk = lk;
  q->velmbas = base + (first ? nn : 0); q->vnodbas = base + (first ? 0 : ne);
  q->inc = malloc (ne * nn + 1); memcpy (q->inc, inc, ne * nn);
  for (i = 0; i < ne * nn; i ++) q->m += 2 * q->inc[i];
  q->edgesiz = q->m + ((layout == LAY_GAPS) ? 2 * n : 0);
  q->vert = malloc ((n + ((layout == LAY_COMPACT || layout == LAY_DESC) ? 1 : 0)) * sizeof (Num) + 1);
  q->vend = (layout == LAY_GAPS || layout == LAY_VEND) ? malloc (n * sizeof (Num) + 1) : NULL;
  q->edge = malloc (q->edgesiz * sizeof (Num) + 1);
  for (i = 0; i < q->edgesiz; i ++) q->edge[i] = -77777;
  q->ew = calloc (ne + 1, sizeof (Num)); q->nw = calloc (nn + 1, sizeof (Num));
  for (i = 0; i < ne; i ++) q->ew[i] = ek ? 1 + (i * 5 + 2) % 4 : 1;
  for (i = 0; i < nn; i ++) q->nw[i] = nk ? 1 + (i * 3 + 1) % 5 : 1;
  for (k = 0; k < n; k ++) {
    int v = (layout == LAY_GAPS) ? n - 1 - k : k, isel, x, lim;
    isel = (v + base >= q->velmbas && v + base < q->velmbas + ne);
    x = v + base - (isel ? q->velmbas : q->vnodbas); lim = isel ? nn : ne;
    if (layout == LAY_GAPS) pos += v % 3;
    q->vert[v] = pos;
    for (j = 0; j < lim; j ++) { int y = (layout == LAY_DESC) ? lim - 1 - j : j; if (isel ? q->inc[x * nn + y] : q->inc[y * nn + x]) q->edge[pos ++ - base] = y + (isel ? q->vnodbas : q->velmbas); }
    if (q->vend) q->vend[v] = pos;
  }
  if (! q->vend) q->vert[n] = pos;
  if (ek) { q->velo = malloc (ne * sizeof (Num) + 1); memcpy (q->velo, q->ew, ne * sizeof (Num)); }
  if (nk) { q->vnlo = malloc (nn * sizeof (Num) + 1); memcpy (q->vnlo, q->nw, nn * sizeof (Num)); }
  if (lk) { q->vlbl = malloc (n * sizeof (Num) + 1); for (i = 0; i < n; i ++) q->vlbl[i] = base + n - 1 - i; }
  q->hash = m_hash (q);
  k = snprintf (q->desc, sizeof (q->desc), "mesh %s ne=%d nn=%d base=%d nodesfirst=%d layout=%d eload=%d nload=%d vlbl=%d inc=", name, ne, nn, base, first, layout, ek, nk, lk);
  for (i = 0; i < ne && ne * nn <= 100; i ++) { for (j = 0; j < nn; j ++) k += snprintf (q->desc + k, sizeof (q->desc) - k, "%d", q->inc[i * nn + j]); k += snprintf (q->desc + k, sizeof (q->desc) - k, "/"); }
}
void m_make (M *q, int ne, int nn, u64 mask, int base, int first, int layout, int ek, int nk, int lk) {
  unsigned char b[64]; int i;
  for (i = 0; i < ne * nn; i ++) b[i] = (mask >> i) & 1;
  m_make2 (q, ne, nn, b, "all", base, first, layout, ek, nk, lk);
}
int m_family (M *q, int idx, int base, int first, int layout, int ek, int nk, int lk) {
  static const int dim[][2] = { { 1, 7 }, { 2, 3 }, { 3, 3 }, { 4, 4 }, { 6, 5 }, { 9, 8 } };
  int d = idx / 4, kind = idx % 4, a, b, ne, nn, x, y; unsigned char *inc;
  if (d >= (int) (sizeof (dim) / sizeof (dim[0]))) return 0;
  a = dim[d][0]; b = dim[d][1];
  if (kind == 0) {                                   /* quadrangles */
    ne = a * b; nn = (a + 1) * (b + 1); inc = calloc (ne * nn, 1);
    for (y = 0; y < b; y ++) for (x = 0; x < a; x ++) { int e = y * a + x, v = y * (a + 1) + x; inc[e * nn + v] = inc[e * nn + v + 1] = inc[e * nn + v + a + 1] = inc[e * nn + v + a + 2] = 1; }
    m_make2 (q, ne, nn, inc, "quad", base, first, layout, ek, nk, lk);
  } else if (kind == 1) {                            /* edges as elements (path of nodes) plus isolated nodes */
    ne = a * b; nn = a * b + 3; inc = calloc (ne * nn, 1);
    for (x = 0; x < ne; x ++) inc[x * nn + x] = inc[x * nn + x + 1] = 1;
    m_make2 (q, ne, nn, inc, "bars", base, first, layout, ek, nk, lk);
  } else if (kind == 2) {                            /* two disjoint strips of triangles, and an isolated element */
    ne = 2 * a * b + 1; nn = 2 * (a * b + 2); inc = calloc (ne * nn, 1);
    for (y = 0; y < 2; y ++) for (x = 0; x < a * b; x ++) { int e = y * a * b + x, v = y * (a * b + 2) + x; inc[e * nn + v] = inc[e * nn + v + 1] = inc[e * nn + v + 2] = 1; }
    m_make2 (q, ne, nn, inc, "strips", base, first, layout, ek, nk, lk);
  } else {                                           /* one node in all elements, twin nodes */
    ne = a * b; nn = 2 * a * b + 1; inc = calloc (ne * nn, 1);
    for (x = 0; x < ne; x ++) inc[x * nn] = inc[x * nn + 1 + x] = inc[x * nn + 1 + ne + (x + 1) % ne] = 1;
    m_make2 (q, ne, nn, inc, "hub", base, first, layout, ek, nk, lk);
  }
  free (inc);
  return 1;
}
void m_exit (M *q) { free (q->vert); free (q->vend); free (q->velo); free (q->vnlo); free (q->vlbl); free (q->edge); free (q->inc); free (q->ew); free (q->nw); memset (q, 0, sizeof (*q)); }
u64 m_hash (const M *q) {
  int n = q->ne + q->nn; u64 h = mc_hashi (99, n * 64 + q->base * 2 + q->first);
  h = mc_hash (h, q->vert, (n + (q->vend ? 0 : 1)) * sizeof (Num));
  if (q->vend) h = mc_hash (h, q->vend, n * sizeof (Num));
  if (q->velo) h = mc_hash (h, q->velo, q->ne * sizeof (Num));
  if (q->vnlo) h = mc_hash (h, q->vnlo, q->nn * sizeof (Num));
  if (q->vlbl) h = mc_hash (h, q->vlbl, n * sizeof (Num));
  return mc_hash (h, q->edge, q->edgesiz * sizeof (Num));
}
int m_same (const M *q) { return m_hash (q) == q->hash; }
int m_build (const M *q, SCOTCH_Mesh *me) {
  if (SCOTCH_meshInit (me) != 0) return 1;
  return SCOTCH_meshBuild (me, q->velmbas, q->vnodbas, q->ne, q->nn, q->vert, q->vend, q->velo, q->vnlo, q->vlbl, q->m, q->edge);
}
