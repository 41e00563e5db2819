#include "dspace.h"
static void *xal (size_t n) { void *p = calloc (n ? n : 1, 1); if (! p) abort (); return p; }
static Num *cp (const Num *s, long n) { Num *p = malloc (n * sizeof (Num) + (n == 0)); if (! p) abort (); if (n) memcpy (p, s, n * sizeof (Num)); return p; }
static long binom (int n, int k) { long r = 1; int i; for (i = 1; i <= k; i ++) r = r * (n - k + i) / i; return r; }
int d_splitnbr (int n, int np) { return (int) binom (n + np - 1, np - 1); }
int d_split (int n, int np, int idx, int *cnt) {
  int p, c; if (idx >= d_splitnbr (n, np)) return 0;
  for (p = 0; p < np - 1; p ++) { for (c = 0; ; c ++) { int k = d_splitnbr (n - c, np - p - 1); if (idx < k) break; idx -= k; } cnt[p] = c; n -= c; }
  cnt[np - 1] = n; return 1;
}
void d_even (int n, int np, int *cnt) { int p; for (p = 0; p < np; p ++) cnt[p] = n / np + (p < n % np); }
Num d_num (const D *d, int v) { int p = d_own (d, v); return d->beg[p] + v - d->off[p]; }
int d_own (const D *d, int v) { int p; for (p = 0; v >= d->off[p + 1]; p ++) ; return p; }
int d_idx (const D *d, Num x) { int p; for (p = 0; p < d->np; p ++) if (x >= d->beg[p] && x < d->beg[p] + d->cnt[p]) return d->off[p] + x - d->beg[p]; return -1; }
void d_make (D *d, G *g, int np, const int *cnt, int slack, int layout, int ghost) {
  int p, i, v, k; Num e;
  memset (d, 0, sizeof (*d)); d->g = g; d->np = np; d->layout = layout; d->ghost = ghost; d->beg[0] = g->base;
  for (p = 0; p < np; p ++) { d->cnt[p] = cnt[p]; d->max[p] = cnt[p] + ((slack >> p) & 1 ? 1 + p : 0); d->off[p + 1] = d->off[p] + cnt[p]; d->beg[p + 1] = d->beg[p] + d->max[p]; }
  for (p = 0; p < np; p ++) {
    int n = cnt[p]; Num m = 0, siz, *st;
    for (i = 0; i < n; i ++) { v = d->off[p] + i; m += (g->vend ? g->vend[v] : g->vert[v + 1]) - g->vert[v]; }
    d->m[p] = m; siz = m + (layout ? n + 1 : 0); d->siz[p] = siz;
    d->vert[p] = malloc ((layout ? n : n + 1) * sizeof (Num) | 4); st = xal ((n + 1) * sizeof (Num));
    if (layout) d->vend[p] = malloc (n * sizeof (Num) | 4);
    d->edge[p] = malloc (siz * sizeof (Num) | 4); if (g->edlo) d->edlo[p] = malloc (siz * sizeof (Num) | 4);
    if (ghost) { d->gst[p] = malloc (siz * sizeof (Num) | 4); for (e = 0; e < siz; e ++) d->gst[p][e] = -7777; }
    if (g->velo) { d->velo[p] = malloc (n * sizeof (Num) | 4); for (i = 0; i < n; i ++) d->velo[p][i] = g->velo[d->off[p] + i]; }
    if (g->vlbl) { d->vlbl[p] = malloc (n * sizeof (Num) | 4); for (i = 0; i < n; i ++) d->vlbl[p][i] = g->vlbl[d->off[p] + i]; }
    for (e = 0; e < siz; e ++) { d->edge[p][e] = -9999; if (d->edlo[p]) d->edlo[p][e] = -9999; }
    for (i = 0, e = 0; i < n; i ++) {                    /* layouts 2, 3: in descending order */
      k = layout >= 2 ? n - 1 - i : i; v = d->off[p] + k; if (layout) e ++;
      st[k] = e; e += (g->vend ? g->vend[v] : g->vert[v + 1]) - g->vert[v];
    }
    for (i = 0; i < n; i ++) {
      Num a, b, x; v = d->off[p] + i; a = g->vert[v]; b = g->vend ? g->vend[v] : g->vert[v + 1];
      d->vert[p][i] = st[i] + g->base; if (layout) d->vend[p][i] = st[i] + b - a + g->base;
      for (x = a; x < b; x ++) {
        int u = g->edge[x - g->base] - g->base; Num q = st[i] + x - a;
        d->edge[p][q] = g->vlbl ? g->vlbl[u] : d_num (d, u); if (d->edlo[p]) d->edlo[p][q] = g->edlo[x - g->base];
      }
    }
    if (! layout) d->vert[p][n] = m + g->base;
    if (g->vlbl) d->edge0[p] = cp (d->edge[p], siz);
    free (st);
  }
  k = snprintf (d->desc, sizeof (d->desc), "np=%d cnt=", np); for (p = 0; p < np; p ++) k += snprintf (d->desc + k, sizeof (d->desc) - k, "%s%d%s", p ? "," : "", cnt[p], d->max[p] > cnt[p] ? "+" : "");
  snprintf (d->desc + k, sizeof (d->desc) - k, " dlay=%d ghost=%d", layout, ghost);
}
void d_exit (D *d) { int p; for (p = 0; p < d->np; p ++) { free (d->vert[p]); free (d->vend[p]); free (d->velo[p]); free (d->vlbl[p]); free (d->edge[p]); free (d->edge0[p]); free (d->gst[p]); free (d->edlo[p]); } }
int d_build (D *d, int r, SCOTCH_Dgraph *g) {
  if (d->edge0[r]) memcpy (d->edge[r], d->edge0[r], d->siz[r] * sizeof (Num));    /* the library turns labels into numbers in place */
  return SCOTCH_dgraphBuild (g, d->g->base, d->cnt[r], d->max[r], d->vert[r], d->vend[r], d->velo[r], d->vlbl[r], d->m[r], d->siz[r], d->edge[r], d->gst[r], d->edlo[r]);
}

void dv_init (DV *v, int np) { memset (v, 0, sizeof (*v)); v->np = np; }
void dv_exit (DV *v) { int p; for (p = 0; p < v->np; p ++) { RV *r = &v->r[p]; free (r->vert); free (r->vend); free (r->velo); free (r->vlbl); free (r->edge); free (r->gst); free (r->edlo); } memset (v->r, 0, sizeof (v->r)); }
void dv_read (DV *v, int k, SCOTCH_Dgraph *g) {
  RV *r = &v->r[k]; Num *vert, *vend, *velo, *vlbl, *edge, *gst, *edlo; MPI_Comm c;
  SCOTCH_dgraphData (g, &r->base, &r->vglb, &r->vloc, &r->vmax, &r->vgst, &vert, &vend, &velo, &vlbl, &r->eglb, &r->eloc, &r->esiz, &edge, &gst, &edlo, &c);
  r->vert = cp (vert, r->vloc); r->vend = cp (vend, r->vloc); r->velo = velo ? cp (velo, r->vloc) : NULL; r->vlbl = vlbl ? cp (vlbl, r->vloc) : NULL;
  { Num i, e = 0; for (i = 0; i < r->vloc; i ++) { if (r->vert[i] < r->base || r->vend[i] < r->vert[i]) { mc_fail ("process %d: vertex %ld has arcs [%ld,%ld)", k, (long) i, (long) r->vert[i], (long) r->vend[i]); r->vend[i] = r->vert[i] = r->base; } if (r->vend[i] - r->base > e) e = r->vend[i] - r->base; } if (e > r->esiz) { mc_fail ("process %d: arcs beyond the edge array", k); e = r->esiz; } 
    r->edge = cp (edge, e); r->gst = gst && r->vgst >= 0 ? cp (gst, e) : NULL; r->edlo = edlo ? cp (edlo, e) : NULL; }
  r->set = 1;
}
int dw_idx (const DW *w, Num x) { int i; for (i = 0; i < w->n; i ++) if (w->num[i] == x) return i; return -1; }
int dv_join (DV *v, DW *w, char *err, size_t es) {
  int p, i, j, k = 0, f = -1; Num b = 0, m = 0; Num *tab; long span;
  memset (w, 0, sizeof (*w));
  for (p = 0; p < v->np; p ++) if (v->r[p].set) { w->n += v->r[p].vloc; if (f < 0) f = p; }
  if (f < 0) { snprintf (err, es, "no process holds the graph"); return 1; }
  w->base = v->r[f].base; w->num = xal (w->n * sizeof (Num)); w->w = xal (w->n * sizeof (Num)); w->lbl = xal (w->n * sizeof (Num)); w->own = xal (w->n * sizeof (int)); w->ew = xal ((long) w->n * w->n * sizeof (Num)); w->mult = xal ((long) w->n * w->n * sizeof (int));
  for (p = 0, b = w->base; p < v->np; p ++) if (v->r[p].set) {
    RV *r = &v->r[p];
    if (r->base != w->base || r->vglb != w->n || r->eglb != v->r[f].eglb || !! r->velo != !! v->r[f].velo || !! r->vlbl != !! v->r[f].vlbl || !! r->edlo != !! v->r[f].edlo) { snprintf (err, es, "processes %d and %d disagree about the global graph (base %ld/%ld, vertices %ld/%ld of %d, arcs %ld/%ld)", f, p, (long) w->base, (long) r->base, (long) v->r[f].vglb, (long) r->vglb, w->n, (long) v->r[f].eglb, (long) r->eglb); return 1; }
    if (r->vmax < r->vloc) { snprintf (err, es, "process %d: more vertices than global numbers", p); return 1; }
    for (i = 0; i < r->vloc; i ++, k ++) { w->num[k] = b + i; w->own[k] = p; w->w[k] = r->velo ? r->velo[i] : 1; w->lbl[k] = r->vlbl ? r->vlbl[i] : w->num[k]; }
    b += r->vmax; m += r->eloc;
  }
  w->hasvelo = v->r[f].velo != NULL; w->haslbl = v->r[f].vlbl != NULL; w->hasedlo = v->r[f].edlo != NULL; w->m = m;
  if (m != v->r[f].eglb) { snprintf (err, es, "%ld arcs in total, global figure %ld", (long) m, (long) v->r[f].eglb); return 1; }
  span = b - w->base; tab = xal (span * sizeof (Num)); for (i = 0; i < span; i ++) tab[i] = -1; for (i = 0; i < w->n; i ++) tab[w->num[i] - w->base] = i;
  for (p = 0, k = 0; p < v->np; p ++) if (v->r[p].set) {
    RV *r = &v->r[p]; Num e, a = 0;
    for (i = 0; i < r->vloc; i ++, k ++) for (e = r->vert[i]; e < r->vend[i]; e ++, a ++) {
      Num x = r->edge[e - r->base]; j = x < w->base || x >= b ? -1 : tab[x - w->base];
      if (j < 0) { snprintf (err, es, "process %d: vertex %d has neighbour %ld, which does not exist", p, i, (long) x); free (tab); return 1; }
      if (j == k) { snprintf (err, es, "process %d: vertex %d is its own neighbour", p, i); free (tab); return 1; }
      w->mult[k * w->n + j] ++; w->ew[k * w->n + j] += r->edlo ? r->edlo[e - r->base] : 1;
    }
    if (a != r->eloc) { snprintf (err, es, "process %d: %ld arcs, local figure %ld", p, (long) a, (long) r->eloc); free (tab); return 1; }
  }
  free (tab);
  for (i = 0; i < w->n; i ++) for (j = 0; j < w->n; j ++) {
    if (w->mult[i * w->n + j] > 1) { snprintf (err, es, "duplicate arc %d-%d", i, j); return 1; }
    if (w->mult[i * w->n + j] != w->mult[j * w->n + i] || w->ew[i * w->n + j] != w->ew[j * w->n + i]) { snprintf (err, es, "arc %d-%d differs from its opposite", i, j); return 1; }
  }
  return 0;
}
void dw_exit (DW *w) { free (w->num); free (w->w); free (w->lbl); free (w->own); free (w->ew); free (w->mult); memset (w, 0, sizeof (*w)); }
u64 dw_hash (const DW *w) { u64 h = mc_hashi (w->n, w->base); h = mc_hash (h, w->num, w->n * sizeof (Num)); h = mc_hash (h, w->w, w->n * sizeof (Num)); h = mc_hash (h, w->lbl, w->n * sizeof (Num)); h = mc_hash (h, w->own, w->n * sizeof (int)); return mc_hash (h, w->ew, (long) w->n * w->n * sizeof (Num)); }
