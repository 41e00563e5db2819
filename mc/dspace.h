/* Spaces of distributed graphs: a reference graph and a distribution of its vertices over processes. */
#ifndef DSPACE_H
#define DSPACE_H
#include "gspace.h"
#include "mcmpi.h"
#include "ptscotch.h"
#define DMAXP 8
typedef struct {
  G *g; int np, layout, ghost; int cnt[DMAXP], max[DMAXP], off[DMAXP + 1]; Num beg[DMAXP + 1];   /* off: first vertex index; beg: first global number */
  Num m[DMAXP], siz[DMAXP], *vert[DMAXP], *vend[DMAXP], *velo[DMAXP], *vlbl[DMAXP], *edge[DMAXP], *gst[DMAXP], *edlo[DMAXP], *edge0[DMAXP];
  char desc[400];
} D;
/* slack: bit p: process p has unused global numbers after its vertices; layout as in gspace.h (compact / gaps) */
void d_make (D *, G *, int np, const int *cnt, int slack, int layout, int ghost);
void d_exit (D *);
int  d_build (D *, int rank, SCOTCH_Dgraph *);         /* SCOTCH_dgraphBuild with the arrays of the process */
Num  d_num (const D *, int v);                         /* global number of a vertex */
int  d_own (const D *, int v);
int  d_idx (const D *, Num glb);                       /* -1: not a vertex */
int  d_split (int n, int np, int idx, int *cnt);       /* idx-th distribution of n vertices over np processes; 0: none */
int  d_splitnbr (int n, int np);
void d_even (int n, int np, int *cnt);
/* What the processes hold */
typedef struct { int set; Num base, vglb, vloc, vmax, vgst, eglb, eloc, esiz, *vert, *vend, *velo, *vlbl, *edge, *gst, *edlo; } RV;
typedef struct { int np; RV r[DMAXP]; } DV;
void dv_init (DV *, int np); void dv_exit (DV *);
void dv_read (DV *, int rank, SCOTCH_Dgraph *);
typedef struct { int n, haslbl, hasvelo, hasedlo; Num base, m, *num, *w, *lbl, *ew; int *own, *mult; } DW;
int  dv_join (DV *, DW *, char *err, size_t errsiz);   /* 0: the fragments form one valid graph */
int  dw_idx (const DW *, Num glb);
void dw_exit (DW *);
u64  dw_hash (const DW *);
#endif
