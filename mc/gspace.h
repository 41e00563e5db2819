/* Spaces of graphs and meshes explored by the harnesses, and the reference view (adjacency matrix) of them. */
#ifndef GSPACE_H
#define GSPACE_H
#include "mc.h"
#include "scotch.h"
typedef SCOTCH_Num Num;

typedef struct { int n, m, cap; int (*e)[2]; char name[64]; } Shape;      /* undirected edges, 0-based */
void sh_init (Shape *); void sh_exit (Shape *);
void sh_reset (Shape *, int n, const char *name);
void sh_edge (Shape *, int, int);
void sh_mask (Shape *, int n, u64 mask);            /* bit j*(j-1)/2+i is edge {i<j}                  */
int  sh_maskbits (int n);
int  sh_atlas (Shape *, int n, int idx);            /* idx-th graph of n vertices up to isomorphism; 0: none */
int  sh_family (Shape *, int idx, int big);         /* structured graphs; 0: none; big: 0 small, 1 medium, 2 large */
int  sh_atlasnbr (int n);
void sh_grid2 (Shape *, int, int, int torus, int five);
void sh_grid3 (Shape *, int, int, int);

typedef struct {
  int n, base, layout, vk, ek, lk;
  Num m;                                            /* number of arcs                               */
  Num *vert, *vend, *velo, *vlbl, *edge, *edlo;     /* arrays passed to the library; may be NULL    */
  Num edgesiz;                                      /* size of edge array (gaps included)           */
  Num *w, *ew;                                      /* reference: vertex weights, n*n edge weights (0: no edge) */
  u64 hash;
  char desc[3000];
} G;
enum { LAY_COMPACT = 0, LAY_GAPS = 1, LAY_DESC = 2, LAY_VEND = 3, LAY_NBR = 4 };
void g_make (G *, const Shape *, int base, int layout, int vk, int ek, int lk);   /* vk, ek, lk: weight / label kinds; 0 none */
void g_exit (G *);
u64  g_hash (const G *);                            /* hash of the user-visible arrays              */
int  g_same (const G *);                            /* arrays are as g_make() left them             */
int  g_build (const G *, SCOTCH_Graph *);           /* SCOTCH_graphInit + SCOTCH_graphBuild         */
int  g_adj (const G *, int i, int j);               /* 0-based */
Num  g_vsum (const G *); Num g_esum (const G *);    /* sums of vertex loads, of arc loads           */
int  g_comp (const G *, const int *in, int *comp);  /* components of sub-graph {v: in[v]} (in may be NULL); comp may be NULL */
void g_dist (const G *, int v, int *dist);          /* hop distances, -1 unreachable                */

/* Reads back a library graph into an adjacency matrix: returns NULL and explains in err if inconsistent. */
typedef struct { int n; Num base, m, velosum, edlosum; int haslbl, hasvelo, hasedlo, dup; Num *w, *lbl; Num *ew; int *mult; } GV;
int  gv_read (GV *, SCOTCH_Graph *, char *err, size_t errsiz);   /* 0 if symmetric, loop-free, in-range */
void gv_exit (GV *);
u64  gv_hash (const GV *);
const char *arr_str (const Num *, int n);
#endif
#ifndef MSPACE_H
#define MSPACE_H
typedef struct {
  int ne, nn, base, first, layout, ek, nk, lk;      /* first: 0 elements numbered first, 1 nodes first */
  Num velmbas, vnodbas, m, edgesiz;
  Num *vert, *vend, *velo, *vnlo, *vlbl, *edge;
  unsigned char *inc;                               /* inc[e*nn+v]                                  */
  Num *ew, *nw;
  u64 hash; char desc[1500];
} M;
void m_make (M *, int ne, int nn, u64 mask, int base, int first, int layout, int ek, int nk, int lk);
void m_make2 (M *, int ne, int nn, const unsigned char *inc, const char *name, int base, int first, int layout, int ek, int nk, int lk);
int  m_family (M *, int idx, int base, int first, int layout, int ek, int nk, int lk);
void m_exit (M *); u64 m_hash (const M *); int m_same (const M *);
int  m_build (const M *, SCOTCH_Mesh *);
#endif
