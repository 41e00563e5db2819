/* Space of target architectures, with an independent reference of their terminals: weights and pairwise distances. */
#ifndef ASPACE_H
#define ASPACE_H
#include "gspace.h"
enum { AK_CMPLT, AK_CMPLTW, AK_HCUB, AK_MESH2, AK_MESH3, AK_MESHX, AK_TORUS2, AK_TORUS3, AK_TORUSX, AK_TLEAF, AK_LTLEAF, AK_DECO, AK_DECO2, AK_SUB, AK_VCMPLT, AK_VHCUB };
typedef struct ASpec {
  int kind, np, p[40];                    /* parameters                                                   */
  int q[40], nq;                          /* link costs, permutation, or list of kept terminals           */
  int gn; u64 gmask; int vk, ek, base;    /* graph of decomposition-defined architectures; gn < 0: family */
  const struct ASpec *org;                /* original architecture of a sub-architecture                  */
} ASpec;
typedef struct A {
  int n, var, exact, term;                     /* terminals (0 if variable-sized), distances are exactly specified, distances are only computed between terminals */
  Num *num;                               /* terminal numbers                                             */
  Num *wght, *dist;                       /* reference values (dist: n*n)                                 */
  SCOTCH_Arch arch;
  struct A *org; SCOTCH_Graph *graf; G *g;
  char desc[1200];
} A;
int  a_make (A *, const ASpec *);         /* builds through the public interface; 0 if the library accepted */
void a_exit (A *);
void a_each (int level, void (*fn) (const ASpec *));   /* visits all specs of a level: 0 small list for mapping, 1 quick space, 2 thorough space */
int  a_list (int idx, ASpec *);           /* idx-th spec of the short list; 0: none                        */
#endif
