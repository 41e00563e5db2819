/* One case per known finding: executions on which the real code is known to fail (see known_findings.json). */
#include "gspace.h"

static int path (Shape *s, int n) { int i; sh_reset (s, n, "path"); for (i = 1; i < n; i ++) sh_edge (s, i - 1, i); return n; }
static void ordwith (G *g, const char *str) {
  SCOTCH_Graph gr; SCOTCH_Strat st; int n = g->n, i; Num *perm = malloc (n * sizeof (Num)), *peri = malloc (n * sizeof (Num)); char *seen = calloc (n, 1);
  g_build (g, &gr); SCOTCH_stratInit (&st); SCOTCH_randomReset ();
  if (SCOTCH_stratGraphOrder (&st, str) != 0) mc_fail ("strategy refused");
  else if (SCOTCH_graphOrder (&gr, &st, perm, peri, NULL, NULL, NULL) != 0) mc_fail ("ordering failed");
  else for (i = 0; i < n; i ++) { Num p = perm[i] - g->base; if (p < 0 || p >= n || seen[p]) { mc_fail ("direct permutation is not one"); break; } seen[p] = 1; }
  mc_ops (1);
  SCOTCH_stratExit (&st); SCOTCH_graphExit (&gr); free (perm); free (peri); free (seen);
}

void mc_run (void) {
  Shape s; G g; int set = atoi (getenv ("MC_SET") ? getenv ("MC_SET") : "0"); sh_init (&s);
  if (set == 7) {
    sh_reset (&s, 6, "triangle"); sh_edge (&s, 1, 2); sh_edge (&s, 1, 3); sh_edge (&s, 2, 3);
    g_make (&g, &s, 0, 0, 2, 0, 0);
    if (mc_case ("W-ZEROLOAD minimum fill ordering of a graph with null vertex loads")) ordwith (&g, "f{cmin=0,cmax=100000,frat=0.0}");
    g_exit (&g);
    path (&s, 8); g_make (&g, &s, 0, 0, 0, 0, 0);
    if (mc_case ("W-BLOCKREC block splitting of an ordering that has several blocks")) ordwith (&g, "b{strat=n{sep=h{pass=2},ole=s,ose=s},cmin=1}");
    g_exit (&g);
    sh_reset (&s, 5, "star"); sh_edge (&s, 1, 2); sh_edge (&s, 1, 3); g_make (&g, &s, 0, 0, 1, 0, 0);
    if (mc_case ("W-BLOCKLOAD block splitting of leaves of a weighted graph")) ordwith (&g, "n{sep=h,ole=b{strat=s,cmin=1},ose=b{strat=g,cmin=2}}");
    g_exit (&g);
  }
  sh_exit (&s);
}
