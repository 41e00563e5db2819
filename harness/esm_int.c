#include "module.h"
#include "common.h"
#include "scotch.h"
#include "graph.h"
#include "dof.h"
#include "symbol.h"
#include "order.h"
#include "fax.h"
#include "esm_int.h"
int faxrun (SCOTCH_Graph *g, const char *st, FaxRes *f, int base) {
  Order o; SymbolMatrix s; Dof d; INT n, i, j, b; double opc; int rc;
  SCOTCH_graphSize (g, &n, NULL);
  orderInit (&o); symbolInit (&s);
  if ((st[0] ? orderGraphStrat (&o, g, st) : orderGraph (&o, g)) != 0) return 1;
  f->ocheck = orderCheck (&o);
  rc = symbolFaxGraph (&s, g, &o);
  if (rc) { orderExit (&o); symbolExit (&s); return 1; }
  f->check = symbolCheck (&s);
  f->ncblk = o.cblknbr; f->nc = s.cblknbr; f->nblok = s.bloknbr; f->nodenbr = s.nodenbr;
  f->rang = malloc ((o.cblknbr + 1) * sizeof (int)); f->perm = malloc (n * sizeof (int)); f->peri = malloc (n * sizeof (int));
  f->fcol = malloc (s.cblknbr * sizeof (int)); f->lcol = malloc (s.cblknbr * sizeof (int)); f->blok = malloc ((s.bloknbr + 1) * sizeof (f->blok[0]));
  for (i = 0; i <= o.cblknbr; i ++) f->rang[i] = o.rangtab[i] - base;
  for (i = 0; i < n; i ++) { f->perm[i] = o.permtab[i] - base; f->peri[i] = o.peritab[i] - base; }
  for (i = 0; i < s.cblknbr; i ++) { f->fcol[i] = s.cblktab[i].fcolnum - base; f->lcol[i] = s.cblktab[i].lcolnum - base;
    for (j = s.cblktab[i].bloknum - base; j < s.cblktab[i + 1].bloknum - base; j ++) { f->blok[j][0] = i; f->blok[j][1] = s.bloktab[j].frownum - base; f->blok[j][2] = s.bloktab[j].lrownum - base; f->blok[j][3] = s.bloktab[j].cblknum - base; } }
  for (b = 0; b < 2; b ++) { dofInit (&d); dofConstant (&d, base, n, b ? 3 : 1); symbolCost (&s, &d, SYMBOLCOSTLDLT, &f->nnz[b], &opc); dofExit (&d); }
  symbolExit (&s); orderExit (&o); return 0;
}
void faxexit (FaxRes *f) { free (f->rang); free (f->perm); free (f->peri); free (f->fcol); free (f->lcol); free (f->blok); }
