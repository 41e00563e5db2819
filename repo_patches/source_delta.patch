From a765598bae2d60181b9e0ae9477d65f9e8d2b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 001/134] fix: give edge-separation bipartition graph its
 execution context

---
 src/libscotch/vgraph_separate_es.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index 65e8b82..f5905a9 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -490,6 +490,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
   actgrafdat.veextax   = NULL;                    /* No external gains                           */
   actgrafdat.parttax   = grafptr->parttax;        /* Inherit arrays from vertex separation graph */
   actgrafdat.frontab   = grafptr->frontab;
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context */
   bgraphInit2 (&actgrafdat, 1, grafptr->dwgttab[0], grafptr->dwgttab[1], 0, 0); /* Complete initialization and set all vertices to part 0 */
 
   if (bgraphBipartSt (&actgrafdat, paraptr->strat) != 0) { /* Bipartition active subgraph */
-- 
2.43.0


From 0c1ef54b0979da576813cf4d391302953211ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 002/134] fix: give k-way block ordering mapping graph its
 execution context

---
 src/libscotch/hgraph_order_kp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 4288c35..a30ac2e 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -109,6 +109,8 @@ const HgraphOrderKpParam * restrict const paraptr)
   hgraphUnhalo (grafptr, &actgrafdat.s);          /* Extract non-halo part of given graph       */
   actgrafdat.s.vnumtax = NULL;                    /* Do not keep numbers from nested dissection */
 
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context */
+
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
   if ((kgraphInit  (&actgrafdat, &actgrafdat.s, &archdat, NULL, 0, NULL, 1, 1, NULL) != 0) ||
-- 
2.43.0


From c81ce10f4d33595de4452e9a640cb1e83291aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 003/134] fix: count weights of isolated vertices in halo
 minimum degree ordering

---
 src/libscotch/hall_order_hd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index b3b07e1..232f29b 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -495,7 +495,7 @@ Gnum * restrict     w)                            /* Flag array
       head[deg] = i;
     }
     else {
-      nel ++;
+      nel += nv[i];
       elen[i] = - nel;
       pe[i]   = 0;
       w[i]    = 0;
-- 
2.43.0


From 3dbdba89e3efb8977705b99ded2e6964cb43f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 004/134] fix: use up-to-date domain array after remapping in
 k-way Fiduccia-Mattheyses

---
 src/libscotch/kgraph_map_fm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..1ca56b2 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -994,8 +994,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   const Gnum * restrict const     edgetax = grafptr->s.edgetax;
   const Gnum * restrict const     edlotax = grafptr->s.edlotax;
   const Arch * restrict const     archptr = grafptr->m.archptr;
-  const Gnum                      domnnbr = grafptr->m.domnnbr;
-  const ArchDom * restrict const  domntab = grafptr->m.domntab;
+  Gnum                            domnnbr = grafptr->m.domnnbr; /* May change if mapping is recomputed */
+  const ArchDom * restrict        domntab = grafptr->m.domntab;
   Anum * restrict const           parttax = grafptr->m.parttax;
   Anum * restrict const           parotax = grafptr->r.m.parttax;
   const Gnum * restrict const     pfixtax = grafptr->pfixtax;
@@ -1034,16 +1034,19 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-      const Strat *         strat;
+      Strat *               strat;
 
       strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
       kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      stratExit (strat);
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
         return  (0);                              /* This algorithm is still useless  */
       }
 
+      domnnbr = grafptr->m.domnnbr;               /* Domain array may have changed after mapping */
+      domntab = grafptr->m.domntab;
       if (memReallocGroup ((void *) comploadmax,  /* domnnbr has changed after mapping */
                            &comploadmax, (size_t) (domnnbr * sizeof (Gnum)),
                            &comploaddlt, (size_t) (domnnbr * sizeof (Gnum)), NULL) == NULL) {
-- 
2.43.0


From 72cb268ec0d6d9c1305302df0cde2c309bfc5efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 005/134] fix: write compressed ordering of a subgraph at its
 own place in the permutation

---
 src/libscotch/hgraph_order_cp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index 20a65d0..c322c16 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -127,7 +127,7 @@ const HgraphOrderCpParam * const  paraptr)
 #endif /* SCOTCH_DEBUG_ORDER2 */
 
 
-  Gnum * restrict const         fineperitab = fineordeptr->peritab;
+  Gnum * restrict const         fineperitab = fineordeptr->peritab + ordenum; /* Start from index of subgraph in ordering */
   const Gnum * restrict const   fineverttax = finegrafptr->s.verttax;
   const Gnum * restrict const   finevelotax = finegrafptr->s.velotax;
   const Gnum * restrict const   finevendtax = finegrafptr->s.vendtax;
-- 
2.43.0


From 889d67a7756b37a5bf64de173f651b5591c65cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 006/134] fix: order connected components from the start index
 of the subgraph

---
 src/libscotch/hgraph_order_cc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cc.c b/src/libscotch/hgraph_order_cc.c
index aacbb03..0703b97 100644
--- a/src/libscotch/hgraph_order_cc.c
+++ b/src/libscotch/hgraph_order_cc.c
@@ -177,7 +177,7 @@ const HgraphOrderCcParam * restrict const paraptr)
     cblkptr->cblktab[rootnum].cblktab = NULL;
   }
 
-  for (rootnum = 0, indordenum = 0; rootnum < rootnbr; rootnum ++) {
+  for (rootnum = 0, indordenum = ordenum; rootnum < rootnbr; rootnum ++) {
     Gnum                indvnohnbr;
     int                 o;
 
-- 
2.43.0


From a7c115ecca8a4fc7d2ed48c296b2f097635e9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 007/134] fix: report failure of leaf ordering in nested
 dissection

---
 src/libscotch/hgraph_order_nd.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libscotch/hgraph_order_nd.c b/src/libscotch/hgraph_order_nd.c
index 8982714..8d63974 100644
--- a/src/libscotch/hgraph_order_nd.c
+++ b/src/libscotch/hgraph_order_nd.c
@@ -175,8 +175,7 @@ const HgraphOrderNdParam * restrict const paraptr)
   if ((vspgrafdat.compsize[0] == 0) ||            /* If could not separate more */
       (vspgrafdat.compsize[1] == 0)) {
     vgraphExit    (&vspgrafdat);                  /* Free useless space */
-    hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    return (0);                                   /* Leaf has been processed */
+    return (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea)); /* Order this leaf */
   }
 
   vsplisttab[0].vnumnbr = vspgrafdat.compsize[0]; /* Build vertex lists within frontier array */
-- 
2.43.0


From eec389baa46c415205696b75b3f4b411c350dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 008/134] fix: return the identity ordering for an empty vertex
 list

---
 src/libscotch/library_graph_order.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..39afafc 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -276,7 +276,8 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
 
   if (listnbr == 0) {                             /* If empty list, return identity permutation */
     intAscn (libordeptr->o.peritab, srcgrafptr->vertnbr, srcgrafptr->baseval);
-    goto abort;
+    o = 0;
+    goto build;
   }
 
   if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
@@ -373,6 +374,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
+build:
   if (libordeptr->permtab != NULL)                /* Build direct permutation if wanted */
     orderPeri (libordeptr->o.peritab, srcgrafptr->baseval, libordeptr->o.vnodnbr, libordeptr->permtab, srcgrafptr->baseval);
   if (libordeptr->rangtab != NULL)                /* Build range array if column block data wanted */
-- 
2.43.0


From 5740f91fa600f7df489ecbfce1d730bceac6ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 009/134] fix: save node loads of meshes whose elements come
 first

---
 src/libscotch/mesh_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..bf6ee86 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -353,7 +353,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
-- 
2.43.0


From b1f5ea31d028b3e889d11009f67b50d0c00d4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 010/134] fix: count isolated elements of meshes read from a
 file

---
 src/libscotch/mesh_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index bf6ee86..eb99d9c 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -241,6 +241,10 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
+      if ((degrval == 0)              &&          /* If vertex is an isolated element */
+          (vertnum >= meshptr->velmbas) &&
+          (vertnum <  meshptr->velmnnd))
+        meshptr->veisnbr ++;                      /* Count it */
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
       degrval += edgenum;
-- 
2.43.0


From af4d99377b43674828ca4804fda6356a376d2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 011/134] fix: allow meshes to be exited after a failed load

---
 src/libscotch/mesh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/mesh.c b/src/libscotch/mesh.c
index 3ca20db..7788b9e 100644
--- a/src/libscotch/mesh.c
+++ b/src/libscotch/mesh.c
@@ -135,6 +135,8 @@ Mesh * const                meshptr)
 #ifdef SCOTCH_DEBUG_MESH2
   memSet (meshptr, ~0, sizeof (Mesh));            /* Purge mesh fields */
 #endif /* SCOTCH_DEBUG_MESH2 */
+
+  meshptr->flagval = MESHNONE;                    /* Allow to double-call meshFree() or call meshExit() */
 }
 
 /* This routine sets the base of the given
-- 
2.43.0


From 3306eaa807145178398eb1d7f3095c406efe5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:56 +0000
Subject: [PATCH 012/134] fix: adjust edge ends of meshes read with another
 base value

---
 src/libscotch/mesh_io.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index eb99d9c..592c947 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -182,18 +182,18 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   if (meshptr->velmbas <= meshptr->vnodbas) {     /* If elements first */
     vertbastab[0] = meshptr->velmbas;
     vertnndtab[0] = meshptr->velmnnd;
-    edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
+    edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval + baseadj;
     vertbastab[1] = meshptr->vnodbas;
     vertnndtab[1] = meshptr->vnodnnd;
-    edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
+    edgeadjtab[1] = meshptr->velmbas - meshptr->baseval + baseadj;
   }
   else {
     vertbastab[0] = meshptr->vnodbas;
     vertnndtab[0] = meshptr->vnodnnd;
-    edgeadjtab[0] = meshptr->velmbas - meshptr->baseval;
+    edgeadjtab[0] = meshptr->velmbas - meshptr->baseval + baseadj;
     vertbastab[1] = meshptr->velmbas;
     vertnndtab[1] = meshptr->velmnnd;
-    edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval;
+    edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval + baseadj;
   }
   for (i = 0; i < 2; i ++) {                      /* For both kinds of vertices */
     Gnum                vertbas;
-- 
2.43.0


From 0751d0126e86b076b06c19c8b018922ecd3f01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 013/134] fix: read node loads of meshes whose elements are not
 weighted

---
 src/libscotch/mesh_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 592c947..bcbc9e0 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -95,6 +95,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                vlblnbr;                    /* Size of vertex label array       */
   Gnum                edloval;                    /* Value where to read edge load    */
   Gnum                edgeval;                    /* Value where to read edge end     */
+  Gnum *              velotax;                    /* Vertex load array for both elements and nodes */
   Gnum                baseadj;
   Gnum                versval;
   Gnum                degrmax;
@@ -169,6 +170,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->vendtax  = meshptr->verttax + 1;       /* Use compact vertex array */
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
   meshptr->vnlotax  = meshptr->velotax;
+  velotax           = meshptr->velotax;           /* Keep access to array even if one of the two kinds has no significant loads */
   meshptr->vlbltax  = (vlblnbr != 0) ? (meshptr->vlbltax - meshptr->baseval) : NULL;
   meshptr->velosum  = meshptr->velmnbr;           /* Assume element and node vertices not weighted */
   meshptr->vnlosum  = meshptr->vnodnbr;
@@ -231,7 +233,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         }
         if (veloval > velomax)
           velomax = veloval;
-        meshptr->velotax[vertnum] = veloval;
+        velotax[vertnum] = veloval;
         velosum += veloval;
       }
       if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
-- 
2.43.0


From 3c519dee48be590f015c5124c6dbf41b242a4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:21 +0000
Subject: [PATCH 014/134] fix: do not report a tree-leaf domain as included in
 one of its parts

---
 src/libscotch/arch_tleaf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 39a8f3d..80a9915 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -655,8 +655,8 @@ const ArchTleafDom * const  dom1ptr)
       return (0);
   }
 
-  return (((idx0min >= (idx1min + idx1nbr)) ||
-           (idx1min >= (idx0min + idx0nbr))) ? 0 : 1);
+  return (((idx1min >= idx0min) &&                /* Dom1 must lie within dom0 */
+           ((idx1min + idx1nbr) <= (idx0min + idx0nbr))) ? 1 : 0);
 }
 
 /***********************************/
-- 
2.43.0


From e455a5850e700325d778cfd815e3f01b86a453e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:21 +0000
Subject: [PATCH 015/134] fix: make the distance between nested tree-leaf
 domains symmetric

---
 src/libscotch/arch_tleaf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 80a9915..a828db2 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -481,7 +481,7 @@ const ArchTleafDom * const  dom1ptr)
     if ((idx0min + idx0nbr) >= (idx1min + idx1nbr)) /* If dom1 included in dom0     */
       return (distval / 2);
   }
-  else {
+  if (idx0min >= idx1min) {
     if ((idx0min + idx0nbr) <= (idx1min + idx1nbr)) /* If dom0 included in dom1 */
       return (distval / 2);
   }
-- 
2.43.0


From 861627e809604546446e192b824a66489227d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:21 +0000
Subject: [PATCH 016/134] fix: set the weight of weighted complete graph
 domains read from a file

---
 src/libscotch/arch_cmpltw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..aae5b75 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -493,7 +493,7 @@ FILE * const                    stream)
        vertnum < vertnnd; vertnum ++)
     velosum += archptr->velotab[vertnum].veloval;
 
-  domnptr->veloval += velosum;
+  domnptr->veloval = velosum;
 
   return (0);
 }
-- 
2.43.0


From 422a04d823dd328d00794952843944bceb784015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 017/134] fix: do not unbase vertex numbers twice when building
 decomposition-defined architectures

---
 src/libscotch/arch_build.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index d5ce943..a369de8 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -306,7 +306,7 @@ Context * const             contptr)              /*+ Execution context
     tgtvertnum = (tgtlistptr != NULL) ? tgtlistptr->vnumtab[termdomnum] : (termdomnum + tgtgrafptr->baseval);
     termverttab[termdomnum].labl = tgtvertnum;
     termverttab[termdomnum].wght = (tgtgrafptr->velotax != NULL) ? tgtgrafptr->velotax[tgtvertnum] : 1;
-    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum - tgtgrafptr->baseval));
+    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum));
     if (termverttab[termdomnum].num > termdommax) /* Find maximum terminal number */
       termdommax = termverttab[termdomnum].num;
   }
-- 
2.43.0


From 70240bd9127fc2586496af260e6e133abe652ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 018/134] fix: return the right terminal domain of
 decomposition-defined architectures

---
 src/libscotch/arch_deco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index e5d88b9..c048eaf 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -464,7 +464,7 @@ const ArchDomNum            domnnum)
     if (archptr->domverttab[domvertnum].size == 1) { /* If terminal vertex                      */
       domtermnum --;                              /* One more terminal scanned                  */
       if (archptr->domverttab[domvertnum].labl == domnnum) { /* If terminal domain number found */
-        domnptr->num = domvertnum;                /* Set domain number                          */
+        domnptr->num = domvertnum + 1;            /* Set domain number (domains start from 1)   */
         return (0);
       }
     }
-- 
2.43.0


From d8d828a84afe23e39eaabb9c9a083d4ab445418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 019/134] fix: set the number of domains of type-2
 decompositions read from a file

---
 src/libscotch/arch_deco2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 24e021d..7e07e37 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -147,7 +147,8 @@ FILE * restrict const       stream)
   archptr->levltab = NULL;
 
   termnbr = archptr->termnbr;
-  domnnbr = 2 * termnbr - 1;
+  domnnbr =
+  archptr->domnnbr = 2 * termnbr - 1;
   levlnbr = archptr->levlmax --;                  /* Get levlmax */
   if (memAllocGroup ((void **) (void *)
                      &archptr->termtab, (size_t) (termnbr * sizeof (ArchSubTerm)),
-- 
2.43.0


From e3fd24c30d2fb613a24e7a9e0a47398092f6009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 020/134] fix: build restricted architectures from all
 terminals of the original one

---
 src/libscotch/arch_build2.c | 2 +-
 src/libscotch/arch_sub.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3037afe..2698245 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -649,7 +649,7 @@ Context * const             contptr)              /*+ Execution context
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   matcdat.vertsum = vnumnbr;                      /* Account for kept vertices of original graph */
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vertnbr);
 
   if (velotmp != NULL)                            /* Temporary vertex load array will no longer be necessary */
     memFree (velotmp);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index d0e2b4b..40e5ab9 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -475,7 +475,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
     treetab[orgtermnum].vertnum = orgtermnum;     /* Vertex number in original architecture                    */
   }
 
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, orgtermnbr);
 
   orgarchptr->clasptr->matchExit (&matcdat);      /* Free matching structure */
 
-- 
2.43.0


From 51c42af92a4406dc1b67136eb50c99fcd331c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 021/134] fix: do not wrap distances of multi-dimensional
 meshes around

---
 src/libscotch/arch_mesh.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..e9ca1d2 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -908,13 +908,10 @@ const ArchMeshXDom * const  dom1ptr)
 {
   Anum                dimnnum;
   Anum                distval;
-  Anum                disttmp;
 
-  for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
-    disttmp = abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
-                   dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
-    distval += (disttmp > archptr->c[dimnnum]) ? (2 * archptr->c[dimnnum] - disttmp) : disttmp;
-  }
+  for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++)
+    distval += abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
+                    dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
 
   return (distval >> 1);
 }
-- 
2.43.0


From 441052063ce120511fb5fe6c9ccc529c00737387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 022/134] fix: accept files of hypercubes of dimension zero

---
 src/libscotch/arch_hcub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_hcub.c b/src/libscotch/arch_hcub.c
index a0b371d..84e3ea7 100644
--- a/src/libscotch/arch_hcub.c
+++ b/src/libscotch/arch_hcub.c
@@ -102,7 +102,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
-      (archptr->dimnnbr < 1)                     ||
+      (archptr->dimnnbr < 0)                     ||
       (archptr->dimnnbr > (Anum) (sizeof (Anum) << 3))) { /* Should have enough bits in ArchHcubDom bitsset field */
     errorPrint ("archHcubArchLoad: bad input");
     return (1);
-- 
2.43.0


From a00079cc74b0d0834b4c8f78b7da57a26add33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 023/134] fix: do not call missing freeing function when an
 architecture file is wrong

---
 src/libscotch/arch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 86239fe..7b57bf5 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -211,7 +211,8 @@ FILE * const                stream)
   if (clasptr->archLoad != NULL) {                /* If class has loading function */
     if (clasptr->archLoad (&archptr->data, stream) != 0) { /* Load class data      */
       errorPrint ("archLoad: cannot load architecture data");
-      clasptr->archFree (&archptr->data);         /* Perform clean-up             */
+      if (clasptr->archFree != NULL)              /* If class has freeing function */
+        clasptr->archFree (&archptr->data);       /* Perform clean-up             */
       memSet (archptr, 0, sizeof (Arch));         /* Initialize architecture body */
       return (1);
     }
-- 
2.43.0


From 8c4b9660d63f43d61db2b2b447a2d5de73e396c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 024/134] fix: compute true shortest paths when decomposing
 weighted target graphs

---
 src/libscotch/arch_build.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index a369de8..fcb8c83 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -324,32 +324,38 @@ Context * const             contptr)              /*+ Execution context
     queuhead =                                    /* Reset the queue */
     queutail = 0;
     tgtvertnum = termverttab[termdomnum].labl;
-    queutab[queutail].vertnum    = tgtvertnum;    /* Insert root vertex */
-    queutab[queutail ++].distval = 0;
+    queutab[queutail].vertnum = tgtvertnum;       /* Insert root vertex */
+    queutail = (queutail + 1) % tgtgrafptr->vertnbr;
     disttax[tgtvertnum].queued  = 1;              /* Mark vertex as queued */
     disttax[tgtvertnum].distval = 0;
 
-    while (queuhead < queutail) {                 /* As long as there are vertices in queue */
+    do {                                          /* As long as there are vertices in queue */
       Gnum                vertnum;                /* Number of current vertex               */
       Gnum                vertdist;               /* Current distance value                 */
       Gnum                edgenum;
 
       vertnum  = queutab[queuhead].vertnum;       /* Retrieve vertex from queue */
-      vertdist = queutab[queuhead ++].distval;
+      queuhead = (queuhead + 1) % tgtgrafptr->vertnbr; /* Queue is circular     */
+      vertdist = disttax[vertnum].distval;        /* Get latest distance value  */
+      disttax[vertnum].queued = 0;                /* Vertex is no longer queued */
 
       for (edgenum = tgtverttax[vertnum];         /* For all vertex edges */
            edgenum < tgtvendtax[vertnum]; edgenum ++) {
         Gnum                vertend;
+        Gnum                distend;
 
         vertend = tgtedgetax[edgenum];
-        if (disttax[vertend].queued == 0) {       /* If end vertex not queued */
-          queutab[queutail].vertnum    = vertend; /* Queue the vertex         */
-          queutab[queutail ++].distval =
-          disttax[vertend].distval = vertdist + ((tgtedlotax != NULL) ? tgtedlotax[edgenum] : 1);
-          disttax[vertend].queued  = 1;           /* Mark vertex as queued */
+        distend = vertdist + ((tgtedlotax != NULL) ? tgtedlotax[edgenum] : 1);
+        if (disttax[vertend].distval > distend) { /* If shorter path found */
+          disttax[vertend].distval = distend;
+          if (disttax[vertend].queued == 0) {     /* If end vertex not queued */
+            queutab[queutail].vertnum = vertend;  /* Queue the vertex         */
+            queutail = (queutail + 1) % tgtgrafptr->vertnbr;
+            disttax[vertend].queued = 1;          /* Mark vertex as queued */
+          }
         }
       }
-    }
+    } while (queuhead != queutail);
 
     for (termdomend = 0; termdomend < termdomnum; termdomend ++) /* For all previous terminal domains */
       termdisttab[((termdomnum * (termdomnum - 1)) / 2) + termdomend] = /* Retrieve distance          */
-- 
2.43.0


From cf764215d0a61854afceb5ef605e5c256c211de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 025/134] fix: do not renumber the parts of the mapping when
 viewing it

---
 src/libscotch/library_graph_map_view.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 2d42a6a..e4ee057 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -200,7 +200,8 @@ FILE * const                  stream)             /*+ Output stream
 {
   const Arch * restrict     archptr;
   LibMapping * restrict     lmaoptr;
-  Anum * restrict           parttax;              /* Part array                                   */
+  const Anum * restrict     parttax;              /* Part array                                   */
+  Anum * restrict           parmtax;              /* Array of part indices, starting from 0       */
   Anum * restrict           parotax;              /* Old part array                               */
   MappingSort * restrict    domntab;              /* Pointer to domain sort array                 */
   ArchDom                   domnfrst;             /* Largest domain in architecture               */
@@ -291,6 +292,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (memAllocGroup ((void **) (void *)
                      &domntab, (size_t) ((grafptr->vertnbr + 1) * sizeof (MappingSort)),
+                     &parmtax, (size_t) (grafptr->vertnbr       * sizeof (Anum)),
                      &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphMapView) ": out of memory");
     return (1);
@@ -300,7 +302,9 @@ FILE * const                  stream)             /*+ Output stream
     domntab[vertnum].labl = parttax[vertnum];     /* Un-based array at this stage    */
     domntab[vertnum].peri = vertnum + grafptr->baseval; /* Build inverse permutation */
   }
+  memSet (parmtax, ~0, grafptr->vertnbr * sizeof (Anum)); /* Pre-set part indices of unmapped vertices */
   parttax -= grafptr->baseval;
+  parmtax -= grafptr->baseval;
   domntab[grafptr->vertnbr].labl = ARCHDOMNOTTERM; /* TRICK: avoid testing (i+1)   */
   domntab[grafptr->vertnbr].peri = ~0;            /* Prevent Valgrind from yelling */
 
@@ -313,7 +317,7 @@ FILE * const                  stream)             /*+ Output stream
   mapsum  = 0;
   veloval = 1;                                    /* Assume unweighted vertices */
   for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
-    parttax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
+    parmtax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
     if (domntab[vertidx].labl != domntab[vertidx + 1].labl) /* TRICK: if new (or end) domain label */
       mapnbr ++;
     if (velotax != NULL)
@@ -387,13 +391,13 @@ FILE * const                  stream)             /*+ Output stream
       Gnum                edgennd;
       Anum                partnum;
 
-      partnum = parttax[domntab[vertidx].peri];
+      partnum = parmtax[domntab[vertidx].peri];
       for (edgenum = verttax[domntab[vertidx].peri],
            edgennd = vendtax[domntab[vertidx].peri];
            edgenum < edgennd; edgenum ++) {
         Anum                partend;
 
-        partend = parttax[edgetax[edgenum]];
+        partend = parmtax[edgetax[edgenum]];
         if ((partend != partnum) &&               /* If edge is not internal                                      */
             (partend != nghbtab[nghbnbr])) {      /* And neighbor is not sole neighbor or has not just been found */
           Anum                partmin;
@@ -535,7 +539,7 @@ FILE * const                  stream)             /*+ Output stream
     do {
       Gnum                diamval;
 
-      diamval  = graphMapView3 (grafptr, parttax, mapnum);
+      diamval  = graphMapView3 (grafptr, parmtax, mapnum);
       diamsum += diamval;
       if (diamval < diammin)
         diammin = diamval;
-- 
2.43.0


From 31991169dc13d6d87344185cce3ee0916c80f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 026/134] fix: account for last vertices of based graphs in
 part diameters

---
 src/libscotch/library_graph_map_view.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index e4ee057..4121abc 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -126,11 +126,11 @@ const Anum                  partval)              /*+ Part value +*/
   for (passnum = 1, rootnum = grafptr->baseval; ; passnum ++) { /* For all connected components */
     Gnum                diamnum;                  /* Vertex which achieves diameter             */
 
-    while ((rootnum < grafptr->vertnbr) &&
+    while ((rootnum < grafptr->vertnnd) &&
            ((vexxtax[rootnum].passnum != 0) ||    /* Find first unallocated vertex */
             (parttax[rootnum] != partval)))
       rootnum ++;
-    if (rootnum >= grafptr->vertnbr)              /* Exit if all of graph processed */
+    if (rootnum >= grafptr->vertnnd)              /* Exit if all of graph processed */
       break;
 
     diambase = ++ diamdist;                       /* Start from previous distance */
-- 
2.43.0


From ddca642f54f2565543d9569cf49a4b0af44134d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 027/134] fix: compute migration figures from the old and new
 parts of each vertex

---
 src/libscotch/library_graph_map_view.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 4121abc..dacc200 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -269,7 +269,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (libmapoptr != NULL) {
     lmaoptr = (LibMapping *) libmapoptr;
-    parotax = lmaoptr->parttab;
+    parotax = lmaoptr->parttab - grafptr->baseval;
   }
   else {
     lmaoptr = NULL;
@@ -488,7 +488,7 @@ FILE * const                  stream)             /*+ Output stream
         continue;
       if (parotax[vertnum] != parttax[vertnum]) {
         migrnbr ++;
-        archDomTerm (archptr, &domnorg, parotax[vertnum]); /* Get terminal domains */
+        archDomTerm (archptr, &domnorg, parttax[vertnum]); /* Get terminal domains */
         archDomTerm (archptr, &domnold, parotax[vertnum]);
         migrdistavg += archDomDist (archptr, &domnorg, &domnold);
         migrloadavg += (grafptr->velotax == NULL) ? 1 : grafptr->velotax[vertnum];
-- 
2.43.0


From f9eae12cdfacc29c6ae13d7306c03863684400e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 028/134] fix: read labels of based graphs from their right
 place when loading mappings

---
 src/libscotch/library_graph_map_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index c982276..6d07453 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -150,7 +150,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     vertsortflag = 1;                             /* Assume graph data sorted */
     vertsortlabl = GNUMMIN;
     for (vertsortnum = 0; vertsortnum < vertnbr; vertsortnum ++) {
-      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum];
+      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum + grafptr->baseval];
       vertsorttab[vertsortnum].num  = vertsortnum;
 
       if (vertsorttab[vertsortnum].labl < vertsortlabl) /* Check if graph data sorted */
-- 
2.43.0


From 665f264eda478b03f8f6a07e87423e34a11475c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:37 +0000
Subject: [PATCH 029/134] fix: do not lower the recorded size of domain arrays
 in debug mode

The arrays of a mapping stored by kgraphStoreSave() could then not be
restored, and the best of two strategies was not kept.
---
 src/libscotch/kgraph_map_rb_map.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index c59f952..524c992 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -897,7 +897,6 @@ Context * const                         contptr)  /*+ Execution context
         parttax[vertnum] = ~0;
     }
   }
-  mappptr->domnmax = 1;                           /* Force resizing of job arrays, for debugging */
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
   if (kgraphMapRbMapPoolInit (&pooldat, dataptr, contptr) != 0) /* Initialize pool data; done first for kgraphMapRbMapPoolExit() to succeed afterwards */
-- 
2.43.0


From 770f5fd56ebbe07d3bea423e89c55207906e4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:45 +0000
Subject: [PATCH 030/134] fix: keep all domains of untied mappings in dual
 recursive bipartitioning

Only one of the two domain arrays received the final domains, and
the other one was not freed.
---
 src/libscotch/kgraph_map_rb_map.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index 524c992..1e41983 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -166,6 +166,7 @@ Context * const                         contptr)
       memFree    (poolptr->jobtab);
       return (1);
     }
+    memCpy (poolptr->domntab[1], mappptr->domntab, mappptr->domnnbr * sizeof (ArchDom)); /* Both arrays hold initial mapping */
   }
 
   poolptr->flagval = flagval;
@@ -207,6 +208,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
     mappptr->flagval |= MAPPINGFREEDOMN;          /* Keep current domain array as private mapping domain array */
     mappptr->domntab  = poolptr->domntab[1];
   }
+  else if (poolptr->domntab[0] != poolptr->domntab[1]) /* Else if other domain array exists, free it */
+    memFree (poolptr->domntab[0]);
 
   memFree (poolptr->jobtab);
 }
@@ -225,6 +228,9 @@ KgraphMapRbMapPoolData * restrict const poolptr)
   KgraphMapRbMapPoolLink *  linktmp;
   ArchDom *                 domntmp;
 
+  if (poolptr->domntab[0] != poolptr->domntab[1]) /* If mappings are not tied, next mapping must also hold the domains already set */
+    memCpy (poolptr->domntab[1], poolptr->domntab[0], poolptr->mappptr->domnnbr * sizeof (ArchDom));
+
   linktmp             = poolptr->pooltab[0];
   poolptr->pooltab[0] = poolptr->pooltab[1];
   poolptr->pooltab[1] = linktmp;
-- 
2.43.0


From d4072124d1603404d4cfdca26eda8944dc4f0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:04 +0000
Subject: [PATCH 031/134] fix: leave mappings onto variable-sized targets
 unchanged in exact balancing

The tree of domains cannot be built for them, and was used nonetheless.
---
 src/libscotch/kgraph_map_ex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_map_ex.c b/src/libscotch/kgraph_map_ex.c
index 19b2ad1..8026778 100644
--- a/src/libscotch/kgraph_map_ex.c
+++ b/src/libscotch/kgraph_map_ex.c
@@ -156,7 +156,7 @@ const KgraphMapExParam * const  paraptr)          /*+ Method parameters +*/
     }
   }
 
-  if (flagval != 0) {                             /* If nothing to do  */
+  if ((flagval != 0) || (archVar (archptr))) {    /* If nothing to do, or if no domain tree as architecture is variable-sized */
     memFree (doextab);                            /* Free group leader */
     return  (0);
   }
-- 
2.43.0


From 6afb7f79cdeec35bed1658ff6961ff157ec06f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 032/134] fix: compute distances between nested domains of
 type-2 decompositions

The load of a wrong vertex was read, and distances to the root domain
reported an internal error.
---
 src/libscotch/arch_deco2.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 7e07e37..89071d1 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -521,13 +521,6 @@ const ArchDeco2Dom * const  dom1ptr)
   levlnum  = MAX (levlnum0, levlnum1);            /* Level where to start distance computations    */
   levlptr  = &archptr->levltab[levlnum];          /* Point to start level for distance computation */
   vertnbr  = levlptr->grafdat.vertnbr;            /* Get upper bound on number of vertices         */
-#ifdef SCOTCH_DEBUG_ARCH2
-  if (vertnbr <= 1) {                             /* If coarsest graph hit without exiting before */
-    errorPrint ("archDeco2DomDist: internal error (1)");
-    return     (-1);
-  }
-#endif /* SCOTCH_DEBUG_ARCH2 */
-
 #ifdef SCOTCH_DEBUG_ARCH2
   domnnum0 = domntab[domnidx0].domnnum;
   domnnum1 = domntab[domnidx1].domnnum;
@@ -579,7 +572,14 @@ const ArchDeco2Dom * const  dom1ptr)
   }
 
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
-    return (levlptr->grafdat.velotax[vnumtab[domnidx0]]);
+    return (levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]]);
+
+#ifdef SCOTCH_DEBUG_ARCH2
+  if (vertnbr <= 1) {                             /* If coarsest graph hit without exiting before */
+    errorPrint ("archDeco2DomDist: internal error (1)");
+    return     (-1);
+  }
+#endif /* SCOTCH_DEBUG_ARCH2 */
 
   if (memAllocGroup ((void **) (void *)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
@@ -713,7 +713,7 @@ loop: vertnum = queutab[queutailidx ++];          /* Get vertex number from queu
     }
 
     if (domnidx0 == domnidx1) {                   /* If same domains after leveling, half distance of largest domain */
-      distmin = levlptr->grafdat.velotax[vnumtab[domnidx0]];
+      distmin = levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]];
       break;
     }
 #ifdef SCOTCH_DEBUG_ARCH2
-- 
2.43.0


From 38dd0b3bae508410117afc0d5d5b3de278643b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:59 +0000
Subject: [PATCH 033/134] fix: never lower the size of domain arrays when
 copying mappings

A mapping stored before the copy could not be restored afterwards.
---
 src/libscotch/mapping.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mapping.c b/src/libscotch/mapping.c
index 7efb9bb..410bf3b 100644
--- a/src/libscotch/mapping.c
+++ b/src/libscotch/mapping.c
@@ -273,7 +273,8 @@ const Mapping * restrict const mapoptr)           /*+ Old mapping    +*/
     }
   }
   else {
-    mappptr->domnmax = domnnbr;
+    if (domnnbr > mappptr->domnmax)               /* Never lower size of domain array */
+      mappptr->domnmax = domnnbr;
     if (mapAlloc (mappptr) != 0) {                /* Do not fill array if incomplete mapping, as it will be copied */
       errorPrint ("mapCopy: cannot allocate mapping arrays");
       return (1);
-- 
2.43.0


From 696e2d391a785871d5f96a891be9fd08287d1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:12 +0000
Subject: [PATCH 034/134] fix: set edges and old parts of anchors properly in
 k-way band graphs

Edge indices were not based when there are fixed vertices, and old
parts were reset for as many anchors as there are old domains.
---
 src/libscotch/kgraph_band.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 42c2a9a..149fcfa 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -264,7 +264,7 @@ abort:
       errorPrint ("kgraphBand: out of memory (5)");
       goto abort;
     }
-    memSet (bandparotax + bandvertnbr - bandgrafptr->r.m.domnnbr, ~0, bandgrafptr->r.m.domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
+    memSet (bandparotax + bandvertnbr - domnnbr, ~0, domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
     bandparotax -= bandgrafptr->s.baseval;
     bandgrafptr->r.m.flagval |= MAPPINGINCOMPLETE | MAPPINGFREEPART; /* Remapping may be incomplete */
     bandgrafptr->r.m.parttax  = bandparotax;
@@ -583,7 +583,7 @@ abort:
 
   if (pfixtax != NULL) {                          /* We have fixed vertices */
     memFree (termhashtab);                        /* Free group leader      */
-    for (bandvertnum = bandgrafptr->s.baseval, bandedgenum = 0; bandvertnum < bandvertnnd;
+    for (bandvertnum = bandedgenum = bandgrafptr->s.baseval; bandvertnum < bandvertnnd;
         bandvertnum ++) {                         /* Link anchors to vertices */
       for ( ; bandedgenum < bandverttax[bandvertnum + 1]; bandedgenum ++) {
         Gnum                  bandvertend;
-- 
2.43.0


From e7c820eae2b0eae4b627559b680d0f2718ef925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 035/134] fix: stop Gibbs-Poole-Stockmeyer bipartitioning once
 all vertices are moved

When fixed vertices overload one side, vertices were searched for past
the end of the array.
---
 src/libscotch/bgraph_bipart_gp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_gp.c b/src/libscotch/bgraph_bipart_gp.c
index ed266c6..037a71d 100644
--- a/src/libscotch/bgraph_bipart_gp.c
+++ b/src/libscotch/bgraph_bipart_gp.c
@@ -128,8 +128,10 @@ const BgraphBipartGpParam * const paraptr)        /*+ Method parameters +*/
     Gnum                diamdeg;                  /* Degree of current diameter vertex                  */
     int                 diamflag;                 /* Flag set if improvement in diameter between passes */
 
-    while (vexxtax[rootnum].passnum != 0)         /* Find first unallocated vertex */
+    while ((rootnum < grafptr->s.vertnnd) && (vexxtax[rootnum].passnum != 0)) /* Find first unallocated vertex */
       rootnum ++;
+    if (rootnum >= grafptr->s.vertnnd)            /* If all vertices moved and balance still not achieved, */
+      break;                                      /* because of the load of fixed vertices, nothing to do  */
 
     for (diamnum = rootnum, diamval = diamdeg = 0, diamflag = 1, passnum = 1; /* Start from root   */
          (passnum < paraptr->passnbr) && (diamflag -- != 0); passnum ++) { /* Loop if improvements */
-- 
2.43.0


From 1c4d6ed896b0d1d5faf7b93c211a3d31c46b219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 036/134] fix: do not recompute mappings of band graphs from
 scratch in k-way FM

The domains of the vertices that are not in the band were changed.
---
 src/libscotch/kgraph_map_fm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 1ca56b2..b4a4312 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -1029,8 +1029,9 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       if (abs (grafptr->comploaddlt[domnnum]) > comploadmax[domnnum])
         break;
     }
-    if (domnnum == domnnbr) {                     /* If balance is correct */
-      memFree (comploadmax);                      /* Nothing to do         */
+    if ((domnnum == domnnbr) ||                   /* If balance is correct                                    */
+        ((grafptr->s.flagval & KGRAPHHASANCHORS) != 0)) { /* Or if anchors prevent from computing another mapping */
+      memFree (comploadmax);                      /* Nothing to do                                            */
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-- 
2.43.0


From 0e3f37f064993b4e29bb4f80fb23d62e7c26a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 037/134] fix: do not read the mapping when it could not be
 computed

---
 src/libscotch/library_graph_map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index b8191d7..b26afec 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -292,7 +292,8 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
   mapgrafdat.contptr = CONTEXTGETDATA (actgrafptr);
 
   o = kgraphMapSt (&mapgrafdat, mapstraptr);
-  mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
+  if (o == 0)                                     /* If mapping exists                         */
+    mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
 
   kgraphExit (&mapgrafdat);
 
-- 
2.43.0


From 2b1657fc5f7cebfecfc8aed7eb812b1fd1c7a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:24 +0000
Subject: [PATCH 038/134] fix: do not give the same color to neighbors within a
 coloring pass

---
 src/libscotch/library_graph_color.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_color.c b/src/libscotch/library_graph_color.c
index 9065781..c3a70dd 100644
--- a/src/libscotch/library_graph_color.c
+++ b/src/libscotch/library_graph_color.c
@@ -142,7 +142,7 @@ const SCOTCH_Num                    flagval)      /* Flag value (not used)
 
         vertend = edgetax[edgenum];
 
-        if (colotax[vertend] >= 0)
+        if ((colotax[vertend] >= 0) && (colotax[vertend] < colonum)) /* Skip neighbors colored in previous passes only */
           continue;
 
         randend = randtax[vertend];
-- 
2.43.0


From c6428d1e389489d845af18a4e8482604bba9bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:24 +0000
Subject: [PATCH 039/134] fix: count each edge once in the edge load sum of
 graph statistics

---
 src/libscotch/library_graph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/library_graph.c b/src/libscotch/library_graph.c
index 82e7b14..adfb314 100644
--- a/src/libscotch/library_graph.c
+++ b/src/libscotch/library_graph.c
@@ -509,6 +509,7 @@ double *                    edlodltptr)
           edlodlt += fabs ((double) srcgrafptr->edlotax[edgenum] - edloavg);
       }
       edlodlt /= (double) srcgrafptr->edgenbr;
+      edlosum /= 2;                               /* Each edge is counted once, as when there are no edge loads */
     }
     else {
       edlomin =
-- 
2.43.0


From 24a7445366e49535d4ece62439bb3ba98db12ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:24 +0000
Subject: [PATCH 040/134] fix: take base value of context graphs from the graph
 when inducing parts

---
 src/libscotch/library_graph_induce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 050ff36..61fd358 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -109,7 +109,7 @@ const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
   return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) orggrafptr)->baseval,
+                           ((GraphPart * restrict const) parttab) - ((const Graph * const) CONTEXTOBJECT (orggrafptr))->baseval,
                            (const Gnum) vnumnbr,
                            (const GraphPart) partval,
                            (Graph * restrict const) indgrafptr));
-- 
2.43.0


From cd2e0fe92dc4fd2e7b297279c4c6cbc971ec36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:43 +0000
Subject: [PATCH 041/134] fix: refuse matchings that do not enforce the
 coarsening ratio

---
 src/libscotch/graph_coarsen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 1c23fad..a96589b 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -185,8 +185,7 @@ GraphCoarsenData * restrict const coarptr)
   if ((coarptr->flagval & GRAPHCOARSENUSEMATE) == 0) { /* If matching data not provided */
     graphMatch (descptr, coarptr);                /* Perform threaded matching          */
 
-    if ((coarptr->retuval != 0) ||                /* If matching failed                    */
-        (coargrafptr == NULL))                    /* Or if only matching wanted, stop here */
+    if (coarptr->retuval != 0)                    /* If matching failed */
       return;
 
     coarvertnbr = coarptr->coarvertnbr;           /* Get number of vertices actually created    */
@@ -197,6 +196,9 @@ GraphCoarsenData * restrict const coarptr)
 	coarptr->retuval = 1;
       return;
     }
+
+    if (coargrafptr == NULL)                      /* If only matching wanted, stop here */
+      return;
   }
   else
     coarvertnbr = coarptr->coarvertnbr;           /* Get provided number of vertices */
-- 
2.43.0


From af06c5ede691be69abd6030ad7941f2f4d91f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:43 +0000
Subject: [PATCH 042/134] fix: let induced graphs be partitioned and ordered as
 graphs of their own

---
 src/libscotch/library_graph_induce.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 61fd358..2683970 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -82,10 +82,14 @@ const SCOTCH_Num                    vnumnbr,
 const SCOTCH_Num * restrict const   vnumtab,
 SCOTCH_Graph * restrict const       indgrafptr)
 {
-  return (graphInduceList ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           (const Gnum) vnumnbr,
-                           (const Gnum * restrict const) vnumtab,
-                           (Graph * const) indgrafptr));
+  if (graphInduceList ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
+                       (const Gnum) vnumnbr,
+                       (const Gnum * restrict const) vnumtab,
+                       (Graph * const) indgrafptr) != 0)
+    return (1);
+
+  ((Graph *) indgrafptr)->vnumtax = NULL;         /* Induced graph is a graph of its own; array is in vertex group */
+  return (0);
 }
 
 /* This routine builds the graph induced
@@ -108,9 +112,13 @@ const SCOTCH_GraphPart2 * restrict const  parttab,
 const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
-  return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) CONTEXTOBJECT (orggrafptr))->baseval,
-                           (const Gnum) vnumnbr,
-                           (const GraphPart) partval,
-                           (Graph * restrict const) indgrafptr));
+  if (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
+                       ((GraphPart * restrict const) parttab) - ((const Graph * const) CONTEXTOBJECT (orggrafptr))->baseval,
+                       (const Gnum) vnumnbr,
+                       (const GraphPart) partval,
+                       (Graph * restrict const) indgrafptr) != 0)
+    return (1);
+
+  ((Graph *) indgrafptr)->vnumtax = NULL;         /* Induced graph is a graph of its own; array is in vertex group */
+  return (0);
 }
-- 
2.43.0


From 5a8f2924c897b1fbbd60c8379ae67d4ff2ff2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:53 +0000
Subject: [PATCH 043/134] fix: include context binding of meshes in the CMake
 build

---
 src/libscotch/CMakeLists.txt | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/CMakeLists.txt b/src/libscotch/CMakeLists.txt
index 806c641..24ba20d 100644
--- a/src/libscotch/CMakeLists.txt
+++ b/src/libscotch/CMakeLists.txt
@@ -358,6 +358,8 @@ set(SCOTCH_C_SOURCES
   library_context.c
   library_context_graph.c
   library_context_graph_f.c
+  library_context_mesh.c
+  library_context_mesh_f.c
   library_context_f.c
   #library_errcom.c
   #library_error.c
-- 
2.43.0


From f3a7a2b05c6effa855583d3de3f22a07fbc96c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:09 +0000
Subject: [PATCH 044/134] fix: use meshes bound to contexts in all mesh
 routines

---
 src/libscotch/library_mesh.c       | 11 ++++++-----
 src/libscotch/library_mesh_graph.c |  5 +++--
 src/libscotch/library_mesh_order.c |  8 ++++----
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/libscotch/library_mesh.c b/src/libscotch/library_mesh.c
index c36256e..5aca02e 100644
--- a/src/libscotch/library_mesh.c
+++ b/src/libscotch/library_mesh.c
@@ -58,6 +58,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "mesh.h"
 #include "scotch.h"
@@ -169,7 +170,7 @@ SCOTCH_meshSave (
 const SCOTCH_Mesh * const   meshptr,
 FILE * const                stream)
 {
-  return (meshSave ((const Mesh * const) meshptr, stream));
+  return (meshSave ((const Mesh * const) CONTEXTOBJECT (meshptr), stream));
 }
 
 /*+ This routine fills the contents of the given
@@ -304,7 +305,7 @@ int
 SCOTCH_meshCheck (
 const SCOTCH_Mesh * const   meshptr)
 {
-  return (meshCheck ((const Mesh * const) meshptr));
+  return (meshCheck ((const Mesh * const) CONTEXTOBJECT (meshptr)));
 }
 
 /*+ This routine accesses mesh size data.
@@ -323,7 +324,7 @@ SCOTCH_Num * const          edgenbr)
 {
   const Mesh *        srcmeshptr;
 
-  srcmeshptr = (Mesh *) meshptr;
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
 
   if (velmnbr != NULL)
     *velmnbr = (SCOTCH_Num) srcmeshptr->velmnbr;
@@ -359,7 +360,7 @@ SCOTCH_Num * const          degrnbr)              /* Maximum degree            *
 {
   const Mesh *       srcmeshptr;                  /* Pointer to source mesh structure */
 
-  srcmeshptr = (const Mesh *) meshptr;
+  srcmeshptr = (const Mesh *) CONTEXTOBJECT (meshptr);
 
   if (velmnbr != NULL)
     *velmnbr = srcmeshptr->velmnbr;
@@ -420,7 +421,7 @@ double * const              ndegdltptr)
   double                degravg;
   double                degrdlt;
 
-  srcmeshptr = (Mesh *) meshptr;
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
 
   vnlodlt = 0.0L;
   if (srcmeshptr->vnodnbr > 0) {
diff --git a/src/libscotch/library_mesh_graph.c b/src/libscotch/library_mesh_graph.c
index e09c63b..c4a8683 100644
--- a/src/libscotch/library_mesh_graph.c
+++ b/src/libscotch/library_mesh_graph.c
@@ -54,6 +54,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "mesh.h"
 #include "scotch.h"
@@ -77,7 +78,7 @@ SCOTCH_meshGraph (
 const SCOTCH_Mesh * restrict const  meshptr,
 SCOTCH_Graph * restrict const       grafptr)
 {
-  return (meshGraph ((Mesh *) meshptr, (Graph *) grafptr));
+  return (meshGraph ((Mesh *) CONTEXTOBJECT (meshptr), (Graph *) grafptr));
 }
 
 /*+ This routine builds an opaque dual graph structure
@@ -94,5 +95,5 @@ const SCOTCH_Mesh * restrict const  meshptr,
 SCOTCH_Graph * restrict const       grafptr,
 const SCOTCH_Num                    ncommon)
 {
-  return (meshGraphDual ((Mesh *) meshptr, (Graph *) grafptr, ncommon));
+  return (meshGraphDual ((Mesh *) CONTEXTOBJECT (meshptr), (Graph *) grafptr, ncommon));
 }
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 3752a36..e4c90f9 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -107,7 +107,7 @@ SCOTCH_Num * const          treetab)              /*+ Separator tree array
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
 
-  srcmeshptr = (Mesh *) meshptr;                  /* Use structure as source mesh */
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);  /* Use structure as source mesh */
   libordeptr = (LibOrder *) ordeptr;
   libordeptr->permtab = ((permtab == NULL) || ((void *) permtab == (void *) meshptr)) ? NULL : (Gnum *) permtab;
   libordeptr->peritab = ((peritab == NULL) || ((void *) peritab == (void *) meshptr)) ? NULL : (Gnum *) peritab;
@@ -144,7 +144,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine saves the mapping data
@@ -161,7 +161,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine saves to the given stream
@@ -178,7 +178,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine computes an ordering
-- 
2.43.0


From e5a339fa6954124e8246b3ed6a8f9a00f6526d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:10 +0000
Subject: [PATCH 045/134] fix: set load sum of dual graphs of meshes with
 element loads

---
 src/libscotch/mesh_graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..07f552e 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -263,8 +263,8 @@ const Gnum                  noconbr)              /*+ number of common points to
   }
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;
-  grafptr->velotax  = NULL;                       /* TODO: not implemented */
-  grafptr->velosum  = meshptr->velosum;
+  grafptr->velotax  = NULL;                       /* TODO: not implemented      */
+  grafptr->velosum  = meshptr->velmnbr;           /* Without loads, sum is size */
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
 
-- 
2.43.0


From d01ef78d9109757903f2d6d57750d433f26f75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:36 +0000
Subject: [PATCH 046/134] fix: always enlarge edge arrays of graphs built from
 meshes

---
 src/libscotch/mesh_graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index 07f552e..5d3b4bd 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -174,7 +174,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
               Gnum * restrict     edgetmp;
 
               edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-              edgemax = edgemax + (edgemax >> 2);
+              edgemax = edgemax + (edgemax >> 2) + 1;   /* Always make room for one edge */
 
               if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                 errorPrint ("meshGraph: out of memory (3)");
@@ -325,7 +325,7 @@ test:         if (nghbnbr <= 0) {                 /* If new instance allows us t
                   Gnum * restrict     edgetmp;
 
                   edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-                  edgemax = edgemax + (edgemax >> 2);
+                  edgemax = edgemax + (edgemax >> 2) + 1;   /* Always make room for one edge */
 
                   if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                     errorPrint ("meshGraphDual: out of memory (3)");
-- 
2.43.0


From abd279200ea81c9359cdd434a8a3f34b3c5a0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 047/134] fix: compress meshes with isolated nodes, node loads,
 nodes first or as sub-meshes

---
 src/libscotch/hmesh_order_cp.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 634f766..9676546 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -206,7 +206,8 @@ const HmeshOrderCpParam * restrict const  paraptr)
 
   coarmeshdat.m.verttax = coarverttax;
   coarmeshdat.m.vendtax = coarverttax + 1;        /* Use compact representation of arrays     */
-  coarmeshdat.m.velotax = finemeshptr->m.velotax; /* Re-use element vertex load array, if any */
+  coarmeshdat.m.velotax = (finemeshptr->m.velotax == NULL) ? NULL : /* Re-use element vertex load array, if any */
+                          (finemeshptr->m.velotax + (finemeshptr->m.velmbas - coarmeshdat.m.velmbas));
   coarmeshdat.m.vnlotax = coarvnlotax;
   coarmeshdat.m.edgetax = coaredgetax;
 
@@ -325,6 +326,22 @@ loop_failed: ;
     return (1);
   }
 #endif /* SCOTCH_DEBUG_ORDER2 */
+
+  for (finevnodnum = finemeshptr->m.vnodbas;      /* Keep isolated nodes, which belong to no element */
+       finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) {
+    if (finecoartax[finevnodnum] != ~0)           /* If node already considered, skip it */
+      continue;
+
+    if (coarvnodnnd >= (coarvnodmax + coarmeshdat.m.vnodbas)) { /* If mesh needs not be compressed */
+      memFree (coarverttax + coarmeshdat.m.baseval);
+      return  (hmeshOrderSt (finemeshptr, fineordeptr, ordenum, cblkptr, paraptr->stratunc));
+    }
+
+    finecoartax[finevnodnum] = coarvnodnnd;       /* Isolated node is alone in its cluster */
+    coarfinetax[coarvnodnnd] = finevnodnum;
+    coarvsiztax[coarvnodnnd] = 1;
+    coarvnodnnd ++;
+  }
   coarmeshdat.m.vnodnnd = coarvnodnnd;
   coarmeshdat.m.vnodnbr = coarvnodnnd - coarmeshdat.m.vnodbas;
 
@@ -370,7 +387,12 @@ loop_failed: ;
     memSet (coarmeshdat.m.vnlotax + coarmeshdat.m.vnodbas, 0, coarmeshdat.m.vnodnbr * sizeof (Gnum));
 
     for (finevnodnum = finemeshptr->m.vnodbas; finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) { /* Compute vertex loads for compressed mesh */
-      coarmeshdat.m.vnlotax[finecoartax[finevnodnum]] += finemeshptr->m.vnlotax[finevnodnum];
+      Gnum                coarvnodnum;
+
+      coarvnodnum = finecoartax[finevnodnum];     /* Get index of corresponding coarse node */
+      if (coarvnodnum < 0)                        /* If node is not cluster leader          */
+        coarvnodnum = -2 - coarvnodnum;           /* Get index of cluster leader            */
+      coarmeshdat.m.vnlotax[coarvnodnum] += finemeshptr->m.vnlotax[finevnodnum];
     }
   }
 
@@ -416,7 +438,7 @@ loop_failed: ;
   coarvpostax = coarmeshdat.m.verttax;            /* Recycle verttab (not velotab as may be merged with coarvsiztab) */
   coarperitax = coarperitab - coarmeshdat.m.vnodbas;
 
-  for (coarvnodnum = coarmeshdat.m.vnodbas, finevsizsum = 0; /* Compute initial indices for inverse permutation expansion */
+  for (coarvnodnum = coarmeshdat.m.vnodbas, finevsizsum = ordenum; /* Compute initial indices for inverse permutation expansion */
        coarvnodnum < coarmeshdat.m.vnodnnd; coarvnodnum ++) {
     coarvpostax[coarperitax[coarvnodnum]] = finevsizsum;
     finevsizsum += coarvsiztax[coarperitax[coarvnodnum]];
@@ -428,7 +450,9 @@ loop_failed: ;
     coarvnodnum = finecoartax[finevnodnum];       /* Get index of corresponding coarse node */
     if (coarvnodnum < 0)                          /* If node is not cluster leader          */
       coarvnodnum = -2 - coarvnodnum;             /* Get index of cluster leader            */
-    fineordeptr->peritab[coarvpostax[coarvnodnum] ++] = finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas);
+    fineordeptr->peritab[coarvpostax[coarvnodnum] ++] = (finemeshptr->m.vnumtax == NULL) /* If fine mesh is original mesh */
+                                                        ? finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas)
+                                                        : finemeshptr->m.vnumtax[finevnodnum];
   }
 
   orderExit (&coarordedat);
-- 
2.43.0


From feef9396854c86807d42a597d4eceb784e956c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 048/134] fix: fill minimum degree and fill arrays from node
 loads and for isolated vertices

---
 src/libscotch/hmesh_order_hx.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 6f133b1..6aecadc 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -103,7 +103,7 @@ Gnum * restrict const         pfreptr)
   Gnum * restrict const       elentax = elentab - 1;
   const Gnum * restrict const verttax = meshptr->m.verttax;
   const Gnum * restrict const vendtax = meshptr->m.vendtax;
-  const Gnum * restrict const velotax = meshptr->m.velotax;
+  const Gnum * restrict const vnlotax = meshptr->m.vnlotax;
   const Gnum * restrict const edgetax = meshptr->m.edgetax;
 
   n     = meshptr->m.velmnbr + meshptr->m.vnodnbr;
@@ -127,7 +127,7 @@ Gnum * restrict const         pfreptr)
 
     petax[vertnum]  = edgenum;
     lentax[vertnum] = vendtax[vnodnum] - verttax[vnodnum];
-    nvtax[vertnum]  = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]  = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum], nghbnbr = -1; /* -1 since loop edge will be processed in the main loop */
          enodnum < vendtax[vnodnum]; enodnum ++) {
@@ -153,8 +153,8 @@ Gnum * restrict const         pfreptr)
             break;                                /* Skip to next end vertex        */
         }
       }
-      elentax[vertnum] = nghbnbr;
     }
+    elentax[vertnum] = (nghbnbr < 0) ? 0 : nghbnbr; /* Isolated nodes have no neighbors */
   }
 
   for ( ; vnodnum < meshptr->m.vnodnnd; vnodnum ++, vertnum ++) { /* Copy halo vertices with base 1 */
@@ -165,7 +165,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnum]   = edgenum;
     lentax[vertnum]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnum] = 0;
-    nvtax[vertnum]   = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]   = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum];
          enodnum < vendtax[vnodnum]; enodnum ++)
@@ -176,8 +176,8 @@ Gnum * restrict const         pfreptr)
   for (velmnum = meshptr->m.velmbas; velmnum < meshptr->m.velmnnd; velmnum ++, vertnum ++) {
     Gnum                      eelmnum;
 
-    petax[vertnum]   = edgenum;
     lentax[vertnum]  = meshptr->m.vendtax[velmnum] - meshptr->m.verttax[velmnum];
+    petax[vertnum]   = (lentax[vertnum] != 0) ? edgenum : 0; /* Empty elements must be skipped by compression */
     elentax[vertnum] = - (n + 1);
     nvtax[vertnum]   = 1;                         /* Elements always have weight 1 */
 
-- 
2.43.0


From de2fad9c89b1fbdc202cd51cedabc034aab252f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 049/134] fix: count elements among pivots in minimum degree
 and fill methods

---
 src/libscotch/hall_order_hd.c | 3 ++-
 src/libscotch/hall_order_hf.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index 232f29b..c7f8f33 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -436,7 +436,8 @@ Gnum * restrict     w)                            /* Flag array
       }
       else {                                      /* i \in Ve or V0 */
         if (elen[i] < 0) {                        /* If i \in Ve    */
-          nel    += nv[i];
+          nel    += nv[i];                        /* Element already eliminated, but part of total */
+          totel  += nv[i];
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
diff --git a/src/libscotch/hall_order_hf.c b/src/libscotch/hall_order_hf.c
index 8ec12b9..7eff45c 100644
--- a/src/libscotch/hall_order_hf.c
+++ b/src/libscotch/hall_order_hf.c
@@ -779,7 +779,8 @@ Gnum * restrict     head /* [0:nbbuck+1] */)      /* Linked list structure
       }
       else {                                      /* Non-halo vertex or element */
         if (elen[i] < 0) {                        /* If i \in Ve                */
-          nel    += nv[i];
+          nel    += nv[i];                        /* Element already eliminated, but part of total */
+          totel  += nv[i];
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
-- 
2.43.0


From d30f188113d8094cda4622d83e6fa34384493298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 050/134] fix: report invalid orderings found by library checks

---
 src/libscotch/library_graph_order.c | 2 +-
 src/libscotch/library_mesh_order.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 39afafc..857e6a3 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -370,7 +370,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if ((o = orderCheck (&libordeptr->o)) != 0)
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index e4c90f9..7978953 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -273,7 +273,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if ((o = orderCheck (&libordeptr->o)) != 0)
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
-- 
2.43.0


From ba9d3fde7b3d138d4aab4e37eb0358ae1567f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 051/134] fix: coarsen meshes with nodes first, isolated nodes
 or no matching elements

---
 src/libscotch/mesh_coarsen.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 64a14c4..4188f9c 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -118,6 +118,7 @@ Context * restrict const      contptr)            /*+ Execution context
   Gnum                        coarveisnbr;        /* Number of coarse isolated elements          */
   Gnum                        coarvelmnum;        /* Number of currently selected coarse element */
   Gnum                        coareelmnum;
+  Gnum                        finevnodnum;
   Gnum                        coarvnodnum;
   Gnum                        coardegrmax;
   MeshCoarsenMult * restrict  finemulttax;
@@ -165,6 +166,12 @@ Context * restrict const      contptr)            /*+ Execution context
 
   meshCoarsenFuncTab[coartype] (finemeshptr, finemulttax, finecoartax, &coarvelmnbr, &coarvnodnbr, &coaredgenbr, contptr); /* Call proper matching function */
 
+  if (coarvelmnbr >= finemeshptr->velmnbr) {      /* If no elements could be merged */
+    memFree (coarverttax);                        /* Free group leader              */
+    memFree (finecoartax + finemeshptr->baseval);
+    return (1);
+  }
+
 #ifndef DEAD_CODE
   coarvnodnbr = finemeshptr->vnodnbr;             /* TODO : coarvnodnbr estimator is wrong : too tight */
   coaredgenbr = finemeshptr->edgenbr;
@@ -293,6 +300,16 @@ Context * restrict const      contptr)            /*+ Execution context
     if (coardegrval > coardegrmax)
       coardegrmax = coardegrval;
   }
+
+  for (finevnodnum = finemeshptr->vnodbas; finevnodnum < finemeshptr->vnodnnd; finevnodnum ++) { /* Keep nodes which belong to no element */
+    if (finecoartax[finevnodnum] != ~0)           /* If node already processed, skip it */
+      continue;
+
+    finecoartax[finevnodnum] = coarvnodnum;
+    coarverttax[coarvnodnum] = 0;                 /* No connections to the node */
+    coarvelotax[coarvnodnum] = (finemeshptr->vnlotax != NULL) ? finemeshptr->vnlotax[finevnodnum] : 1;
+    coarvnodnum ++;
+  }
   coarmeshptr->veisnbr = coarveisnbr;
   coarmeshptr->vnodnnd = coarvnodnum;
   coarmeshptr->vnodnbr = coarvnodnum - coarmeshptr->vnodbas;
@@ -606,7 +623,7 @@ fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax
 
   memFree (finehashtab);
 
-  *coarvelmptr = coarvelmnum - finemeshptr->velmbas;
+  *coarvelmptr = coarvelmnum - finemeshptr->baseval; /* Coarse elements are numbered from base value */
   *coarvnodptr = coarvnodnbr;
   *coaredgeptr = coaredgenbr;
 
-- 
2.43.0


From 9b865b14cf2e4bee8b64ac15616e4962379c8566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 052/134] fix: build consistent separator meshes, with node
 loads

---
 src/libscotch/mesh_induce_sepa.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 524f781..c7a463c 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -121,7 +121,6 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   Gnum                          orgbitssiz;       /* Size of int array holding as many bits as element vertices */
   unsigned int * restrict       orgbitstab;       /* Array of bit flags for mesh elements                       */
   Gnum                          indvnumnum;       /* Current vertex number index in separator node list         */
-  Gnum * restrict               indvneltax;       /* Array of original numbers for induced elements             */
   Gnum                          indvelmnbr;       /* (Approximate) number of element vertices in induced mesh   */
   Gnum                          indvertnbr;       /* (Approximate) number of vertices in induced mesh           */
   Gnum                          indvnodnum;       /* Number of current node vertex in induced mesh              */
@@ -177,13 +176,13 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   hashmsk = hashmsk * 4 + 3;                      /* Compute size of node hash table */
 
   indvertnbr = indvelmnbr + orgsepanbr;           /* Upper bound on number of all vertices */
-  if (orgmeshptr->velotax != NULL) {
+  if (orgmeshptr->vnlotax != NULL) {
     p = memAllocGroup ((void **) (void *)
           &indmeshptr->verttax, (size_t) (indvertnbr * sizeof (Gnum)), /* verttab is not compact */
           &indmeshptr->vendtax, (size_t) (indvertnbr * sizeof (Gnum)),
           &indmeshptr->vnumtax, (size_t) (orgsepanbr * sizeof (Gnum)), /* vnumtab is of size indnodenbr                */
-          &indmeshptr->velotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
-    indmeshptr->velotax -= indmeshptr->vnodbas;
+          &indmeshptr->vnlotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
+    indmeshptr->vnlotax -= indmeshptr->vnodbas;
   }
   else
     p = memAllocGroup ((void **) (void *)
@@ -198,7 +197,6 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
 
     p = memAllocGroup ((void **) (void *)
           &indedgetax, (size_t) (indedgenbr    * sizeof (Gnum)),
-          &indvneltax, (size_t) (indvelmnbr    * sizeof (Gnum)),
           &orgindxtax, (size_t) (orgvertnbr    * sizeof (Gnum)),
           &hashtab,    (size_t) ((hashmsk + 1) * sizeof (MeshInduceSepaHash)), NULL);
   }
@@ -209,7 +207,6 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   memSet (orgindxtax, ~0, orgvertnbr    * sizeof (Gnum));
   memSet (hashtab,    ~0, (hashmsk + 1) * sizeof (MeshInduceSepaHash));
   indedgetax -= indmeshptr->baseval;
-  indvneltax -= indmeshptr->velmbas;
   orgindxtax -= orgmeshptr->baseval;
 
   for (indvnumnum = 0, indvnodnum = indedgenum = indmeshptr->baseval, indvelmnum = orgsepanbr + indvnodnum, indedgenbr = 0, indvnlosum = 0;
@@ -224,12 +221,12 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
       orgindxtax[orgvnodnum] = indvnodnum ++;     /* One more node vertex created                */
     indmeshptr->verttax[orgindxtax[orgvnodnum]] = indedgenum; /* Set beginning of edge sub-array */
     indmeshptr->vnumtax[orgindxtax[orgvnodnum]] = orgvnodnum - (orgmeshptr->vnodbas - orgmeshptr->baseval);
-    if (indmeshptr->velotax != NULL) {
+    if (indmeshptr->vnlotax != NULL) {
       Gnum                indvnloval;
 
-      indvnloval  = orgmeshptr->velotax[orgvnodnum];
+      indvnloval  = orgmeshptr->vnlotax[orgvnodnum];
       indvnlosum += indvnloval;
-      indmeshptr->velotax[orgindxtax[orgvnodnum]] = indvnloval;
+      indmeshptr->vnlotax[orgindxtax[orgvnodnum]] = indvnloval;
     }
 
     indenodnum  = indedgenum;                     /* Record position of node edge sub-array */
@@ -303,18 +300,11 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
             indedgenum = indedgetmp;              /* Recycle edge sub-array of new element      */
             break;                                /* No need to go any further                  */
           }
-          if (mtchnbr == (indmeshptr->vendtax[indvelmtmp] - indmeshptr->verttax[indvelmtmp])) { /* If other element is useless */
-            indedgenbr -= mtchnbr;                /* Remove its edges */
-            indmeshptr->verttax[indvelmtmp] = indmeshptr->verttax[indvelmnum]; /* Recycle it into our element */
-            indmeshptr->vendtax[indvelmtmp] = indmeshptr->vendtax[indvelmnum];
-            orgindxtax[indvneltax[indvelmtmp]] = -2;
-            indvneltax[indvelmtmp] = orgvelmnum;
-          }
+                                                  /* Other element, even if useless, is already referenced by its nodes */
         }
         if (indenodtmp < indmeshptr->verttax[orgindxtax[orgvnodnum]]) { /* If new element distinct from all other neighboring elements */
           indedgetax[indenodnum ++] = indvelmnum; /* Record element in edge sub-array of current node                                  */
           indedgenbr += indedgenum - indmeshptr->verttax[indvelmnum];
-          indvneltax[indvelmnum] = orgvelmnum;    /* Record original number of element in case we have to remove it afterwards */
           orgindxtax[orgvelmnum] = indvelmnum ++;
         }
       }
@@ -344,7 +334,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   indmeshptr->edgetax -= indmeshptr->baseval;
 
   indmeshptr->velosum = indmeshptr->velmnbr;      /* TODO: account for element weights */
-  indmeshptr->vnlosum = (indmeshptr->velotax == NULL) ? orgsepanbr : indvnlosum;
+  indmeshptr->vnlosum = (indmeshptr->vnlotax == NULL) ? orgsepanbr : indvnlosum;
   indmeshptr->degrmax = orgmeshptr->degrmax;      /* Rough estimate */
 
   if (orgmeshptr->vnumtax != NULL) {              /* If mesh is a submesh */
-- 
2.43.0


From fc485ebcdef0c36b68b71fe5c5d8df67c2d8f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 053/134] fix: set part weights of graphs used to separate
 meshes

---
 src/libscotch/vmesh_separate_gr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/vmesh_separate_gr.c b/src/libscotch/vmesh_separate_gr.c
index 2570516..735ba88 100644
--- a/src/libscotch/vmesh_separate_gr.c
+++ b/src/libscotch/vmesh_separate_gr.c
@@ -94,6 +94,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   grafdat.comploaddlt = meshptr->ncmploaddlt;
   grafdat.compsize[0] = meshptr->ncmpsize[0];
   grafdat.compsize[1] = meshptr->ncmpsize[1];
+  grafdat.dwgttab[0]  =                           /* Parts should have about the same weights */
+  grafdat.dwgttab[1]  = 1;
   grafdat.fronnbr     = meshptr->fronnbr;
   grafdat.frontab     = meshptr->frontab;         /* Re-use frontier array */
   grafdat.levlnum     = meshptr->levlnum;
-- 
2.43.0


From 87b6d4f91e3df38c1a2316cc93e7a58f343c95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 054/134] fix: only accept existing mesh matching types in
 strategies

---
 src/libscotch/vmesh_separate_st.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/vmesh_separate_st.c b/src/libscotch/vmesh_separate_st.c
index 8fd3ae3..cc0fc96 100644
--- a/src/libscotch/vmesh_separate_st.c
+++ b/src/libscotch/vmesh_separate_st.c
@@ -142,7 +142,7 @@ static StratParamTab        vmeshseparatestparatab[] = { /* Mesh separation meth
                               { VMESHSEPASTMETHML,  STRATPARAMCASE,   "type",
                                 (byte *) &vmeshseparatedefaultml.param,
                                 (byte *) &vmeshseparatedefaultml.param.coartype,
-                                (void *) "hsn" },
+                                (void *) "n" },
                               { VMESHSEPASTMETHML,  STRATPARAMINT,    "vnod",
                                 (byte *) &vmeshseparatedefaultml.param,
                                 (byte *) &vmeshseparatedefaultml.param.vnodnbr,
-- 
2.43.0


From d6ba26fb9e63b7522685e56f651b4ebdc249457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 055/134] fix: set context and level of halo graphs built from
 meshes

---
 src/libscotch/hmesh_hgraph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/hmesh_hgraph.c b/src/libscotch/hmesh_hgraph.c
index 19c719f..2c7e0c4 100644
--- a/src/libscotch/hmesh_hgraph.c
+++ b/src/libscotch/hmesh_hgraph.c
@@ -309,6 +309,8 @@ Hgraph * restrict const       grafptr)            /*+ Graph to build +*/
   grafptr->s.edlosum =                            /* Graph edges are not weighted */
   grafptr->s.edgenbr = edgenum - grafptr->s.baseval;
   grafptr->s.degrmax = degrmax;
+  grafptr->levlnum   = meshptr->levlnum;
+  grafptr->contptr   = meshptr->contptr;
 
   memFree (hashtab);
 
-- 
2.43.0


From 5439910376c2f104df94afa18abf0d3ae5c77f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 056/134] fix: set number of halo-isolated elements of
 separator meshes

---
 src/libscotch/hmesh_order_nd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/hmesh_order_nd.c b/src/libscotch/hmesh_order_nd.c
index 5f5762b..9f46655 100644
--- a/src/libscotch/hmesh_order_nd.c
+++ b/src/libscotch/hmesh_order_nd.c
@@ -218,6 +218,7 @@ const HmeshOrderNdParam * const   paraptr)
     indmeshdat.vnohnbr = indmeshdat.m.vnodnbr;    /* Fill halo mesh structure of non-halo mesh */
     indmeshdat.vnohnnd = indmeshdat.m.vnodnnd;
     indmeshdat.vehdtax = indmeshdat.m.vendtax;
+    indmeshdat.veihnbr = 0;                       /* No halo, hence no halo-isolated elements */
     indmeshdat.vnhlsum = indmeshdat.m.vnlosum;
     indmeshdat.enohnbr = indmeshdat.m.edgenbr;
     indmeshdat.levlnum = meshptr->levlnum;        /* Separator mesh is at level of original mesh */
-- 
2.43.0


From 3b976f075d41fd197c2939dc19cd9dc36c29ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 057/134] fix: overlap partitioning loses vertices when a
 bipartition leaves a part empty

---
 src/libscotch/wgraph_part_rb.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..87afc3d 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -354,13 +354,19 @@ const WgraphPartRbSplit * const spltptr)
 
   if ((partval = 1, actgrafdat.compsize[0] <= 0) || /* If a subpart is empty, run on other part (without considering separator vertices) */
       (partval = 0, actgrafdat.compsize[1] <= 0)) {
+    if (spltdat.splttab[partval].domnsiz <= 1) {  /* If only one domain remains, it takes all of the vertices */
+      vgraphZero       (&actgrafdat);
+      wgraphPartRb3One (dataptr, &actgrafdat.s, actgrafdat.parttax, 0, spltdat.splttab[partval].domnnum);
+      vgraphExit       (&actgrafdat);
+      return;
+    }
     spltdat.splttab[1].vertnbr = actgrafdat.s.vertnbr; /* TRICK: use fake part 1 for calling */
     spltdat.splttab[1].domnnum = spltdat.splttab[partval].domnnum;
     spltdat.splttab[1].domnsiz = spltdat.splttab[partval].domnsiz;
     spltdat.frontab = NULL;                       /* No separator vertices, even if they were some */
     spltdat.fronnbr = 0;
     spltdat.parttax = NULL;
-    wgraphPartRb2 (contptr, partval, &spltdat);
+    wgraphPartRb2 (contptr, 1, &spltdat);
     vgraphExit    (&actgrafdat);
     if (o != 0)
       goto abort;
-- 
2.43.0


From 81f7b2c6a2976dcec108900088b9c6781f1d9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 058/134] fix: overlap partitioning by edge separation reads
 domains that do not exist

---
 src/libscotch/wgraph_part_es.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..f27f588 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -105,14 +105,17 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
 
   if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) { /* Map active subgraph */
     errorPrint ("wgraphPartEs: cannot partition active graph");
+    kgraphExit (&actgrafdat);
+    memFree    (npfltab - 1);
     return (1);
   }
 
   comploadtab = grafptr->compload;
   compsizetab = grafptr->compsize;
 
-  for (partnum = 0; partnum < partnbr; partnum ++)
-    comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] = actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
+  memSet (comploadtab, 0, partnbr * sizeof (Gnum));
+  for (partnum = 0; partnum < actgrafdat.m.domnnbr; partnum ++) /* Some parts may have no domain */
+    comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] += actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
 
   memSet (compsizetab, 0, partnbr * sizeof (Gnum));
   for (vertnum = grafptr->s.baseval; vertnum < grafptr->s.vertnnd; vertnum ++) {
-- 
2.43.0


From 4882d90ae0acde6faf34d7c1e8982d3d906e044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 059/134] fix: overlap partitioning strategies start from an
 uninitialised partition

---
 src/libscotch/library_graph_part_ovl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index 5bc5b89..a034b58 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -115,6 +115,8 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     goto abort;
   }
 
+  wgraphZero (&grafdat);                          /* Start from a consistent state: all vertices in part 0 */
+
   o = wgraphPartSt (&grafdat, partstraptr);
 
   wgraphExit (&grafdat);
-- 
2.43.0


From 1135979625fe8a1b6315275b0831b63897c59f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:57 +0000
Subject: [PATCH 060/134] fix: thread pool creation failure destroys the lock
 that launched threads wait on

---
 src/libscotch/common_thread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/common_thread.c b/src/libscotch/common_thread.c
index 1134a2c..e4c08a5 100644
--- a/src/libscotch/common_thread.c
+++ b/src/libscotch/common_thread.c
@@ -146,8 +146,12 @@ const int * const           coretab)
 
     if (threadCreate (&desctab[thrdnum], thrdnum, corenum) != 0) {
       errorPrint ("threadContextInit: cannot create thread (%d)", thrdnum);
+      pthread_mutex_lock (&contptr->lockdat);
       contptr->thrdnbr = thrdnum;                 /* Terminate all threads that have been launched to date */
+      pthread_mutex_unlock (&contptr->lockdat);
+      threadContextBarrier (contptr);             /* Let them leave their initial barrier before asking so */
       threadContextExit (contptr);
+      memFree (desctab);
       return (1);
     }
   }
-- 
2.43.0


From a567f41be13eb54f3be8e1b2f7886ae8cca03c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:31 +0000
Subject: [PATCH 061/134] fix: graph ordering drops edge loads but keeps their
 sum

---
 src/libscotch/library_graph_order.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 857e6a3..0438f39 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -292,6 +292,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   memCpy (&halgrafdat.s, srcgrafptr, sizeof (Graph)); /* Copy non-halo graph data */
   halgrafdat.s.flagval &= ~GRAPHFREETABS;         /* Do not allow to free arrays  */
   halgrafdat.s.edlotax  = NULL;                   /* Don't mind about edge loads  */
+  halgrafdat.s.edlosum  = halgrafdat.s.edgenbr;   /* Keep edge load sum coherent   */
   halgrafdat.vnohnbr    = halgrafdat.s.vertnbr;   /* All vertices are non-halo    */
   halgrafdat.vnohnnd    = halgrafdat.s.vertnnd;   /* No halo present              */
   halgrafdat.vnhdtax    = halgrafdat.s.vendtax;   /* End of non-halo vertices     */
-- 
2.43.0


From 53d8ef86355f6a9de9b8f6cae1081d2500393da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:00 +0000
Subject: [PATCH 062/134] fix: deterministic overlap partitioning depends on
 the order in which threads end

---
 src/libscotch/wgraph_part_rb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 87afc3d..a02a55f 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -60,6 +60,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "parser.h"
 #include "graph.h"
 #include "arch.h"
@@ -418,6 +419,7 @@ const WgraphPartRbParam * restrict const  paraptr)
 {
   WgraphPartRbData    datadat;
   WgraphPartRbSplit   spltdat;
+  INT                 deteval;                    /* Flag set if deterministic behavior */
   int                 o;
 
   if (grafptr->partnbr <= 1) {                    /* If only one part needed    */
@@ -454,6 +456,10 @@ const WgraphPartRbParam * restrict const  paraptr)
   }
   grafptr->fronnbr = datadat.fronnbr;             /* Set overall number of frontier vertices */
 
+  contextValuesGetInt (grafptr->contptr, CONTEXTOPTIONNUMDETERMINISTIC, &deteval);
+  if (deteval != 0)                               /* If order in which threads provided their frontier must not matter */
+    intSort1asc1 (grafptr->frontab, grafptr->fronnbr);
+
   if (wgraphCost (grafptr) != 0) {
     errorPrint ("wgraphPartRb: could not compute partition cost");
     return (1);
-- 
2.43.0


From bcde5bbf1ffcdd25466cc5a2b778cd52b037b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:15 +0000
Subject: [PATCH 063/134] fix: iteration over gain tables skips their last
 entry

---
 src/libscotch/gain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/gain.c b/src/libscotch/gain.c
index a09dfc2..322ecac 100644
--- a/src/libscotch/gain.c
+++ b/src/libscotch/gain.c
@@ -412,7 +412,7 @@ const GainLink * const      linkptr)
   }
 
   for (entrptr = linkptr->tabl + 1;
-       entrptr < tablptr->tend; entrptr ++) {
+       entrptr <= tablptr->tend; entrptr ++) {
     if (entrptr->next != &gainLinkDummy) {
 #ifdef SCOTCH_DEBUG_GAIN3
       if (gainTablCheck (entrptr) != 0) {
-- 
2.43.0


From 8be3844879aac586a38d77deb147b06ba124fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 064/134] fix: saved strategy conditions lose the parentheses
 they need

---
 src/libscotch/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index f7df8cc..0be0e17 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -583,13 +583,13 @@ FILE * const                stream)
     case STRATTESTSUB :                           /* Subtraction operator    */
     case STRATTESTMUL :                           /* Multiplication operator */
     case STRATTESTMOD :                           /* Modulus operator        */
-      i = (testptr->data.testtab[0]->testval < testptr->testval) ? 1 : 0;
+      i = (testptr->data.testtab[0]->testval < testptr->testval) ? 0 : 1; /* Operators of lower priority need parentheses */
       fprintf (stream, "%s", strattestsavepa[i][0]);
       o = stratTestSave (testptr->data.testtab[0], stream);
       fprintf (stream, "%s", strattestsavepa[i][1]);
       if (o == 0) {
         fprintf (stream, "%c", strattestsaveop[testptr->testval]);
-        i = (testptr->data.testtab[1]->testval < testptr->testval) ? 1 : 0;
+        i = (testptr->data.testtab[1]->testval <= testptr->testval) ? 0 : 1; /* Idem for right operands of same priority */
         fprintf (stream, "%s", strattestsavepa[i][0]);
         stratTestSave (testptr->data.testtab[1], stream);
         fprintf (stream, "%s", strattestsavepa[i][1]);
-- 
2.43.0


From 37e1c9f7233fd7f274fa0fe04ed387aef1a4dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:09 +0000
Subject: [PATCH 065/134] fix: maximum degree condition of ordering strategies
 reads an integer as a double

---
 src/libscotch/hdgraph_order_st.c | 2 +-
 src/libscotch/hgraph_order_st.c  | 2 +-
 src/libscotch/hmesh_order_st.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index e481b28..eebd06b 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -128,7 +128,7 @@ static StratParamTab        hdgraphorderstcondtab[] = { /* Graph condition param
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.veloglbsum,
                                 NULL },
-                              { STRATNODECOND,         STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,         STRATPARAMINT,    "mdeg",
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.degrglbmax,
                                 NULL },
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 146d3c9..1692ca6 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -228,7 +228,7 @@ static StratParamTab        hgraphorderstcondtab[] = { /* Graph condition parame
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.vnlosum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.s.degrmax,
                                 NULL },
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index b7dd2db..906491c 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -204,7 +204,7 @@ static StratParamTab        hmeshorderstcondtab[] = { /* Mesh condition paramete
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.vnhlsum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.m.degrmax,
                                 NULL },
-- 
2.43.0


From 57a724b6bb4cddb14cf65a372ac68ca9c102486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 066/134] fix: strategy strings that are refused lose memory or
 crash the parser

---
 src/libscotch/parser_yy.y | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a9b236d..0c3153e 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -151,6 +151,18 @@ YY_BUFFER_STATE scotchyy_scan_string (const char *, yyscan_t);
 %type <STRAT>        STRATCONCAT   STRATTEST     STRATTESTELSE STRATEMPTY
 %type <STRAT>        STRATGROUP    STRATMETHOD   STRATSELECT
 
+%destructor {
+  stratTestExit ($$);                             /* Free discarded test expression */
+} <TEST>
+%destructor {
+  stratExit ($$);                                 /* Free discarded strategy */
+} <STRAT>
+%destructor {
+  stratExit (penvptr->straptr);                   /* Free method of discarded strategy parameter, if any */
+  penvptr->straptr = ($$).strat;                  /* Method to which parameter belongs is current again  */
+  penvptr->paraptr = ($$).param;
+} <SAVE>
+
 %start STRAT
 
 %%
@@ -469,17 +481,27 @@ PARAMVAL      : VALCASE
                           ($1));
                 }
               }
-              |
+              | <SAVE>
               {
-                ($<SAVE>$).strat = penvptr->straptr;
-                ($<SAVE>$).param = penvptr->paraptr;
+                ($$).strat = penvptr->straptr;
+                ($$).param = penvptr->paraptr;
                 penvptr->straptr = NULL;
                 penvptr->paraptr = NULL;
               }
                 STRATSELECT
               {
-                penvptr->straptr = ($<SAVE>1).strat; /* Restore current method    */
-                penvptr->paraptr = ($<SAVE>1).param; /* Restore current parameter */
+                Strat **          paraptr;
+
+                penvptr->straptr = ($1).strat;    /* Restore current method    */
+                penvptr->paraptr = ($1).param;    /* Restore current parameter */
+
+                if ((penvptr->paraptr->typeval & ~STRATPARAMDEPRECATED) != STRATPARAMSTRAT) { /* If empty value for a non-strategy parameter */
+                  errorPrint ("stratParserParse: no value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@2).libenum, (@2).cobenum, (@2).tebeptr);
+                  stratExit  ($2);
+                  YYABORT;
+                }
 
                 if ((penvptr->paraptr->typeval & STRATPARAMDEPRECATED) == 0) { /* If parameter is not deprecated */
 #ifdef SCOTCH_DEBUG_PARSER2
@@ -489,8 +511,10 @@ PARAMVAL      : VALCASE
                   }
 #endif /* SCOTCH_DEBUG_PARSER2 */
 
-                  *((Strat **) ((byte *) &penvptr->straptr->data.methdat.datadat +
-                                (penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr))) = ($2);
+                  paraptr = (Strat **) ((byte *) &penvptr->straptr->data.methdat.datadat +
+                                        (penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr));
+                  stratExit (*paraptr);           /* Free value if parameter already set */
+                  *paraptr = ($2);
                 }
               }
               | error
-- 
2.43.0


From c6f2858aff31665e12435b65def060a5208297ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 067/134] fix: default parameters of band methods lack a
 strategy

---
 src/libscotch/bdgraph_bipart_st.c | 2 +-
 src/libscotch/bgraph_bipart_st.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bdgraph_bipart_st.c b/src/libscotch/bdgraph_bipart_st.c
index 1ec950c..0316edf 100644
--- a/src/libscotch/bdgraph_bipart_st.c
+++ b/src/libscotch/bdgraph_bipart_st.c
@@ -81,7 +81,7 @@ static Bdgraph              bdgraphdummy;     /* Dummy distributed bipartitioned
 static union {
   BdgraphBipartBdParam      param;
   StratNodeMethodData       padding;
-} bdgraphbipartstdefaultbd = { { 3, &stratdummy } };
+} bdgraphbipartstdefaultbd = { { 3, &stratdummy, &stratdummy } };
 
 static union {
   BdgraphBipartDfParam      param;
diff --git a/src/libscotch/bgraph_bipart_st.c b/src/libscotch/bgraph_bipart_st.c
index 2d332a9..5dda1fd 100644
--- a/src/libscotch/bgraph_bipart_st.c
+++ b/src/libscotch/bgraph_bipart_st.c
@@ -92,7 +92,7 @@ static Bgraph               bgraphdummy;      /*+ Dummy active graph for offset
 static union {
   BgraphBipartBdParam       param;
   StratNodeMethodData       padding;
-} bgraphbipartstdefaultbd = { { 3, &stratdummy } };
+} bgraphbipartstdefaultbd = { { 3, &stratdummy, &stratdummy } };
 
 static union {
   BgraphBipartDfParam       param;
-- 
2.43.0


From 7bce8ccf647e2f23165de1d7898fa378e87550f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:51 +0000
Subject: [PATCH 068/134] fix: METIS_PartGraphRecursive crashes when no
 imbalance tolerances are given

---
 src/libscotchmetis/metis_graph_part.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 3559d5a..c800bfa 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -583,16 +583,18 @@ SCOTCH_Num * const          objval,
 SCOTCH_Num * const          part)
 {
   SCOTCH_Num          baseval;
+  double              kbalval;
 
+  kbalval = 0.01;
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
 
   return ((vsize == NULL)
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
-                                     SCOTCH_STRATRECURSIVE, ubvec)
+                                     SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval)
           : _SCOTCH_METIS_PartGraph_Volume (nvtxs, ncon, xadj, adjncy, vwgt, vsize,
                                             &baseval, nparts, tpwgts, options, objval, part,
-                                            SCOTCH_STRATRECURSIVE, ubvec));
+                                            SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval));
 }
 
 /*******************/
-- 
2.43.0


From 5caf5ee366ab5173532e9b02108dd91af35358f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:24 +0000
Subject: [PATCH 069/134] fix: METIS_MeshToDual accepts node numbers one past
 the end and reports failures as success

---
 src/libscotchmetis/metis_graph_dual.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_dual.c b/src/libscotchmetis/metis_graph_dual.c
index decc768..809e786 100644
--- a/src/libscotchmetis/metis_graph_dual.c
+++ b/src/libscotchmetis/metis_graph_dual.c
@@ -102,7 +102,7 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
     }
     for ( ; edgenum < edgennd; edgenum ++) {
       if ((edgetax[edgenum] <  baseval) ||
-          (edgetax[edgenum] > (baseval + vnodnbr))) {
+          (edgetax[edgenum] >= (baseval + vnodnbr))) {
         SCOTCH_errorPrint ("_SCOTCH_METIS_MeshToDual2: invalid input indices (2)");
         return            (METIS_ERROR_INPUT);
       }
@@ -238,7 +238,7 @@ SCOTCH_Num ** const         adjncy)
   SCOTCH_meshExit (&meshdat);                     /* Mesh structure is no longer needed */
   if (o != 0) {
     SCOTCH_errorPrint ("METIS_MeshToDual: cannot create graph from mesh");
-    return (o);
+    return (METIS_ERROR);
   }
 
   SCOTCH_graphData (&grafdat, &baseval, &vertnbr, &verttab, &vendtab, NULL, NULL, &edgenbr, &edgetab, NULL);
-- 
2.43.0


From c7ee6ba5ebd1c29bf18668c67c676af53f93b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:24 +0000
Subject: [PATCH 070/134] fix: METIS_PartMeshDual misuses null arrays and gives
 isolated nodes an invalid part

---
 src/libscotchmetis/metis_graph_part_dual.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 037dc40..b66158d 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -202,7 +202,8 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     edlotab = NULL;
 
   SCOTCH_graphInit  (&graftmp);
-  SCOTCH_graphBuild (&graftmp, baseval, vertnbr, verttab, vendtab, vwgt, NULL, edgenbr, edgetab, edlotab);
+  SCOTCH_graphBuild (&graftmp, baseval, vertnbr, verttab, vendtab,
+                     (vwgt != ne) ? vwgt : NULL, NULL, edgenbr, edgetab, edlotab);
   SCOTCH_stratInit  (&stradat);
 
   if (SCOTCH_graphMap (&graftmp, &archdat, &stradat, epart) == 0) {
@@ -215,7 +216,8 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
 
     if (((vsize != NULL) && (vsize != ne)) ||     /* If computation of communication volume wanted */
         ((options != NULL) && (options != ne) && (options[METIS_OPTION_OBJTYPE] == METIS_OBJTYPE_VOL)))
-      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval, vsize - baseval, *nparts, epart - baseval, objval);
+      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
+                                   (edlotab != NULL) ? (vsize - baseval) : NULL, *nparts, epart - baseval, objval);
     else
       o = _SCOTCH_METIS_OutputCut (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
                                    (edlotab != NULL) ? (edlotab - baseval) : NULL, epart - baseval, objval);
@@ -242,7 +244,7 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     SCOTCH_Num          edgenum;
 
     edgenum = verttab[vnodnum + (vnodbas - baseval)];
-    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : 0; /* If non-isolated node, get part of first neighbor element, else 0 */
+    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : baseval; /* If non-isolated node, get part of first neighbor element, else first part */
   }
 
   SCOTCH_meshExit (&meshdat);
-- 
2.43.0


From 4ba1041c89d64de5eb67c27b8c2006826cc16be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:57 +0000
Subject: [PATCH 071/134] fix: esmumps_strat1: name the halo approximate
 minimum degree method by its current letter

---
 src/esmumps/library_esmumps_strats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esmumps/library_esmumps_strats.c b/src/esmumps/library_esmumps_strats.c
index 6a2e121..ea9afbe 100644
--- a/src/esmumps/library_esmumps_strats.c
+++ b/src/esmumps/library_esmumps_strats.c
@@ -101,7 +101,7 @@ char * const                straptr)
 
   for (levlval = 1, procmax = 1; procmax < procnbr; procmax <<= 1, levlval ++) ; /* Compute log2 of procnbr, + 1 */
 
-  hamxval = (leorval == 0) ? 'h' : 'f';           /* HAMD if 0, HAMF if 1 */
+  hamxval = (leorval == 0) ? 'd' : 'f';           /* HAMD if 0, HAMF if 1 */
 
   if (verbval != 0) {
     fprintf (stream, "Scotch strategy:\n- %ld levels of ND are necessary for %ld processors\n",
-- 
2.43.0


From a6c43d5acf85094842842f8d13e7c8cd451213ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:29 +0000
Subject: [PATCH 072/134] fix: symbolFax: reserve room for the diagonal and
 trailing temporary blocks

---
 src/esmumps/symbol_fax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esmumps/symbol_fax.c b/src/esmumps/symbol_fax.c
index 813b041..6aef44d 100644
--- a/src/esmumps/symbol_fax.c
+++ b/src/esmumps/symbol_fax.c
@@ -240,7 +240,7 @@ const Order * const         ordeptr)              /*+ Matrix ordering
            ctrbtmp != ~0; ctrbtmp = ctrbtax[ctrbtmp])
         ctrbsum += cblktax[ctrbtmp + 1].bloknum - cblktax[ctrbtmp].bloknum - 2; /* Sum contributing column blocks */
 
-      tlokmax = degrmax + ctrbsum;                /* Maximum possible number of blocks in temporary area */
+      tlokmax = degrmax + ctrbsum + 2;            /* Maximum possible number of blocks in temporary area, plus diagonal and trailing blocks */
       sortoft = ((ptrdiff_t) tlokmax) * sizeof (SymbolBlok);
       if ((((ptrdiff_t) hashsiz) * (ptrdiff_t) sizeof (INT)) > sortoft) /* Compute offset of sort area */
         sortoft = (((ptrdiff_t) hashsiz) * (ptrdiff_t) sizeof (INT));
-- 
2.43.0


From 10cf4b5a0636986c5f532eb1abe84f584f887d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:59 +0000
Subject: [PATCH 073/134] fix: SCOTCH_dgraphStat returns uninitialised or wrong
 edge load figures

---
 src/libscotch/library_dgraph_stat.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 26f7551..b379769 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -246,7 +246,8 @@ double *                    edlodltptr)
         errorPrint (STRINGIFY (SCOTCH_dgraphStat) ": communication error (1)");
         return (1);
       }
-      edloglbavg = (double) edloglbsum / (double) (2 * srcgrafptr->edgeglbnbr);
+      edloglbavg = (double) edloglbsum / (double) srcgrafptr->edgeglbnbr; /* Both sum and number account for arcs */
+      edloglbsum /= 2;                            /* Each edge is counted once, as when there are no edge loads  */
 
       for (vertlocnum = srcgrafptr->baseval; vertlocnum < srcgrafptr->vertlocnnd; vertlocnum ++) {
         Gnum                edgelocnum;
@@ -255,6 +256,9 @@ double *                    edlodltptr)
              edgelocnum < srcgrafptr->vendloctax[vertlocnum]; edgelocnum ++)
           edlolocdlt += fabs ((double) srcgrafptr->edloloctax[edgelocnum] - edloglbavg);
       }
+
+      srclstadat.edlomin = edlolocmin;
+      srclstadat.edlomax = edlolocmax;
     }
     else {
       srclstadat.edlomin =
@@ -269,6 +273,7 @@ double *                    edlodltptr)
     edloglbsum         = 0;
     edloglbavg         = 0.0L;
   }
+  srclstadat.edlosum = 0;                         /* Sum already known globally */
   srclstadat.edlodlt = edlolocdlt;
 
 #if ((defined MPI_VERSION) && (MPI_VERSION >= 3))
@@ -310,7 +315,7 @@ double *                    edlodltptr)
   if (veloavgptr != NULL)
     *veloavgptr = (double) veloglbavg;
   if (velodltptr != NULL)
-    *velodltptr = srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr;
+    *velodltptr = (srcgrafptr->vertglbnbr > 0) ? srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr : 0.0;
 
   if (degrminptr != NULL)
     *degrminptr = (SCOTCH_Num) srcgstadat.degrmin;
@@ -319,7 +324,7 @@ double *                    edlodltptr)
   if (degravgptr != NULL)
     *degravgptr = (double) degrglbavg;
   if (degrdltptr != NULL)
-    *degrdltptr = srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr;
+    *degrdltptr = (srcgrafptr->vertglbnbr > 0) ? srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr : 0.0;
 
   if (edlominptr != NULL)
     *edlominptr = (SCOTCH_Num) srcgstadat.edlomin;
@@ -330,7 +335,7 @@ double *                    edlodltptr)
   if (edloavgptr != NULL)
     *edloavgptr = (double) edloglbavg;
   if (edlodltptr != NULL)
-    *edlodltptr = srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr;
+    *edlodltptr = (srcgrafptr->edgeglbnbr > 0) ? srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr : 0.0;
 
   return (0);
 }
-- 
2.43.0


From 31dddc3cd3d44ca53aa3ea8a8665e308ff678e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 074/134] fix: dgraphCheck misses arcs to non-existing
 vertices, loops, negative starts and invalid loads

---
 src/libscotch/dgraph_check.c | 52 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 600bc32..c0ba7d5 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -292,7 +292,8 @@ const Dgraph * restrict const grafptr)
   for (vertlocnum = grafptr->baseval, edgelocnbr = 0; vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
     Gnum                edgelocnum;
 
-    if ((vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
+    if ((vertloctax[vertlocnum] < grafptr->baseval) ||
+        (vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
         (vendloctax[vertlocnum] > (grafptr->edgelocsiz + grafptr->baseval))) {
       errorPrint ("dgraphCheck: inconsistent local vertex arrays");
       edgelocnbr = grafptr->edgelocnbr;           /* Avoid unwanted cascaded error messages */
@@ -301,25 +302,24 @@ const Dgraph * restrict const grafptr)
     }
     edgelocnbr += vendloctax[vertlocnum] - vertloctax[vertlocnum];
 
-    if ((grafptr->flagval & DGRAPHHASEDGEGST) != 0) { /* If ghost edge array is valid */
-      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
-        if ((edgegsttax[edgelocnum] < grafptr->baseval) ||
-            (edgegsttax[edgelocnum] >= grafptr->vertgstnnd)) {
-          errorPrint ("dgraphCheck: inconsistent ghost edge array");
-          edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
-          vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
-          cheklocval = 1;
-          break;
-        }
+    for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+      if (((grafptr->flagval & DGRAPHHASEDGEGST) != 0) && /* If ghost edge array is valid */
+          ((edgegsttax[edgelocnum] < grafptr->baseval) ||
+           (edgegsttax[edgelocnum] >= grafptr->vertgstnnd))) {
+        errorPrint ("dgraphCheck: inconsistent ghost edge array");
+        edgelocnbr = grafptr->edgelocnbr;         /* Avoid unwanted cascaded error messages */
+        vertlocnum = grafptr->vertlocnnd;         /* Exit outer loop                        */
+        cheklocval = 1;
+        break;
+      }
 
-        if ((edloloctax != NULL) &&
-            (edloloctax[edgelocnum] <= 0)) {
-          errorPrint ("dgraphCheck: invalid edge load");
-          edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
-          vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
-          cheklocval = 1;
-          break;
-        }
+      if ((edloloctax != NULL) &&
+          (edloloctax[edgelocnum] <= 0)) {
+        errorPrint ("dgraphCheck: invalid edge load");
+        edgelocnbr = grafptr->edgelocnbr;         /* Avoid unwanted cascaded error messages */
+        vertlocnum = grafptr->vertlocnnd;         /* Exit outer loop                        */
+        cheklocval = 1;
+        break;
       }
     }
   }
@@ -406,6 +406,7 @@ const Dgraph * restrict const grafptr)
   edlongbptr = edloloctax;
   vertngbnbr[0] = grafptr->vertlocnbr;            /* Set number of local vertices and edges to send      */
   edgengbnbr[0] = grafptr->edgelocsiz;            /* Send all of edge array is case graph is not compact */
+  edgelocnbr    = 0;                              /* No arcs found to lead to an existing vertex yet     */
   for (procnum = 0; procnum < procglbnbr; procnum ++) { /* For all processes including self              */
     Gnum                procngbnum;
     Gnum                vertlocnum;
@@ -413,7 +414,7 @@ const Dgraph * restrict const grafptr)
 
     procngbnum = (proclocnum + procnum) % procglbnbr; /* Compute neighbor process number */
     vertngbmin = grafptr->procvrttab[procngbnum]; /* Get neighbor vertex number range    */
-    vertngbmax = grafptr->procvrttab[procngbnum + 1];
+    vertngbmax = vertngbmin + grafptr->proccnttab[procngbnum]; /* Global numbers in holes are not vertices */
 
 #ifdef SCOTCH_DEBUG_DGRAPH2
     if ((vertngbnbr[procngbsel] != grafptr->proccnttab[procngbnum]) ||
@@ -457,6 +458,8 @@ const Dgraph * restrict const grafptr)
           Gnum                edgengbnnd;
           Gnum                edgengbsum;
 
+          edgelocnbr ++;                          /* One more arc leads to an existing vertex */
+
           for (edgengbnum = vertngbptr[vertglbend - vertngbmin],
                edgengbnnd = vendngbptr[vertglbend - vertngbmin], edgengbsum = 0;
                edgengbnum < edgengbnnd; edgengbnum ++) {
@@ -471,16 +474,23 @@ const Dgraph * restrict const grafptr)
             cheklocval = 1;
           else if (edgengbsum > 1)                /* If duplicate edge */
             cheklocval = 2;
+          if (vertglbend == vertglbnum)           /* If loop edge */
+            cheklocval = 4;
         }
       }
     }
+    if ((procnum == (procglbnbr - 1)) &&          /* If all end vertices should have been found */
+        (edgelocnbr != grafptr->edgelocnbr))
+      cheklocval = 4;
     MPI_Allreduce (&cheklocval, &chekglbval, 1, MPI_INT, MPI_MAX, proccomm);
 
-    if (chekglbval != 0) {                        /* Error number ranges from 1 to 3 */
+    if (chekglbval != 0) {                        /* Error number ranges from 1 to 4 */
       if (chekglbval == 1)
         errorPrint ("dgraphCheck: arc data do not match");
       else if (chekglbval == 2)
         errorPrint ("dgraphCheck: duplicate arc");
+      else if (chekglbval == 4)
+        errorPrint ("dgraphCheck: invalid arc end");
       else
         errorPrint ("dgraphCheck: arc load data do not match");
       memFree (vertngbtab[0]);                    /* Free group leader */
-- 
2.43.0


From 0a7541a835464705f44d726eec815630089e0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 075/134] fix: dgraphBuild does not convert the labels of
 non-compact edge arrays

---
 src/libscotch/dgraph_build.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dgraph_build.c b/src/libscotch/dgraph_build.c
index fb36e01..df4d9bf 100644
--- a/src/libscotch/dgraph_build.c
+++ b/src/libscotch/dgraph_build.c
@@ -396,12 +396,16 @@ const Gnum                  degrlocmax)
       return (1);
     }
 
-    for (edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr, edgelocnum = baseval;
-         edsolocptr < edsoloctnd; edsolocptr ++, edgelocnum ++) {
-      edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
-      edsolocptr->edgelocnum = edgelocnum;
+    for (vertlocnum = baseval, edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr;
+         vertlocnum < grafptr->vertlocnnd; vertlocnum ++) { /* Edge array may not be compact */
+      for (edgelocnum = vertloctax[vertlocnum];
+           (edgelocnum < vendloctax[vertlocnum]) && (edsolocptr < edsoloctnd); edgelocnum ++, edsolocptr ++) {
+        edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
+        edsolocptr->edgelocnum = edgelocnum;
+      }
     }
-    intSort2asc2 (edsoloctab, grafptr->edgelocnbr);
+    edsoloctnd = edsolocptr;                      /* Consider only edges that do exist */
+    intSort2asc2 (edsoloctab, edsoloctnd - edsoloctab);
 
     procrcvnum = (grafptr->proclocnum + 1) % procglbnbr; /* Compute indices of neighbors */
     procsndnum = (grafptr->proclocnum - 1 + procglbnbr) % procglbnbr;
-- 
2.43.0


From 3f0bb7051ad04ce74983cb41104eb51c6fea268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:22 +0000
Subject: [PATCH 076/134] fix: SCOTCH_dgraphBand mistakes labels for indices
 and gives a null load sum

---
 src/libscotch/library_dgraph_band.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 49bb48d..1e3a93b 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -252,7 +252,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
   edgegsttax = grafptr->edgegsttax;
 
   bandvertloctax = bandgrafptr->vertloctax;
-  bandvelolocsum = 0;
+  bandvelolocsum = (veloloctax != NULL) ? 0 : bandvertlocnbr; /* Set local vertex load sum if no vertex loads present */
   banddegrlocmax = 0;
   for (bandvertlocnum = bandedgelocnum = bandgrafptr->baseval; /* Build global vertex array of band graph */
        bandvertlocnum < bandvertlvlnum; bandvertlocnum ++) { /* For all vertices save for the last level  */
@@ -260,7 +260,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -290,7 +290,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -326,7 +326,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
       Gnum              vertlocnum;
       Gnum              bandedgelocnum;
 
-      vertlocnum     = bandvlblloctax[bandvertlocnum] - vertlocadj;
+      vertlocnum     = fronloctax[bandvertlocnum];
       bandedgelocnum = bandvertloctax[bandvertlocnum];
       memCpy (bandedloloctax + bandedgelocnum,    /* Copy edge load array */
               &edloloctax[vertloctax[vertlocnum]],
-- 
2.43.0


From 8f81dcb52e5b899d035bdf68925b2de9225cd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:22 +0000
Subject: [PATCH 077/134] fix: band graphs of width zero use an uninitialised
 level index

---
 src/libscotch/dgraph_band_grow.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 4f1942c..b5f49a2 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -178,6 +178,7 @@ Context *                         contptr)        /*+ Execution context
 
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
+  *bandvertlvlptr = bandvertlvlnum;               /* In case no level is added */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
 
   DGRAPHBANDGROWENQ1;                             /* Record queued vertices in index array and account for their edges */
@@ -434,6 +435,7 @@ Context *                         contptr)        /*+ Execution context
 
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
+  *bandvertlvlptr = bandvertlvlnum;               /* In case no level is added */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
 
   DGRAPHBANDGROWENQ1;                             /* Record queued vertices in index array and account for their edges */
-- 
2.43.0


From fdddf5632f0735777a3cd0fe85ad0aa21eaa9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:22 +0000
Subject: [PATCH 078/134] fix: dgraphRedist2 overwrites data not yet read when
 vertices are reordered

---
 src/libscotch/dgraph_redist.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index a541294..d9b7732 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -351,8 +351,7 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
            dstveloloctax  = ((srcgrafptr->veloloctax != NULL) ? dstveloloctax - baseval : NULL),
            dstvlblloctax -= baseval,
            memAllocGroup ((void **) (void *)
-                          &dstedgeloctax, (size_t) ((dstedlolocsiz +  /* TRICK: extra space required only if edge loads                                */
-                                                     MAX (dstedgelocdlt, srcgrafptr->degrglbmax)) * sizeof (Gnum)), /* TRICK: degrmax to avoid overlap */
+                          &dstedgeloctax, (size_t) (MAX ((dstedgelocsiz + dstedlolocsiz) - dsnddatnbr, 0) * sizeof (Gnum)), /* TRICK: complement to send space */
                           &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)), /* TRICK: send space will be edgeloctab or edloloctab                 */
                           &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed              */
     errorPrint ("dgraphRedist2: out of memory (3)");
@@ -461,7 +460,7 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
       drcvdatidx += dstdegrval;
     }
 #ifdef SCOTCH_DEBUG_DGRAPH2
-    if (abs ((dstedgeloctax + dstedgelocnum) - (drcvdattab + drcvdatidx)) < dstdegrval) { /* TRICK: memory areas should never overlap because of degrmax */
+    if (abs ((dstedgeloctax + dstedgelocnum) - (drcvdattab + drcvdatidx)) < dstdegrval) { /* Memory areas should never overlap */
       errorPrint ("dgraphRedist2: internal error (2)");
       return (1);
     }
-- 
2.43.0


From 9d8d894f0a66ae5ca121f82631996cb06eefd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:22 +0000
Subject: [PATCH 079/134] fix: dgraphRedist does not reserve the extra vertex
 room it is asked for

---
 src/libscotch/dgraph_redist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index d9b7732..4312d02 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -186,7 +186,7 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
   else
     permgsttmp = srcpermgsttax;
 
-  o = dgraphRedist2 (srcgrafptr, srcpartloctax, permgsttmp, procdsptab, procvrttab, 0, dstedgelocdlt, dstgrafptr);
+  o = dgraphRedist2 (srcgrafptr, srcpartloctax, permgsttmp, procdsptab, procvrttab, dstvertlocdlt, dstedgelocdlt, dstgrafptr);
 
   memFree (procvrttab);                           /* Free group leader */
 
-- 
2.43.0


From 2b710b8e9095dde4e24c1b7e65fcffe380d800db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:42 +0000
Subject: [PATCH 080/134] fix: coarsening an empty distributed graph with loads
 divides by zero

---
 src/libscotch/dgraph_match.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_match.c b/src/libscotch/dgraph_match.c
index 4307231..76ef362 100644
--- a/src/libscotch/dgraph_match.c
+++ b/src/libscotch/dgraph_match.c
@@ -193,7 +193,8 @@ DgraphMatchData * restrict const  mateptr)
 #define DGRAPHMATCHSCANINIT                                        \
   const Gnum * restrict const veloloctax = grafptr->veloloctax;    \
   const Gnum * restrict const edloloctax = grafptr->edloloctax;    \
-  if ((veloloctax == NULL) || (edloloctax == NULL)) {              \
+  if ((veloloctax == NULL) || (edloloctax == NULL) ||              \
+      (grafptr->vertglbnbr == 0)) {                                \
     dgraphMatchHy (mateptr);                                       \
     return;                                                        \
   }                                                                \
-- 
2.43.0


From 9c395eaaba9c6691a3cc084b672fa0ffccdc721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:42 +0000
Subject: [PATCH 081/134] fix: dgraphCoarsen with folding copies a null
 multinode array when there is no coarse graph

---
 src/libscotch/library_dgraph_coarsen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_coarsen.c b/src/libscotch/library_dgraph_coarsen.c
index c413063..74ee96f 100644
--- a/src/libscotch/library_dgraph_coarsen.c
+++ b/src/libscotch/library_dgraph_coarsen.c
@@ -150,7 +150,8 @@ SCOTCH_Num * const          multloctab)           /* Pointer to multinode array
       memFree (multlocptr);                       /* Free allocated multinode array (folded or not) */
   }
   else {                                          /* User provided a multinode array                */
-    if (foldval != DGRAPHCOARSENNONE) {           /* If folding took place, user array was not used */
+    if ((foldval != DGRAPHCOARSENNONE) &&         /* If folding took place, user array was not used */
+        (multlocptr != NULL)) {                   /* And there is folded multinode data on process  */
 #ifdef SCOTCH_DEBUG_LIBRARY2
       SCOTCH_Num          multlocsiz;             /* Size that the user may have reserved for the multinode folded array */
 
-- 
2.43.0


From 0a1c7ec046e5174c7b1074444629df34bb1a3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:58 +0000
Subject: [PATCH 082/134] fix: dgraphGrow checks its send index against the
 number of vertices instead of items

---
 src/libscotch/dgraph_band_grow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index b5f49a2..9166422 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -237,7 +237,7 @@ Context *                         contptr)        /*+ Execution context
 #ifdef SCOTCH_DEBUG_DGRAPH2
           if ((grafptr->procvrttab[grafptr->procngbtab[procngbnum]]     >  vertglbend) ||
               (grafptr->procvrttab[grafptr->procngbtab[procngbnum] + 1] <= vertglbend) ||
-              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + grafptr->procrcvtab[grafptr->procngbtab[procngbnum]]))) {
+              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + DGRAPHBANDGROWSMUL (grafptr->procrcvtab[grafptr->procngbtab[procngbnum]])))) {
             errorPrint (DGRAPHBANDGROWNSTR "Coll: internal error (1)");
             return     (1);
           }
-- 
2.43.0


From b3803594478a88e87c09bb0523bd98ccea7d4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 083/134] fix: loading a centralised graph with vertex loads
 discarded overflows the vertex array

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6c173b3..4b72980 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -267,7 +267,7 @@ const int                   protnum)              /* Root process number
     vertloctax  =
     vertlocptr -= baseval;
     vertlocptr += vertglbmax + 2;                 /* TRICK: "+2" for space for velolocsum */
-    if (proptab[2] != 0) {
+    if (velolocnbr != 0) {
       veloloctax  = vertlocptr;
       vertlocptr += vertglbmax;
     }
-- 
2.43.0


From 9f9abfcc62bf74c75639cd14fefa53f920414c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 084/134] fix: dgraphLoad does not propagate errors in the
 header of a centralised graph

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 4b72980..d7fc94f 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -224,7 +224,7 @@ const int                   protnum)              /* Root process number
         (reduglbtab[4] < 0)                     ||
         (reduglbtab[4] > 111)) {
       errorPrint ("dgraphLoadCent: bad input (1)");
-      cheklocval = 1;
+      reduglbtab[0] = 1;
     }
   }
 
-- 
2.43.0


From 1fd1887a0cd761d0f5618c1810183864c695b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:20 +0000
Subject: [PATCH 085/134] fix: loading a centralised graph from all processes
 is documented but not implemented

---
 src/libscotch/dgraph_io_load.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index d7fc94f..6dc8ffa 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -904,6 +904,5 @@ FILE * const                stream,               /* One single centralized stre
 Gnum                        baseval,              /* Base value (-1 means keep file base) */
 const DgraphFlag            flagval)              /* Graph loading flags                  */
 {
-  errorPrint ("dgraphLoadMulti: not implemented");
-  return     (1);
+  return (dgraphLoadCent (grafptr, (grafptr->proclocnum == 0) ? stream : NULL, baseval, flagval, 0)); /* All streams hold the same graph: use only the first one */
 }
-- 
2.43.0


From 78c66e0648762326e87a4684184a11b53c4173e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 086/134] fix: centralised graphs with edge loads cannot be
 loaded when some process has no edges

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6dc8ffa..e94b639 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -597,7 +597,7 @@ const int                   protnum)              /* Root process number
           errorPrint ("dgraphLoadCent: communication error (13)");
           return     (1);
         }
-        if (edlolocnbr != 0) {
+        if ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) { /* Even when process has no edges */
           edloloctax = edgeloctax + edgelocnbr;
           if (MPI_Irecv (edloloctax, edgelocnbr, GNUM_MPI, protnum, TAGEDLOLOCTAB, grafptr->proccomm, &requtab[requnbr ++]) != MPI_SUCCESS) {
             errorPrint ("dgraphLoadCent: communication error (14)");
-- 
2.43.0


From b2270899adaac0a027a48b85cd1dfee1a9f508c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 087/134] fix: ordering distributed graphs which are not
 compact or have unused global numbers fails

---
 src/libscotch/library_dgraph_order.c | 71 ++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/libscotch/library_dgraph_order.c b/src/libscotch/library_dgraph_order.c
index 7e08b11..5d0126e 100644
--- a/src/libscotch/library_dgraph_order.c
+++ b/src/libscotch/library_dgraph_order.c
@@ -129,6 +129,70 @@ FILE * const                    stream)           /*+ Output stream    +*/
   return (dorderSave ((Dorder *) libordeptr, (Dgraph *) CONTEXTOBJECT (libgrafptr), stream));
 }
 
+/*+ This routine replaces the given distributed
+*** graph by a compact equivalent, without holes in
+*** its arrays nor in its global numbering, whenever
+*** it is not already so, because ordering methods
+*** only operate on graphs of this kind.
+*** It returns:
+*** - 0   : on success.
+*** - !0  : on error.
++*/
+
+static
+int
+dgraphOrderCompact (
+Dgraph * restrict const     grafptr)
+{
+  Dgraph              cmptgrafdat;
+  Gnum * restrict     listloctab;
+  Gnum                listlocnum;
+  int                 cheklocval;
+  int                 chekglbval;
+  int                 o;
+
+  cheklocval = ((grafptr->vendloctax != (grafptr->vertloctax + 1)) ||
+                ((grafptr->procvrttab[grafptr->procglbnbr] - grafptr->baseval) != grafptr->vertglbnbr)) ? 1 : 0;
+  if (MPI_Allreduce (&cheklocval, &chekglbval, 1, MPI_INT, MPI_MAX, grafptr->proccomm) != MPI_SUCCESS) {
+    errorPrint ("dgraphOrderCompact: communication error (1)");
+    return (1);
+  }
+  if (chekglbval == 0)                            /* If graph is already compact on all processes */
+    return (0);
+
+  cheklocval = 0;
+  if ((listloctab = memAlloc ((grafptr->vertlocnbr + 1) * sizeof (Gnum))) == NULL) {
+    errorPrint ("dgraphOrderCompact: out of memory");
+    cheklocval = 1;
+  }
+  if (MPI_Allreduce (&cheklocval, &chekglbval, 1, MPI_INT, MPI_MAX, grafptr->proccomm) != MPI_SUCCESS) {
+    errorPrint ("dgraphOrderCompact: communication error (2)");
+    chekglbval = 1;
+  }
+  if (chekglbval != 0) {
+    if (listloctab != NULL)
+      memFree (listloctab);
+    return (1);
+  }
+
+  for (listlocnum = 0; listlocnum < grafptr->vertlocnbr; listlocnum ++) /* Keep all vertices, in order */
+    listloctab[listlocnum] = listlocnum + grafptr->baseval;
+
+  dgraphInit (&cmptgrafdat, grafptr->proccomm); /* Re-use original graph communicator */
+  o = dgraphInduceList (grafptr, grafptr->vertlocnbr, listloctab, &cmptgrafdat);
+  memFree (listloctab);
+  if (o != 0) {
+    errorPrint ("dgraphOrderCompact: cannot build compact graph");
+    return (1);
+  }
+
+  dgraphExit (grafptr);                           /* Free ghost arrays of original graph if allocated internally */
+  *grafptr            = cmptgrafdat;
+  grafptr->vnumloctax = NULL;                     /* Vertex indices are the ones of the original graph */
+
+  return (0);
+}
+
 /*+ This routine computes an ordering
 *** of the API ordering structure with
 *** respect to the given strategy.
@@ -202,6 +266,12 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   srcgrafdat.s.flagval   &= ~DGRAPHFREEALL;       /* Do not free anything from it   */
   srcgrafdat.s.edloloctax = NULL;                 /* Never mind about edge loads    */
   srcgrafdat.s.vlblloctax = NULL;                 /* Do not propagate vertex labels */
+  srcgrafdat.vhndloctax   = srcgrafdat.s.vertloctax + 1;
+  if (dgraphOrderCompact (&srcgrafdat) != 0) {
+    errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": cannot compact graph");
+    hdgraphExit (&srcgrafdat);
+    goto abort;
+  }
   srcgrafdat.vhallocnbr   = 0;                    /* No halo on graph               */
   srcgrafdat.vhndloctax   = srcgrafdat.s.vendloctax;
   srcgrafdat.ehallocnbr   = 0;
@@ -217,6 +287,7 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   dorderFree (srcordeptr);                        /* Clean all existing ordering data */
   if ((srccblkptr = dorderFrst (srcordeptr)) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": cannot create root column block");
+    hdgraphExit (&srcgrafdat);
     goto abort;
   }
   o = hdgraphOrderSt (&srcgrafdat, srccblkptr, ordstraptr);
-- 
2.43.0


From af43b91f1cff1436d76dae5809aa0dc1a2adcb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 088/134] fix: saving distributed orderings of labelled graphs
 of base 1 overflows the label array

---
 src/libscotch/dorder_io.c      | 3 ++-
 src/libscotch/dorder_io_tree.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/dorder_io.c b/src/libscotch/dorder_io.c
index bc23b26..2979dce 100644
--- a/src/libscotch/dorder_io.c
+++ b/src/libscotch/dorder_io.c
@@ -113,6 +113,7 @@ FILE * restrict const         stream)
 
   reduloctab[0] = 0;
   permtab       = NULL;
+  vlbltax       = NULL;
   if (protnum == ordeptr->proclocnum) {
     Gnum                  vlblnbr;
 
@@ -142,7 +143,7 @@ FILE * restrict const         stream)
 
   if (grafptr->vlblloctax != NULL) {
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltax - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSave: communication error (3)");
       return (1);
     }
diff --git a/src/libscotch/dorder_io_tree.c b/src/libscotch/dorder_io_tree.c
index f40fd19..6ac5640 100644
--- a/src/libscotch/dorder_io_tree.c
+++ b/src/libscotch/dorder_io_tree.c
@@ -128,7 +128,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
     if (cheklocval != 0)
       return (1);
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltab, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltab - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSaveTree2: communication error (3)");
       return     (1);
     }
@@ -148,7 +148,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
   if (protnum == ordeptr->proclocnum) {
     cheklocval = dorderGather (ordeptr, &corddat); /* Need inverse permutation too */
     if (cheklocval == 0)
-      cheklocval = funcptr (&corddat, vlbltab, stream);
+      cheklocval = funcptr (&corddat, (vlbltab != NULL) ? (vlbltab - ordeptr->baseval) : NULL, stream);
     orderExit (&corddat);
   }
   else
-- 
2.43.0


From ce77fc9f781956ad5ddabc5dedf80709c44ff6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 089/134] fix: fathers in distributed separator trees are not
 based

---
 src/libscotch/dorder_tree_dist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_tree_dist.c b/src/libscotch/dorder_tree_dist.c
index c61e9b6..34c8fce 100644
--- a/src/libscotch/dorder_tree_dist.c
+++ b/src/libscotch/dorder_tree_dist.c
@@ -295,7 +295,8 @@ Gnum * restrict const         sizeglbtab)
       return     (1);
     }
 #endif /* SCOTCH_DEBUG_DORDER2 */
-    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    dblkglbtmp = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2]; /* Get un-based father index, or -1 for root */
+    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = (dblkglbtmp >= 0) ? (dblkglbtmp + ordeptr->baseval) : dblkglbtmp;
     sizeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 3];
   }
 
-- 
2.43.0


From 58ea5fa5ba076f3d12a7e0230c742d7b1704543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 090/134] fix: sequential ordering of distributed graphs leaves
 non-root processes with invalid orderings

---
 src/libscotch/hdgraph_order_sq.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libscotch/hdgraph_order_sq.c b/src/libscotch/hdgraph_order_sq.c
index a5540d4..0fc538c 100644
--- a/src/libscotch/hdgraph_order_sq.c
+++ b/src/libscotch/hdgraph_order_sq.c
@@ -98,6 +98,14 @@ const HdgraphOrderSqParam * restrict const  paraptr)
     o = hdgraphOrderSq2 (&cgrfdat, cblkptr, paraptr->ordstratseq);
     hgraphFree (&cgrfdat);
   }
+  else {                                          /* Other processes have empty fragments of the leaf */
+    cblkptr->typeval              = DORDERCBLKLEAF;
+    cblkptr->data.leaf.ordelocval = cblkptr->ordeglbval + cblkptr->vnodglbnbr;
+    cblkptr->data.leaf.vnodlocnbr = 0;
+    cblkptr->data.leaf.periloctab = NULL;
+    cblkptr->data.leaf.nodelocnbr = 0;
+    cblkptr->data.leaf.nodeloctab = NULL;
+  }
 
   return (o);
 }
-- 
2.43.0


From 378684b84bc93dd0b199cc7fd205ac59e8cb76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 091/134] fix: distributed ordering cannot be computed again on
 the same structure

---
 src/libscotch/dorder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder.c b/src/libscotch/dorder.c
index f7f8afb..36735d4 100644
--- a/src/libscotch/dorder.c
+++ b/src/libscotch/dorder.c
@@ -136,7 +136,8 @@ Dorder * restrict const     ordeptr)
     dorderFreeCblk (cblkptr);
   }
 
-  ordeptr->linkdat.nextptr =                      /* Loop double-chained list */
+  ordeptr->cblklocnbr      = 0;                   /* No more locally-rooted column blocks */
+  ordeptr->linkdat.nextptr =                      /* Loop double-chained list             */
   ordeptr->linkdat.prevptr = &ordeptr->linkdat;
 }
 
-- 
2.43.0


From 2af19b6bf00546a3cdb49d9dabef962a41e536c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 092/134] fix: saving distributed mappings of labelled graphs
 of base 1 overflows, unused global numbers break it

---
 src/libscotch/dmapping_io.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dmapping_io.c b/src/libscotch/dmapping_io.c
index e3e425b..b86700d 100644
--- a/src/libscotch/dmapping_io.c
+++ b/src/libscotch/dmapping_io.c
@@ -69,6 +69,26 @@
 
 DGRAPHALLREDUCEMAXSUMOP (1, 5)
 
+/* This routine turns the global number of a vertex,
+** which may comprise holes, into its based rank
+** among all of the vertices of the graph.
+** It returns:
+** - the based rank of the vertex : in all cases.
+*/
+
+static
+Gnum
+dmapSaveVnum (
+const Dgraph * restrict const   grafptr,
+const Gnum                      vnumnum)
+{
+  int                 procnum;
+
+  for (procnum = 0; grafptr->procvrttab[procnum + 1] <= vnumnum; procnum ++) ; /* Find process which holds vertex */
+
+  return (grafptr->procdsptab[procnum] + (vnumnum - grafptr->procvrttab[procnum]));
+}
+
 /* This routine saves a distributed mapping.
 ** The distributed graph structure is provided
 ** to access the distribution of vertex labels,
@@ -168,7 +188,7 @@ FILE * restrict const           stream)
 
   if (grafptr->vlblloctax != NULL) {
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltax - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dmapSave: communication error (3)");
       return     (1);
     }
@@ -189,11 +209,12 @@ FILE * restrict const           stream)
 
         vnumnum = fragptr->vnumtab[fraglocnum];
 #ifdef SCOTCH_DEBUG_DMAP2
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < 0) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (2)");
           return     (1);
         }
 #endif /* SCOTCH_DEBUG_DMAP2 */
+        vnumnum = dmapSaveVnum (grafptr, vnumnum);
         termnum = archDomNum (&dmapptr->archdat, &fragptr->domntab[fragptr->parttab[fraglocnum]]);
 
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
@@ -224,8 +245,12 @@ FILE * restrict const           stream)
       vnumrcvptr = termrcvtab + vertrcvnbr;       /* Vertex index array is just after terminal number array */
 
       for (termrcvptr = termrcvtab, termrcvnnd = termrcvtab + vertrcvnbr; termrcvptr < termrcvnnd; termrcvptr ++, vnumrcvptr ++) {
+        Gnum                  vnumnum;
+
+        vnumnum = dmapSaveVnum (grafptr, *vnumrcvptr);
+
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
-                     (Gnum) ((grafptr->vlblloctax != NULL) ? vlbltax[*vnumrcvptr] : *vnumrcvptr),
+                     (Gnum) ((grafptr->vlblloctax != NULL) ? vlbltax[vnumnum] : vnumnum),
                      (Gnum) *termrcvptr) == EOF) {
           errorPrint ("dmapSave: bad output (3)");
           reduloctab[0] = 1;
@@ -247,7 +272,7 @@ FILE * restrict const           stream)
         Gnum                vnumnum;
 
         vnumnum = fragptr->vnumtab[fraglocnum];
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < 0) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (3)");
           return     (1);
         }
-- 
2.43.0


From 6ac1866cab0061de8c0cd11e8905f7a13dffbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 093/134] fix: distributed mapping crashes when a
 bipartitioning strategy leaves all vertices in part 0 with base 1

---
 src/libscotch/kdgraph_map_rb_part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index c60c710..03a6304 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -254,7 +254,8 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
 
   if ((indflagtab[0] | indflagtab[1]) == 0) {     /* If both subjobs stop    */
     fldgrafptr->procnbr = 0;                      /* Nothing to do on return */
-    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, actgrafptr->partgsttax + actgrafptr->s.baseval)); /* Map both subdomains in the same time */
+    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, /* Map both subdomains in the same time */
+                                 (actgrafptr->partgsttax != NULL) ? actgrafptr->partgsttax + actgrafptr->s.baseval : NULL));
   }
 
   if ((2 * actgrafptr->compglbsize0) >= actgrafptr->s.vertglbnbr) { /* Get part of largest subgraph */
-- 
2.43.0


From 1f2e73c41b71511a7a86038c621a4bc9538fd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 094/134] fix: consistency check refuses band graphs when
 target domains have different weights

---
 src/libscotch/bgraph_check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bgraph_check.c b/src/libscotch/bgraph_check.c
index 64aa111..f39f197 100644
--- a/src/libscotch/bgraph_check.c
+++ b/src/libscotch/bgraph_check.c
@@ -95,8 +95,8 @@ const Bgraph * restrict const grafptr)
   const GraphPart * restrict const  parttax = grafptr->parttax;
   const Gnum * restrict const       frontab = grafptr->frontab;
 
-  if (grafptr->compload0avg != (Gnum) (((double) (grafptr->s.velosum + grafptr->vfixload[0] + grafptr->vfixload[1]) * (double) grafptr->domnwght[0]) /
-                                       (double) (grafptr->domnwght[0] + grafptr->domnwght[1])) - grafptr->vfixload[0]) {
+  if (((grafptr->compload0avg + grafptr->vfixload[0]) < 0) || /* Average of band graphs is tilted with respect to domain weights */
+      ((grafptr->compload0avg + grafptr->vfixload[0]) > (grafptr->s.velosum + grafptr->vfixload[0] + grafptr->vfixload[1]))) {
     errorPrint ("bgraphCheck: invalid average load");
     return (1);
   }
-- 
2.43.0


From ac39c5ca6c28cf807be7350221097fd9805d7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 095/134] fix: edge number in header of 8-neighbor tori wrong
 when a dimension is smaller than 3

---
 src/scotch/gmk_m2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gmk_m2.c b/src/scotch/gmk_m2.c
index c088341..c6f3537 100644
--- a/src/scotch/gmk_m2.c
+++ b/src/scotch/gmk_m2.c
@@ -196,7 +196,7 @@ char *                      argv[])
 
   if ((flagval & C_FLAGTORUS) != 0) {             /* Build a torus           */
     edgenbr = ((flagval & C_FLAGELEM) != 0)       /* Compute number of edges */
-              ? (8 * (d[0] * d[1]) - ((d[0] < 3) ? (6 * d[1]) : 0) - ((d[1] < 3) ? (6 * d[0]) : 0))
+              ? ((d[0] * d[1]) * (((d[0] < 3) ? d[0] : 3) * ((d[1] < 3) ? d[1] : 3) - 1))
               : (4 * (d[0] * d[1]) - ((d[0] < 3) ? (2 * d[1]) : 0) - ((d[1] < 3) ? (2 * d[0]) : 0));
 
     fprintf (C_filepntrsrcout, "0\n" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\n" SCOTCH_NUMSTRING "\t000\n",
-- 
2.43.0


From b64db8806d4d5af7dfada2d4d17733bd2aa4490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 096/134] fix: amk_ccc announces too small a biggest terminal
 number from dimension 7 on

---
 src/scotch/amk_ccc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/scotch/amk_ccc.c b/src/scotch/amk_ccc.c
index b78724e..9960194 100644
--- a/src/scotch/amk_ccc.c
+++ b/src/scotch/amk_ccc.c
@@ -156,10 +156,22 @@ char *                      argv[])
 
   ccnbr = ccdim * (1 << ccdim);                   /* Compute number of vertices           */
   ccbit = (1 << ccdim) - 1;                       /* Get maximum position number          */
-  for (ccmax = ((1 << (ccdim + 1)) - 1), i = ccdim - 1; /* Compute biggest terminal value */
-       i != 0;
-       i >>= 1)
-    ccmax = (ccmax << 1) | (i & 1);
+  for (ccmax = 0, v.lvl = 0; v.lvl < ccdim; v.lvl ++) { /* Compute biggest terminal value */
+    t = (1 << (ccdim + 1)) - 1;                   /* Biggest hypercube position           */
+    for (i = v.lvl, j = ccdim; j != 1; ) {        /* Perform the cycle cuts               */
+      t <<= 1;
+      k = (j + 1) >> 1;
+      if (i >= k) {                               /* If upper (smallest) half */
+        t |= 1;
+        i -= k;
+        j -= k;
+      }
+      else                                        /* If lower (biggest) half */
+        j = k;
+    }
+    if (t > ccmax)
+      ccmax = t;
+  }
 
   fprintf (C_filepntrarcout, "deco\n0\n" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\n", /* Print the file header */
            (SCOTCH_Num) ccnbr,                    /* Print number of terminal domains */
-- 
2.43.0


From 36dd6b8dba979d3dfcebfabda0ac54ad7ea9ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 097/134] fix: amk_grf does not un-base labelled vertex lists
 nor range-check unlabelled ones

---
 src/scotch/amk_grf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scotch/amk_grf.c b/src/scotch/amk_grf.c
index f4cf2a2..34b0df5 100644
--- a/src/scotch/amk_grf.c
+++ b/src/scotch/amk_grf.c
@@ -204,7 +204,7 @@ char *                      argv[])
 
       for (vertnum = 0; vertnum < vertnbr; vertnum ++) { /* Initialize sort area */
         sorttab[vertnum].vlblnum = vlbltab[vertnum];
-        sorttab[vertnum].vertnum = vertnum;
+        sorttab[vertnum].vertnum = vertnum + baseval;
       }
       intSort2asc1 (sorttab, vertnbr);            /* Sort by ascending labels */
 
@@ -219,6 +219,9 @@ char *                      argv[])
       }
       memFree (sorttab);                          /* Free sort area */
     }
+    else if ((listnbr > 0) &&                     /* Else labels are based vertex indices; check sorted list bounds */
+             ((listtab[0] < baseval) || (listtab[listnbr - 1] >= (vertnbr + baseval))))
+      errorPrint ("main: list label '" SCOTCH_NUMSTRING "' not in graph", (SCOTCH_Num) ((listtab[0] < baseval) ? listtab[0] : listtab[listnbr - 1]));
   }
 
   SCOTCH_archInit  (&archdat);                    /* Initialize target architecture */
-- 
2.43.0


From 0dfc39309266913a0447a2e8d3f7e5ab79d55265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 098/134] fix: gcv and mcv check output formats against the
 input format table

---
 src/scotch/gcv.c | 2 +-
 src/scotch/mcv.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scotch/gcv.c b/src/scotch/gcv.c
index 0618e44..d135660 100644
--- a/src/scotch/gcv.c
+++ b/src/scotch/gcv.c
@@ -184,7 +184,7 @@ char *                      argv[])
               break;
             }
           }
-          if (C_inpFormatTab[j].code == '\0')
+          if (C_outFormatTab[j].code == '\0')
             errorPrint ("main: unprocessed option '%s'", argv[i]);
           break;
         case 'V' :
diff --git a/src/scotch/mcv.c b/src/scotch/mcv.c
index dda38e6..e9105b1 100644
--- a/src/scotch/mcv.c
+++ b/src/scotch/mcv.c
@@ -157,7 +157,7 @@ char *                      argv[])
               break;
             }
           }
-          if (C_inpFormatTab[j].code == '\0')
+          if (C_outFormatTab[j].code == '\0')
             errorPrint ("main: unprocessed option '%s'", argv[i]);
           break;
         case 'V' :
-- 
2.43.0


From f23da8b7801428bffb7eb4e00cf8f3261cc150c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 099/134] fix: documented option -t of mord is refused

---
 src/scotch/mord.c | 9 +++++++++
 src/scotch/mord.h | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scotch/mord.c b/src/scotch/mord.c
index 2f621dc..c29ce87 100644
--- a/src/scotch/mord.c
+++ b/src/scotch/mord.c
@@ -71,6 +71,7 @@ static File                 C_fileTab[C_FILENBR] = { /* File array
                               { FILEMODER },
                               { FILEMODEW },
                               { FILEMODEW },
+                              { FILEMODEW },
                               { FILEMODEW } };
 
 static const char *         C_usageList[] = {
@@ -179,6 +180,12 @@ char *                      argv[])
           if ((SCOTCH_stratMeshOrder (&stradat, straptr)) != 0)
             errorPrint ("main: invalid ordering strategy");
           break;
+        case 'T' :                                /* Output separator tree */
+        case 't' :
+          flagval |= C_FLAGTREOUT;
+          if (argv[i][2] != '\0')
+            C_filenametreout = &argv[i][2];
+          break;
         case 'V' :
           fprintf (stderr, "mord, version " SCOTCH_VERSION_STRING "\n");
           fprintf (stderr, SCOTCH_COPYRIGHT_STRING "\n");
@@ -243,6 +250,8 @@ char *                      argv[])
   SCOTCH_meshOrderSave (&meshdat, &ordedat, C_filepntrordout); /* Write ordering     */
   if (flagval & C_FLAGMAPOUT)                     /* If mapping wanted               */
     SCOTCH_meshOrderSaveMap (&meshdat, &ordedat, C_filepntrmapout); /* Write mapping */
+  if (flagval & C_FLAGTREOUT)                     /* If separator tree wanted        */
+    SCOTCH_meshOrderSaveTree (&meshdat, &ordedat, C_filepntrtreout); /* Write tree   */
 
   clockStop  (&runtime[0]);                       /* Get output time */
 
diff --git a/src/scotch/mord.h b/src/scotch/mord.h
index 0449b4c..83ab7b2 100644
--- a/src/scotch/mord.h
+++ b/src/scotch/mord.h
@@ -52,18 +52,20 @@
 
 /*+ File name aliases. +*/
 
-#define C_FILENBR                   4             /* Number of files in list                */
+#define C_FILENBR                   5             /* Number of files in list                */
 #define C_FILEARGNBR                3             /* Number of files which can be arguments */
 
 #define C_filenamesrcinp            fileBlockName (C_fileTab, 0) /* Source graph input file name */
 #define C_filenameordout            fileBlockName (C_fileTab, 1) /* Ordering output file name    */
 #define C_filenamelogout            fileBlockName (C_fileTab, 2) /* Log file name                */
 #define C_filenamemapout            fileBlockName (C_fileTab, 3) /* Separator mapping file name  */
+#define C_filenametreout            fileBlockName (C_fileTab, 4) /* Separator tree file name     */
 
 #define C_filepntrsrcinp            fileBlockFile (C_fileTab, 0) /* Source graph input file */
 #define C_filepntrordout            fileBlockFile (C_fileTab, 1) /* Ordering output file    */
 #define C_filepntrlogout            fileBlockFile (C_fileTab, 2) /* Log file                */
 #define C_filepntrmapout            fileBlockFile (C_fileTab, 3) /* Separator mapping file  */
+#define C_filepntrtreout            fileBlockFile (C_fileTab, 4) /* Separator tree file     */
 
 /*+ Process flags. +*/
 
@@ -71,3 +73,4 @@
 #define C_FLAGMAPOUT                0x0001        /* Output mapping data       */
 #define C_FLAGVERBSTR               0x0002        /* Output strategy string    */
 #define C_FLAGVERBTIM               0x0004        /* Output timing information */
+#define C_FLAGTREOUT                0x0008        /* Output tree data          */
-- 
2.43.0


From 6eeb29f1196261a50fcecd2713e26c10bbdb26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 100/134] fix: atst doubles the deviation of distances

---
 src/scotch/atst.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scotch/atst.c b/src/scotch/atst.c
index 32caa0e..61a753f 100644
--- a/src/scotch/atst.c
+++ b/src/scotch/atst.c
@@ -180,10 +180,7 @@ char *                      argv[])
   distdlt = 0.0L;
 
   for (ter0num = 0; ter0num < termnbr; ter0num ++) { /* For all pairs of terminal domains */
-    for (ter1num = 0; ter1num < termnbr; ter1num ++) {
-      if (ter1num == ter0num)
-	continue;
-
+    for (ter1num = ter0num + 1; ter1num < termnbr; ter1num ++) {
       distdlt += fabs ((double) SCOTCH_archDomDist (&archdat, &termtab[ter0num], &termtab[ter1num]) - distavg);
     }
   }
-- 
2.43.0


From 17d933974b1f1640097e2b1da957ef9a3354969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 101/134] fix: gout dereferences null pointer on unterminated
 option lists, un-bases one item past the end of the edge array

---
 src/scotch/gout_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scotch/gout_c.c b/src/scotch/gout_c.c
index b376707..96616be 100644
--- a/src/scotch/gout_c.c
+++ b/src/scotch/gout_c.c
@@ -213,7 +213,7 @@ char *                      argv[])
 
     for (vertnum = 0; vertnum <= grafdat.vertnbr; vertnum ++)
       grafdat.verttab[vertnum] -= grafdat.baseval;
-    for (edgenum = 0; edgenum <= grafdat.edgenbr; edgenum ++)
+    for (edgenum = 0; edgenum < grafdat.edgenbr; edgenum ++)
       grafdat.edgetab[edgenum] -= grafdat.baseval;
   }
 
@@ -695,8 +695,8 @@ char * const                string)              /* Pointer to the string to par
   if (*argbeg == '{') {                          /* If there are arguments            */
     argbeg ++;                                   /* Point to argument beginning       */
     do {                                         /* For all arguments                 */
-      argend = strpbrk (argbeg, ",}\0");         /* Search for the argument end       */
-      if (*argend == '\0')                       /* If there is no end delimiter      */
+      argend = strpbrk (argbeg, ",}");           /* Search for the argument end       */
+      if (argend == NULL)                        /* If there is no end delimiter      */
         return (3);                              /* Return the syntax error value     */
 
       arglen = ((argend - argbeg) < 127)         /* Get argument bounded length */
-- 
2.43.0


From c9da325c932a13ab65e93cd26f96dca560b7f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 102/134] fix: gout draws wrong edges and disks for based
 graphs in Tulip format

---
 src/scotch/gout_o.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/scotch/gout_o.c b/src/scotch/gout_o.c
index e9f790a..fd28010 100644
--- a/src/scotch/gout_o.c
+++ b/src/scotch/gout_o.c
@@ -816,7 +816,6 @@ FILE * const                stream)               /* Output stream
   char                pictimestr[64];
   double              color[3];                   /* Vertex color  */
   SCOTCH_Num          vertnum;
-  const SCOTCH_Num *  edgetax;
   SCOTCH_Num          edgeidx;
   char                c;
 
@@ -848,7 +847,6 @@ FILE * const                stream)               /* Output stream
   fprintf (stream, SCOTCH_NUMSTRING ")\n",
            (SCOTCH_Num) (vertnum + grafptr->baseval));
 
-  edgetax = grafptr->edgetab - grafptr->baseval;
   for (vertnum = 0, edgeidx = grafptr->baseval; vertnum < grafptr->vertnbr; vertnum ++) {
     SCOTCH_Num          edgenum;
     SCOTCH_Num          edgennd;
@@ -857,14 +855,14 @@ FILE * const                stream)               /* Output stream
          edgenum < edgennd; edgenum ++) {
       SCOTCH_Num          vertend;
 
-      vertend = edgetax[edgenum];
-      if (vertend <= vertnum)                     /* True even if baseval=1 and as vertnum unbased */
+      vertend = grafptr->edgetab[edgenum];
+      if (vertend <= vertnum)
         continue;
 
       fprintf (stream, "(edge " SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING ")\n",
                (SCOTCH_Num) (edgeidx ++),
                (SCOTCH_Num) (vertnum + grafptr->baseval),
-               (SCOTCH_Num) vertend);
+               (SCOTCH_Num) (vertend + grafptr->baseval));
     }
   }
 
@@ -903,7 +901,7 @@ FILE * const                stream)               /* Output stream
   if (O_outParam.TulMesh.disk == 'd') {           /* If disks wanted */
     const C_GeoVert *   geomtax;
 
-    geomtax = geomptr->verttab - grafptr->baseval;
+    geomtax = geomptr->verttab;                   /* Contents of graph arrays are un-based */
     fprintf (stream, "\n");
     c = '\n';
     for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
@@ -924,7 +922,7 @@ FILE * const                stream)               /* Output stream
         SCOTCH_Num          vertend;
         double              distval;
 
-        vertend = edgetax[edgenum];
+        vertend = grafptr->edgetab[edgenum];
         distval = (geomtax[vertend].x - vertpos.x) * (geomtax[vertend].x - vertpos.x) +
                   (geomtax[vertend].y - vertpos.y) * (geomtax[vertend].y - vertpos.y) +
                   (geomtax[vertend].z - vertpos.z) * (geomtax[vertend].z - vertpos.z);
-- 
2.43.0


From 463d5dfcf77404fb5db2969d5513ee2ca0883b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 103/134] fix: gmap and gpart overwrite the vertex migration
 cost file instead of reading it

---
 src/scotch/gmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gmap.c b/src/scotch/gmap.c
index edbd5e3..6472871 100644
--- a/src/scotch/gmap.c
+++ b/src/scotch/gmap.c
@@ -97,7 +97,7 @@ static File                 C_fileTab[C_FILENBR] = { /* File array
                               { FILEMODEW },
                               { FILEMODER },
                               { FILEMODER },
-                              { FILEMODEW } };
+                              { FILEMODER } };
 
 static const char *         C_usageList[] = {     /* Usage */
   "gmap [<input source file> [<input target file> [<output mapping file> [<output log file>]]]] <options>",
-- 
2.43.0


From 72c2062bba13d8f61bc6d71a89935b3dc2c06c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 104/134] fix: orderLoad takes sizes and permutations from the
 file without any check

---
 src/libscotch/order_io.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..500d9de 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -81,6 +81,7 @@ const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
   Gnum * restrict     permtab;
+  Gnum                vnodnbr;
   Gnum                vertnum;
 
   if (vlbltax != NULL) {
@@ -93,7 +94,8 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
+  if ((intLoad (stream, &vnodnbr) != 1) ||
+      (vnodnbr != ordeptr->vnodnbr)) {            /* If ordering does not fit the graph */
     errorPrint ("orderLoad: bad input (1)");
     memFree    (permtab);
     return     (1);
@@ -117,7 +119,21 @@ FILE * restrict const       stream)
     }
   }
 
-  orderPeri (permtab, ordeptr->baseval, ordeptr->vnodnbr, ordeptr->peritab, ordeptr->baseval); /* Compute inverse permutation */
+  for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) /* Mark all inverse permutation cells as unused */
+    ordeptr->peritab[vertnum] = ordeptr->baseval - 1;
+
+  for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) { /* Compute inverse permutation */
+    Gnum                permnum;
+
+    permnum = permtab[vertnum] - ordeptr->baseval;
+    if ((permnum < 0) || (permnum >= ordeptr->vnodnbr) || /* If not a permutation */
+        (ordeptr->peritab[permnum] != (ordeptr->baseval - 1))) {
+      errorPrint ("orderLoad: bad input (4)");
+      memFree    (permtab);
+      return     (1);
+    }
+    ordeptr->peritab[permnum] = vertnum + ordeptr->baseval;
+  }
 
   memFree (permtab);
   return  (0);
-- 
2.43.0


From 2b63096bed6bbbdd2b4cf85a5d0a43ae65a1ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 105/134] fix: the coordinates of a geometry file are loaded
 for the wrong vertices of based graphs and overflow their array

---
 src/libscotch/graph_io_scot.c | 13 ++++++++-----
 src/libscotch/mesh_io_scot.c  | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..cce7389 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -105,7 +105,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("graphGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (grafptr->vertnbr != coornbr)) {
+  if ((filesrcptr != NULL) && (grafptr->vertnbr > coornbr)) {
     errorPrint ("graphGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
@@ -113,8 +113,10 @@ const char * const          dataptr)              /* No use           */
   if (grafptr->vertnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL)) {
+  if (geomptr->geomtab != NULL)                   /* Discard previous geometry, which may be of another size */
+    memFree (geomptr->geomtab);
+  geomptr->dimnnbr = (int) dimnnbr;
+  if ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
@@ -180,9 +182,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vertsorttab, grafptr->vertnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++)
-      vertsorttab[vertnum].labl =
+    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
+      vertsorttab[vertnum].labl = vertnum + grafptr->baseval;
       vertsorttab[vertnum].num  = vertnum;
+    }
   }
 
   for (coornum = vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) { /* For all vertices in graph */
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..da8b7db 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -103,7 +103,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("meshGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (meshptr->vnodnbr != coornbr)) {
+  if ((filesrcptr != NULL) && (meshptr->vnodnbr > coornbr)) {
     errorPrint ("meshGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
@@ -111,8 +111,10 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vnodnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL)) {
+  if (geomptr->geomtab != NULL)                   /* Discard previous geometry, which may be of another size */
+    memFree (geomptr->geomtab);
+  geomptr->dimnnbr = (int) dimnnbr;
+  if ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("meshGeomLoadScot: out of memory (1)");
     return     (1);
   }
@@ -166,7 +168,7 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vlbltax != NULL) {                 /* If graph has vertex labels */
     vnodsortflag = 1;                             /* Assume graph data sorted   */
     for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
-      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->baseval];
+      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->vnodbas];
       vnodsorttab[vnodnum].num  = vnodnum;
       if ((vnodnum > 0) &&                        /* Check if graph data sorted */
           (vnodsorttab[vnodnum].labl < vnodsorttab[vnodnum - 1].labl))
@@ -176,9 +178,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vnodsorttab, meshptr->vnodnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++)
-      vnodsorttab[vnodnum].labl =
+    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
+      vnodsorttab[vnodnum].labl = vnodnum + meshptr->vnodbas;
       vnodsorttab[vnodnum].num  = vnodnum;
+    }
   }
 
   for (coornum = vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 31ae8d7c6f690b124311ca2a0989b03cd9f4e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 106/134] fix: the graph built to separate a mesh is never
 freed

---
 src/libscotch/vmesh_separate_gr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/vmesh_separate_gr.c b/src/libscotch/vmesh_separate_gr.c
index 735ba88..7e374e8 100644
--- a/src/libscotch/vmesh_separate_gr.c
+++ b/src/libscotch/vmesh_separate_gr.c
@@ -107,12 +107,14 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
 #ifdef SCOTCH_DEBUG_VMESH2
   if (vgraphCheck (&grafdat) != 0) {
     errorPrint ("vmeshSeparateGr: internal error (1)");
+    graphExit  (&grafdat.s);
     return (1);
   }
 #endif /* SCOTCH_DEBUG_VMESH2 */
 
   if (vgraphSeparateSt (&grafdat, paraptr->stratptr) != 0) {
     errorPrint ("vmeshSeparateGr: cannot separate graph");
+    graphExit  (&grafdat.s);
     return (1);
   }
 
@@ -126,6 +128,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   meshptr->ncmpsize[1] = grafdat.compsize[1];
   meshptr->fronnbr     = grafdat.fronnbr;
 
+  graphExit (&grafdat.s);                         /* Frontier and part arrays belong to the mesh */
+
   for (velmnum = meshptr->m.velmbas, ecmpsize1 = 0;
        velmnum < meshptr->m.velmnnd; velmnum ++) { /* Compute part of all elements */
     Gnum                              eelmnum;
-- 
2.43.0


From 520103cf9e7f32b8b19550df1e20aa31a8946e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 107/134] fix: loads of fixed vertices are counted in the wrong
 half when a domain is split

---
 src/libscotch/kgraph_map_rb.c | 61 +++++++++++------------------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..9067ff3 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -337,60 +337,36 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
 
   vflomax = vflonbr;
   if (archVar (archptr) == 0) {
-    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum < vflonnd; ) {
-      while (1) {
+    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum <= vflonnd; ) {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-        int                 o;
+      int                 o;
 
-        o =
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-        archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
-#ifdef SCOTCH_DEBUG_KGRAPH2
-        if (o != 0) {
-          errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
-          return;
-        }
+      o =
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-        if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
-          compload0 += vflotab[vflonum].veloval;  /* Fixed vertex belongs to first subdomain                                    */
-          if (++ vflonum > vflonnd)               /* If passed beyond the limit of the second subdomain                         */
-            goto quit;
-        }
-        else {
+      archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
-            return;
-          }
+      if (o != 0) {
+        errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
+        return;
+      }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
+        compload0 += vflotab[vflonum].veloval;    /* Fixed vertex belongs to first subdomain                                  */
+        vflonum ++;                               /* Keep slot in place                                                       */
+        continue;
       }
-      while (1) {
-        archDomTerm (archptr, &domndat, vflotab[vflonnd].termnum);
-        if (archDomIncl (archptr, &domnsubtab[1], &domndat) == 1) { /* If terminal vertex subdomain included in second subdomain */
-          compload1 += vflotab[vflonnd].veloval;  /* Fixed vertex belongs to second subdomain                                    */
-          if (-- vflonnd <= vflonum) {            /* If matched the location of a slot that also belongs to second subdomain     */
-            compload1 += vflotab[vflonnd].veloval; /* Add load of reached slot to second subdomain                               */
-            goto quit;
-          }
-        }
-        else {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[0], &domndat) != 1) { /* If terminal vertex subdomain not included in first subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (3)");
-            return;
-          }
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
+        errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
+        return;
       }
+#endif /* SCOTCH_DEBUG_KGRAPH2 */
+      compload1 += vflotab[vflonum].veloval;      /* Fixed vertex belongs to second subdomain */
 
       vflodat          = vflotab[vflonum];        /* Swap slots */
       vflotab[vflonum] = vflotab[vflonnd];
       vflotab[vflonnd] = vflodat;
-      compload0 += vflotab[vflonum ++].veloval;
-      compload1 += vflotab[vflonnd --].veloval;
+      vflonnd --;                                 /* One less slot to consider */
     }
   }
   else {                                          /* If variable-sized architecture, pseudo-terminals may not always be included */
@@ -430,7 +406,6 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
     }
   }
 
-quit:
   vflonbrtab[0] = vflonum;
   vflonbrtab[1] = vflomax - vflonum;
   vflowgttab[0] = compload0;
-- 
2.43.0


From 5b9a6547da688c10ea9f634232d0a84992b44182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 108/134] fix: every Harwell-Boeing mesh is refused because its
 load sum is not set

---
 src/libscotch/mesh_io_habo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index daa7853..46bf9de 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -183,6 +183,7 @@ const char * const          dataptr)              /* No use           */
   meshptr->vnodnbr = habvarnbr;
   meshptr->vnodbas = 1;
   meshptr->vnodnnd = meshptr->velmbas;
+  meshptr->velosum = habeltnbr;
   meshptr->vnlosum = habvarnbr;
 
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
-- 
2.43.0


From 228063e1b3d203d6294c2895a5dc33857408509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 109/134] fix: SCOTCH_archBuild0 does not free the induced
 graph of a one-vertex list and ignores errors

---
 src/libscotch/arch_build.c | 47 ++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index fcb8c83..cf93c74 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -95,11 +95,8 @@ ArchDecoBuildJob * const    jobtab)
 {
   ArchDecoBuildJob *      jobptr;
 
-  jobptr = jobtab;
-  do {
+  for (jobptr = jobtab; jobptr != NULL; jobptr = jobptr->joblink)
     graphExit (&jobptr->grafdat);
-    jobptr = jobptr->joblink;
-  } while (jobptr != NULL);
 }
 
 /********************************************/
@@ -149,6 +146,7 @@ Context * const             contptr)              /*+ Execution context
   GraphPart                         actpartval;   /* Part value to put to subjob                    */
   Gnum                              actpartnbr;   /* Size of part value to put to subjob            */
   Gnum                              termdomnum;
+  int                               o;
 
   const Gnum * restrict const tgtverttax = tgtgrafptr->verttax;
   const Gnum * restrict const tgtvendtax = tgtgrafptr->vendtax;
@@ -192,8 +190,15 @@ Context * const             contptr)              /*+ Execution context
   mappdat.domnnbr = 1;
 
   jobtab[0].domnum = 0;                           /* All vertices mapped to first domain  */
-  if ((tgtlistptr != NULL) && (tgtlistptr->vnumtab != NULL)) /* If vertex list given      */
-    graphInduceList (tgtgrafptr, tgtlistptr->vnumnbr, tgtlistptr->vnumtab, &jobtab[0].grafdat); /* Restrict initial job */
+  if ((tgtlistptr != NULL) && (tgtlistptr->vnumtab != NULL)) { /* If vertex list given    */
+    if (graphInduceList (tgtgrafptr, tgtlistptr->vnumnbr, tgtlistptr->vnumtab, &jobtab[0].grafdat) != 0) { /* Restrict initial job */
+      errorPrint ("archDecoBuild: cannot induce initial graph");
+      archExit (&archdat);
+      mapExit  (&mappdat);
+      memFree  (jobtab);
+      return   (1);
+    }
+  }
   else {                                          /* If no vertex list given              */
     memCpy (&jobtab[0].grafdat, tgtgrafptr, sizeof (Graph)); /* Job takes whole graph     */
     jobtab[0].grafdat.flagval &= ~GRAPHFREETABS;  /* Graph is a clone                     */
@@ -215,6 +220,8 @@ Context * const             contptr)              /*+ Execution context
     jobtab[0].joblink = joblink;                  /* Add initial job to list        */
     joblink = &jobtab[0];
   }
+  else
+    graphExit (&jobtab[0].grafdat);               /* Free graph if it has been induced */
   while (joblink != NULL) {                       /* For all jobs in list */
     joborgptr          = joblink;                 /* Get job              */
     joblink            = joblink->joblink;        /* Remove job from list */
@@ -273,14 +280,30 @@ Context * const             contptr)              /*+ Execution context
     actgrafdat.s.flagval = joborgptr->grafdat.flagval; /* Active is now main copy */
 
     if (actpartnbr < (actgrafdat.s.vertnbr - 1)) { /* If part 1 splittable */
-      graphInducePart (&actgrafdat.s, actgrafdat.parttax, actgrafdat.s.vertnbr - actpartnbr,
-                       1 - actpartval, &jobsubptr->grafdat);
+      if (graphInducePart (&actgrafdat.s, actgrafdat.parttax, actgrafdat.s.vertnbr - actpartnbr,
+                           1 - actpartval, &jobsubptr->grafdat) != 0) {
+        errorPrint ("archDecoBuild: cannot induce subgraph (1)");
+        graphExit  (&actgrafdat.s);
+        archDecoBuildJobExit (joblink);
+        archExit (&archdat);
+        mapExit  (&mappdat);
+        memFree  (jobtab);
+        return   (1);
+      }
       jobsubptr->joblink = joblink;               /* Link subjobs in list */
       joblink            = jobsubptr;
     }
     if (actpartnbr > 1) {                         /* If part 0 splittable */
-      graphInducePart (&actgrafdat.s, actgrafdat.parttax, actpartnbr,
-                       actpartval, &joborgptr->grafdat);
+      if (graphInducePart (&actgrafdat.s, actgrafdat.parttax, actpartnbr,
+                           actpartval, &joborgptr->grafdat) != 0) {
+        errorPrint ("archDecoBuild: cannot induce subgraph (2)");
+        graphExit  (&actgrafdat.s);
+        archDecoBuildJobExit (joblink);
+        archExit (&archdat);
+        mapExit  (&mappdat);
+        memFree  (jobtab);
+        return   (1);
+      }
       joborgptr->joblink = joblink;               /* Link subjobs in list */
       joblink            = joborgptr;
     }
@@ -362,11 +385,11 @@ Context * const             contptr)              /*+ Execution context
         disttax[termverttab[termdomend].labl].distval;
   }
 
-  archDecoArchBuild2 ((ArchDeco *) (void *) &tgtarchptr->data, termdomnbr, termdommax, termverttab, termdisttab);
+  o = archDecoArchBuild2 ((ArchDeco *) (void *) &tgtarchptr->data, termdomnbr, termdommax, termverttab, termdisttab);
 
   memFree  (termverttab);                         /* Free group leader */
   mapExit  (&mappdat);
   archExit (&archdat);
 
-  return (0);
+  return (o);
 }
-- 
2.43.0


From b4f059231112fa756c22bf7939f0c8b3ccf595c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 110/134] fix: running out of memory while scanning a strategy
 string exits the program

---
 src/libscotch/parser_ll.h |  2 ++
 src/libscotch/parser_ll.l | 28 ++++++++++++++++++++++++++++
 src/libscotch/parser_yy.y | 32 ++++++++++++++++++++++++++++----
 3 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/parser_ll.h b/src/libscotch/parser_ll.h
index b5ca83e..6df32ef 100644
--- a/src/libscotch/parser_ll.h
+++ b/src/libscotch/parser_ll.h
@@ -59,6 +59,8 @@
 */
 
 int                         scotchyylex_init    (yyscan_t *);
+void *                      scotchyyget_extra   (yyscan_t);
+void                        scotchyyset_extra   (void *, yyscan_t);
 int                         scotchyylex         (YYSTYPE *, YYLTYPE *, yyscan_t);
 void                        scotchyy_delete_buffer (YY_BUFFER_STATE, yyscan_t);
 void                        scotchyy_switch_to_buffer (YY_BUFFER_STATE, yyscan_t);
diff --git a/src/libscotch/parser_ll.l b/src/libscotch/parser_ll.l
index d655669..103ad16 100644
--- a/src/libscotch/parser_ll.l
+++ b/src/libscotch/parser_ll.l
@@ -84,14 +84,19 @@
 #include "parser_ly.h"                            /*+ Definitions produced by yacc +*/
 #include "parser_ll.h"
 
+#include <setjmp.h>
+
 #define YY_DECL                     int yylex (YYSTYPE * yylval_param, YYLTYPE * yylloc, yyscan_t yyscanner)
 
+#define YY_FATAL_ERROR(msg)         longjmp (*((jmp_buf *) scotchyyget_extra (yyscanner)), 1) /* Give control back to stratParserParse() */
+
 #define YY_USER_ACTION              parserLocationUpdate (yylloc, yytext);
 %}
 
 %option bison-bridge
 %option noinput
 %option nounput
+%option noyyrealloc
 %option noyywrap
 %option reentrant
 
@@ -211,3 +216,26 @@ unsigned int      type)
       break;
   }
 }
+
+/* This routine replaces the reallocation
+** routine of the lexical analyzer, which
+** overwrites its pointer to the old block
+** even when the latter cannot be resized.
+** It returns:
+** - !NULL  : pointer to resized block.
+** - NULL   : on error; old block is freed.
+*/
+
+void *
+scotchyyrealloc (
+void *            blckptr,
+size_t            sizeval,
+yyscan_t          yyscanner)
+{
+  void *            newbptr;
+
+  if ((newbptr = realloc (blckptr, sizeval)) == NULL)
+    free (blckptr);
+
+  return (newbptr);
+}
diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index 0c3153e..c2fd9dc 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -86,6 +86,8 @@ typedef void * YY_BUFFER_STATE;                   /* The same; Flex and Bison de
 #include "parser_ly.h"
 #include "parser_ll.h"
 
+#include <setjmp.h>
+
 #ifdef SCOTCH_DEBUG_PARSER3
 #define YYDEBUG                     1
 #endif /* SCOTCH_DEBUG_PARSER3 */
@@ -101,7 +103,7 @@ extern unsigned int         parsermethtokentab[];  /* Pre-definition */
 
 /*+ Function prototypes that should have been exported by Flex. +*/
 
-YY_BUFFER_STATE scotchyy_scan_string (const char *, yyscan_t);
+YY_BUFFER_STATE scotchyy_scan_buffer (char *, size_t, yyscan_t);
 
 %}
 
@@ -839,25 +841,47 @@ const StratTab * const      stratab,              /*+ Pointer to parsing tables
 const char * const          textptr)              /*+ Strategy string to parse  +*/
 {
   YY_BUFFER_STATE     buffdat;
+  char *              bufftab;                    /* Copy of string, ended by two null characters */
+  size_t              bufflen;
   ParserEnv           penvdat;                    /* Parser environment    */
   yyscan_t            scandat;                    /* Pointer to lex memory */
+  jmp_buf             jumpdat;                    /* Return point for fatal errors of the lexical parser */
   int                 o;
 
   penvdat.stratab = stratab;                      /* Point to the parsing tables             */
   penvdat.straptr = NULL;                         /* Clear up the temporary strategy pointer */
   penvdat.textptr = textptr;                      /* Initialize the lexical parser           */
 
+  bufflen = strlen (textptr);
+  if ((bufftab = (char *) memAlloc (bufflen + 2)) == NULL) {
+    errorPrint ("stratParserParse: out of memory");
+    return     (NULL);
+  }
+  memCpy (bufftab, textptr, bufflen);
+  bufftab[bufflen]     =
+  bufftab[bufflen + 1] = '\0';
+
   if (scotchyylex_init (&scandat) != 0) {
     errorPrint ("stratParserParse: cannot initialize reentrant parser");
+    memFree    (bufftab);
+    return     (NULL);
+  }
+  scotchyyset_extra (&jumpdat, scandat);
+  if (setjmp (jumpdat) != 0) {                    /* Flex ran out of memory before parsing started */
+    errorPrint ("stratParserParse: cannot initialize lexical parser");
+    scotchyylex_destroy (scandat);
+    memFree    (bufftab);
     return     (NULL);
   }
-  buffdat = scotchyy_scan_string (textptr, scandat); /* Let's hope nothing breaks; error management in flex is just crap */
-  scotchyy_switch_to_buffer (buffdat, scandat);
+  scotchyy_switch_to_buffer (NULL, scandat);      /* Allocate buffer stack first, so that no buffer can be lost           */
+  scotchyy_switch_to_buffer (NULL, scandat);      /* Second call grows buffer stack to the size required by further calls */
+  buffdat = scotchyy_scan_buffer (bufftab, bufflen + 2, scandat);
 
-  o = yyparse (scandat, &penvdat);                /* Parse the strategy string */
+  o = yyparse (scandat, &penvdat);                /* Parse the strategy string; reading from a memory buffer never allocates memory */
 
   scotchyy_delete_buffer (buffdat, scandat);
   scotchyylex_destroy (scandat);
+  memFree (bufftab);
 
   if (o != 0) {
     if (penvdat.straptr != NULL)
-- 
2.43.0


From c90b3e211ea8858ea5490a860c8c34ba12cd3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 111/134] fix: a failed graph load, coarsening or compression
 frees memory twice or not at all

---
 src/libscotch/graph_coarsen.c   | 24 +++++++++++++++++++++---
 src/libscotch/graph_io.c        |  6 +++---
 src/libscotch/hgraph_order_cp.c |  5 +++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index a96589b..acb7042 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -257,6 +257,7 @@ GraphCoarsenData * restrict const coarptr)
       errorPrint ("graphCoarsen3: out of memory (1)");
       if (coargrafptr->verttax != NULL)
         memFree (coargrafptr->verttax);
+      memSet (coargrafptr, 0, sizeof (Graph));    /* Arrays were not based; nothing more to free */
       coarptr->retuval = 2;
 #ifdef GRAPHCOARSENNOTHREAD
 #ifdef SCOTCH_PTHREAD
@@ -372,6 +373,7 @@ GraphCoarsenData * restrict const coarptr)
     errorPrint ("graphCoarsen3: out of memory (2)");
     coarptr->retuval = 2;                         /* No problem if concurrent writes */
 #ifdef GRAPHCOARSENNOTHREAD
+    graphFree (coargrafptr);                      /* Coarse graph will not be built */
 #ifdef SCOTCH_PTHREAD
     threadBarrier (descptr);                      /* End-of-routine synchronization barrier */
 #endif /* SCOTCH_PTHREAD */
@@ -385,8 +387,13 @@ GraphCoarsenData * restrict const coarptr)
   if (thrdnbr > 1) {                              /* If more than one thread                                      */
     threadBarrier (descptr);                      /* Ensure all of finecoartax has been written (or memory error) */
 
-    if (coarptr->retuval != 0)                    /* After barrier, in case memory allocation failed */
+    if (coarptr->retuval != 0) {                  /* After barrier, in case memory allocation failed */
+      if (thrdptr->coarhashtab != NULL)           /* If local allocation did not fail                */
+        memFree (thrdptr->coarhashtab);
+      if (thrdnum == 0)                           /* Coarse graph will not be built */
+        graphFree (coargrafptr);
       return;
+    }
 
     if ((coarptr->flagval & GRAPHCOARSENNOCOMPACT) != 0) { /* If willing to have faster a non-compact graph */
       Gnum                coarvertnnd;
@@ -435,8 +442,10 @@ GraphCoarsenData * restrict const coarptr)
 #endif /* GRAPHCOARSENNOTHREAD */
   {
 #ifndef GRAPHCOARSENNOTHREAD
-    if (coarptr->retuval != 0)                    /* In case memory allocation failed */
+    if (coarptr->retuval != 0) {                  /* In case memory allocation failed */
+      graphFree (coargrafptr);                    /* Coarse graph will not be built   */
       return;
+    }
 #endif /* GRAPHCOARSENNOTHREAD */
 
     thrdptr->coaredgebas = baseval;               /* Start from the beginning */
@@ -526,8 +535,11 @@ GraphCoarsenData * restrict const     coarptr)
     coarptr->flagval &= ~GRAPHCOARSENNOCOMPACT;   /* Non-compact graphs always imply more than one thread */
 
   if ((coarptr->flagval & GRAPHCOARSENUSEMATE) == 0) { /* If mating array not provided          */
-    if (graphMatchInit (coarptr, thrdnbr) != 0)   /* Initialize global data needed for matching */
+    if (graphMatchInit (coarptr, thrdnbr) != 0) { /* Initialize global data needed for matching */
+      if (finematetab != NULL)
+        memFree (finematetab);
       return (2);
+    }
   }
 
   if (coarptr->coarmulttab != NULL)               /* Record that multinode array was provided */
@@ -545,6 +557,12 @@ GraphCoarsenData * restrict const     coarptr)
 
   memFree (coarptr->thrdtab);
 
+  if (coarptr->retuval == 2) {                    /* If error, release all that has been allocated */
+    if (finematetab != NULL)
+      memFree (finematetab);
+    return (2);
+  }
+
   if ((coarptr->flagval & GRAPHCOARSENDSTMATE) == 0) /* If mating array destination not provided */
     memFree (finematetab);                        /* Do not keep mating data array               */
 
diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..63811fb 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -165,10 +165,10 @@ const GraphFlag             flagval)              /* Graph loading flags
       (memAllocGroup ((void **) (void *)
                       &grafptr->edgetax, (size_t) (grafptr->edgenbr       * sizeof (Gnum)),
                       &grafptr->edlotax, (size_t) (edlosiz                * sizeof (Gnum)), NULL) == NULL)) {
-    if (grafptr->verttax != NULL)
-      memFree (grafptr->verttax);
     errorPrint ("graphLoad: out of memory");
-    graphFree  (grafptr);
+    if (grafptr->verttax != NULL)                 /* Arrays are not based yet */
+      memFree (grafptr->verttax);
+    memSet (grafptr, 0, sizeof (Graph));          /* Nothing more to be freed */
     return (1);
   }
   grafptr->vertnnd  = grafptr->vertnbr + grafptr->baseval;
diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index c322c16..c86f997 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -296,7 +296,6 @@ loop_failed: ;
   for ( ; finevertnum < finegrafptr->s.vertnnd; finevertnum ++) /* For all halo vertices */
     finecoartax[finevertnum] = coarvertnbr ++;    /* Halo vertices are never compressed  */
 
-  coargrafdat.s.flagval = GRAPHFREETABS | GRAPHVERTGROUP; /* Do not set HGRAPHFREEVNHD since vnhdtax allocated in group */
   coargrafdat.s.vertnbr = coarvertnbr - coargrafdat.s.baseval;
   coargrafdat.s.vertnnd = coarvertnbr;
   coargrafdat.s.velosum = finegrafptr->s.velosum;
@@ -313,14 +312,16 @@ loop_failed: ;
                                 &coarvsiztax,           (size_t) (coarvsizsiz       * sizeof (Gnum)), NULL)) != NULL) {
     dataptr               =
     coargrafdat.s.edgetax = (Gnum *) memAlloc (coaredgenbr * sizeof (Gnum));
+    if (dataptr == NULL)
+      memFree (coargrafdat.s.verttax);            /* Arrays are not based yet */
   }
   if (dataptr == NULL) {
     errorPrint ("hgraphOrderCp: out of memory (2)");
-    hgraphExit (&coargrafdat);
     memFree    (finehashtab);
     memFree    (finecoartax + finegrafptr->s.baseval);
     return (1);
   }
+  coargrafdat.s.flagval  = GRAPHFREETABS | GRAPHVERTGROUP; /* Do not set HGRAPHFREEVNHD since vnhdtax allocated in group */
   coargrafdat.s.verttax -= coargrafdat.s.baseval;
   coargrafdat.s.vendtax  = coargrafdat.s.verttax + 1; /* Use compact representation of arrays */
   coargrafdat.s.velotax -= coargrafdat.s.baseval;
-- 
2.43.0


From 20cad0e1f021ee3fadcbada030d2488be3824a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 112/134] fix: routines that cannot initialize their context or
 default strategy leak or crash

---
 src/libscotch/common_context.c         | 3 ++-
 src/libscotch/context.h                | 8 +++++---
 src/libscotch/library_arch_build.c     | 4 ++++
 src/libscotch/library_graph_map.c      | 7 +++++--
 src/libscotch/library_graph_map_view.c | 1 +
 src/libscotch/library_graph_order.c    | 7 +++++--
 src/libscotch/library_graph_part_ovl.c | 7 +++++--
 src/libscotch/library_mesh_order.c     | 7 +++++--
 8 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/libscotch/common_context.c b/src/libscotch/common_context.c
index 4e2837e..00cdff7 100644
--- a/src/libscotch/common_context.c
+++ b/src/libscotch/common_context.c
@@ -96,7 +96,8 @@ Context * const             contptr)
   }
   if (contptr->randptr != &intranddat)            /* If not global random generator */
     memFree (contptr->randptr);
-  if (contptr->valuptr != &valudat) {             /* If not global values array           */
+  if ((contptr->valuptr != NULL) &&               /* If values array has been initialized */
+      (contptr->valuptr != &valudat)) {           /* And is not global values array       */
     if (contptr->valuptr->dataptr != contptr->valuptr->dainptr) /* If modified data array */
       memFree (contptr->valuptr->dataptr);
     memFree (contptr->valuptr);
diff --git a/src/libscotch/context.h b/src/libscotch/context.h
index 5d3271f..c795389 100644
--- a/src/libscotch/context.h
+++ b/src/libscotch/context.h
@@ -113,9 +113,11 @@ int                         contextOptionsInit  (Context * const);
       0)                                        \
    : (c##_contptr = (void *) &c##_contdat,      \
       c##_cdatptr = (void *) (c),               \
-      contextInit        (&c##_contdat),        \
-      contextOptionsInit (&c##_contdat),        \
-      contextCommit      (&c##_contdat)))
+      contextInit (&c##_contdat),               \
+      (((contextOptionsInit (&c##_contdat) != 0) || \
+        (contextCommit      (&c##_contdat) != 0))   \
+       ? (contextExit (&c##_contdat), 1)            \
+       : 0)))
 
 #define CONTEXTGETDATA(c)           c##_contptr
 #define CONTEXTGETOBJECT(c)         c##_cdatptr
diff --git a/src/libscotch/library_arch_build.c b/src/libscotch/library_arch_build.c
index 88e5826..b9a82d7 100644
--- a/src/libscotch/library_arch_build.c
+++ b/src/libscotch/library_arch_build.c
@@ -157,6 +157,10 @@ const SCOTCH_Strat * const  stratptr)             /*+ Bipartitoning strategy
   if (*((Strat **) stratptr) == NULL)             /* Set default mapping strategy if necessary */
     *((Strat **) stratptr) = stratInit (&bgraphbipartststratab, "(m{vert=50,low=h{pass=10},asc=f{move=100,bal=0.1}}f{move=100,bal=0.05})(/((load0=load)|(load0=0))?x;)");
   bipstratptr = *((Strat **) stratptr);
+  if (bipstratptr == NULL) {
+    errorPrint (STRINGIFY (SCOTCH_archBuild0) ": cannot build default strategy");
+    return (1);
+  }
   if (bipstratptr->tablptr != &bgraphbipartststratab) {
     errorPrint (STRINGIFY (SCOTCH_archBuild0) ": not a bipartitioning strategy");
     return (1);
diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index b26afec..cd2f2f5 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -214,8 +214,11 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
 
   archDomFrst (lmapptr->archptr, &domnorg);       /* Compute initial domain to map to */
 
-  if (*((Strat **) straptr) == NULL)              /* Set default mapping strategy if necessary */
-    SCOTCH_stratGraphMapBuild (straptr, SCOTCH_STRATDEFAULT, archDomSize (lmapptr->archptr, &domnorg), 0.01);
+  if ((*((Strat **) straptr) == NULL) &&          /* Set default mapping strategy if necessary */
+      (SCOTCH_stratGraphMapBuild (straptr, SCOTCH_STRATDEFAULT, archDomSize (lmapptr->archptr, &domnorg), 0.01) != 0)) {
+    errorPrint ("graphMapCompute2: cannot build default strategy");
+    goto abort;
+  }
 
   mapstraptr = *((Strat **) straptr);
 #ifdef SCOTCH_DEBUG_LIBRARY1
diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index dacc200..94ae4c4 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -715,6 +715,7 @@ FILE * const                        stream)
                      &compsize, (size_t) (partnbr * sizeof (Gnum)),
                      &listtab,  (size_t) ((partnbr + 1) * sizeof (GraphMapViewList)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphPartOvlView) ": out of memory");
+    return (1);
   }
   listtab ++;                                     /* TRICK: Trim array so that listtab[-1] is valid */
   memSet (listtab, ~0, partnbr * sizeof (GraphMapViewList)); /* Set vertex indices to ~0            */
diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 0438f39..e8df22d 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -280,8 +280,11 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto build;
   }
 
-  if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
-    SCOTCH_stratGraphOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0, 0.2);
+  if ((*((Strat **) stratptr) == NULL) &&          /* Set default ordering strategy if necessary */
+      (SCOTCH_stratGraphOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0, 0.2) != 0)) {
+    errorPrint (STRINGIFY (SCOTCH_graphOrderComputeList) ": cannot build default strategy");
+    goto abort;
+  }
 
   ordstratptr = *((Strat **) stratptr);
   if (ordstratptr->tablptr != &hgraphorderststratab) {
diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index a034b58..7cc97ec 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -96,8 +96,11 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     return     (o);
   }
 
-  if (*((Strat **) straptr) == NULL)              /* Set default partitioning strategy if necessary */
-    SCOTCH_stratGraphPartOvlBuild (straptr, SCOTCH_STRATQUALITY, (Gnum) partnbr, (double) 0.05);
+  if ((*((Strat **) straptr) == NULL) &&          /* Set default partitioning strategy if necessary */
+      (SCOTCH_stratGraphPartOvlBuild (straptr, SCOTCH_STRATQUALITY, (Gnum) partnbr, (double) 0.05) != 0)) {
+    errorPrint (STRINGIFY (SCOTCH_graphPartOvl) ": cannot build default strategy");
+    goto abort;
+  }
 
   partstraptr = *((Strat **) straptr);
   if (partstraptr->tablptr != &wgraphpartststratab) {
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 7978953..21d0738 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -250,8 +250,11 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
 
-  if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
-    SCOTCH_stratMeshOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0.1);
+  if ((*((Strat **) stratptr) == NULL) &&          /* Set default ordering strategy if necessary */
+      (SCOTCH_stratMeshOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0.1) != 0)) {
+    errorPrint (STRINGIFY (SCOTCH_meshOrderComputeList) ": cannot build default strategy");
+    goto abort;
+  }
 
   ordstratptr = *((Strat **) stratptr);
   if (ordstratptr->tablptr != &hmeshorderststratab) {
-- 
2.43.0


From 5600e5d4d26fb2846209802a78d6ea1fa6a8db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 113/134] fix: an architecture that cannot be loaded or built
 is freed twice or leaks

---
 src/libscotch/arch.c        |  2 ++
 src/libscotch/arch_build2.c | 19 +++++++++++++------
 src/libscotch/arch_sub.c    | 23 ++++++++++++++---------
 src/libscotch/graph_clone.c |  4 +++-
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 7b57bf5..afc840d 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -194,6 +194,8 @@ FILE * const                stream)
   const ArchClass * restrict  clasptr;            /* Pointer to architecture class */
   char                        name[256];          /* Architecture name string      */
 
+  memSet (archptr, 0, sizeof (Arch));             /* Class freeing routines may be called on partially loaded data */
+
   if (fscanf (stream, "%255s", name) != 1) {      /* Read architecture name */
     errorPrint ("archLoad: cannot load architecture type");
     return (1);
diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 2698245..3285771 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -185,6 +185,7 @@ Context * const                       contptr)
     return (1);
   }
 
+  graphInit (&matcptr->levltab[0].grafdat);       /* In case of error */
   if (graphClone (grafptr, &matcptr->levltab[0].grafdat) != 0) { /* Clone original graph in level 0 */
     errorPrint ("archDeco2BuildMatchInit: cannot create clone graph");
     archDeco2BuildMatchExit (matcptr);
@@ -698,7 +699,7 @@ Context * const             contptr)              /*+ Execution context
 #endif /* SCOTCH_DEBUG_ARCH2 */
     if ((levlptr->wdiaval = graphDiamPV (&levlptr->grafdat, matcdat.contptr)) < 0) {
       errorPrint ("archDeco2ArchBuild: cannot compute graph diameter");
-      return     (1);
+      goto abort;
     }
     if (levlptr->wdiaval < 1)                     /* No division by zero allowed */
       levlptr->wdiaval = 1;
@@ -706,9 +707,7 @@ Context * const             contptr)              /*+ Execution context
 
   if ((vnumtmp = memAlloc (matcdat.vertsum * sizeof (Gnum))) == NULL) {
     errorPrint ("archDeco2ArchBuild: out of memory (4)");
-    archDeco2BuildMatchExit (&matcdat);
-    memFree (treetab - 1);
-    return  (1);
+    goto abort;
   }
   decoptr->vnumnbr = matcdat.vertsum;
   decoptr->vnumtab = vnumtmp;
@@ -720,8 +719,7 @@ Context * const             contptr)              /*+ Execution context
   datadat.vnumidx = 0;                            /* Vertex number index array is empty */
   if (archDeco2BuildBuild3 (&datadat, rootptr, 1, 0, matcdat.levlnum) != domnnbr) {
     errorPrint ("archDeco2ArchBuild: cannot create sub-architecture (2)");
-    memFree    (treetab - 1);
-    return     (1);
+    goto abort;
   }
   domntab[0].dfatidx = -1;                        /* Set index of root father as -1 */
 #ifdef SCOTCH_DEBUG_ARCH2
@@ -743,4 +741,13 @@ Context * const             contptr)              /*+ Execution context
   archDeco2BuildMatchExit (&matcdat);             /* Free data structures used for matching */
 
   return (0);
+
+abort:
+  for (treetab --; treetab != NULL; treetab = treetmp) { /* Free all tree blocks    */
+    treetmp = treetab[0].sonstab[0];              /* Get pointer to next tree block */
+    memFree (treetab);
+  }
+  archDeco2BuildMatchExit (&matcdat);             /* Other arrays will be freed along with architecture */
+
+  return (1);
 }
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 40e5ab9..a666c19 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -191,11 +191,14 @@ ArchSub * const             archptr)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((archArch (archptr)->flagval & ARCHFREE) != 0) { /* If sub-architecture needs to be freed too */
-    archFree (archptr->archptr);
-    memFree  (archptr->archptr);
+    if (archptr->archptr != NULL) {               /* If loading did not fail before    */
+      archFree (archptr->archptr);
+      memFree  (archptr->archptr);
+    }
   }
 
-  memFree (archptr->termtab);                     /* Free group leader */
+  if (archptr->termtab != NULL)
+    memFree (archptr->termtab);                   /* Free group leader */
 
   return (0);
 }
@@ -420,12 +423,6 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
 
   treetab ++;                                     /* TRICK: Hide first slot */
 
-  subarchptr->archptr = orgarchptr;
-  subarchptr->termnbr = vnumnbr;
-  subarchptr->termtab = termtab;
-  subarchptr->domnnbr = domnnbr;
-  subarchptr->domntab = domntab;
-
   for (orgtermnum = 0; orgtermnum < orgtermnbr; orgtermnum ++) { /* Initialize values for all vertices of original architecture */
     treetab[orgtermnum].domnsiz =
     treetab[orgtermnum].domnwgt = 0;
@@ -482,6 +479,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
   if (rootptr == NULL) {
     errorPrint ("archSubArchBuild: cannot create sub-architecture (1)");
     memFree    (treetab - 1);
+    memFree    (termtab);
     return (2);
   }
 #ifdef SCOTCH_DEBUG_ARCH2
@@ -494,10 +492,17 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
   if (archSubArchBuild3 (domntab, termtab, rootptr, 1, 0) != domnnbr) {
     errorPrint ("archSubArchBuild: cannot create sub-architecture (2)");
     memFree    (treetab - 1);
+    memFree    (termtab);
     return (2);
   }
   domntab[0].dfatidx = -1;                        /* Set index of root father as -1 */
 
+  subarchptr->archptr = orgarchptr;               /* Architecture can now be freed as a whole */
+  subarchptr->termnbr = vnumnbr;
+  subarchptr->termtab = termtab;
+  subarchptr->domnnbr = domnnbr;
+  subarchptr->domntab = domntab;
+
   for (treetab --; treetab != NULL; treetab = treetmp) { /* Free all tree blocks    */
     treetmp = treetab[0].sonstab[0];              /* Get pointer to next tree block */
     memFree (treetab);
diff --git a/src/libscotch/graph_clone.c b/src/libscotch/graph_clone.c
index fc2e123..208b655 100644
--- a/src/libscotch/graph_clone.c
+++ b/src/libscotch/graph_clone.c
@@ -161,7 +161,9 @@ Graph * restrict const          clngrafptr)
 
   if ((datatab = memAlloc (datasiz * sizeof (Gnum))) == NULL) {
     errorPrint ("graphClone: out of memory (2)");
-    memFree    (clngrafptr->verttax + baseval);   /* Free group leader */
+    memFree    (clngrafptr->verttax + baseval);   /* Free group leader          */
+    clngrafptr->verttax = NULL;                   /* Nothing to free afterwards */
+    clngrafptr->edgetax = NULL;
     return     (1);
   }
 
-- 
2.43.0


From 0ef67532a2c002506609f51cae7d59ba1aa81062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 114/134] fix: distances in deco 2 architectures are null when
 memory is missing, causing divisions by zero

---
 src/libscotch/arch_deco2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 89071d1..4e29048 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -585,7 +585,7 @@ const ArchDeco2Dom * const  dom1ptr)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
                      &disttax, (size_t) (vertnbr * sizeof (Anum)), NULL) == NULL) {
     errorPrint ("archDeco2DomDist: out of memory");
-    return     (0);                               /* Nothing to free because group allocation failed */
+    return     (1);                               /* Null distance between distinct domains would lead to divisions by zero */
   }
   baseval  = levlptr->grafdat.baseval;
   disttax -= baseval;
-- 
2.43.0


From ec2b278f1036b36ffa8e86b0632b8d8cbf0034ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 115/134] fix: graph mapping methods ignore errors of
 sub-routines or leak their data

---
 src/libscotch/bgraph_bipart_fm.c |  6 +--
 src/libscotch/hgraph_order_kp.c  | 10 ++++-
 src/libscotch/kgraph_band.c      |  8 +++-
 src/libscotch/kgraph_map_bd.c    |  2 +
 src/libscotch/kgraph_map_fm.c    | 72 ++++++++++++++++++++++----------
 src/libscotch/kgraph_map_ml.c    |  9 ++--
 src/libscotch/kgraph_map_rb.c    |  9 ++++
 7 files changed, 84 insertions(+), 32 deletions(-)

diff --git a/src/libscotch/bgraph_bipart_fm.c b/src/libscotch/bgraph_bipart_fm.c
index 170286c..7d1e90c 100644
--- a/src/libscotch/bgraph_bipart_fm.c
+++ b/src/libscotch/bgraph_bipart_fm.c
@@ -839,6 +839,9 @@ const BgraphBipartFmParam * const paraptr)        /*+ Method parameters +*/
   grafptr->commgainextn = commgainextn;
   grafptr->bbalval      = (double) ((grafptr->compload0dlt < 0) ? (- grafptr->compload0dlt) : grafptr->compload0dlt) / (double) grafptr->compload0avg;
 
+  memFree (hashtab);                              /* Free group leader */
+  bgraphBipartFmTablExit (tablptr);
+
 #ifdef SCOTCH_DEBUG_BGRAPH2
   if (bgraphCheck (grafptr) != 0) {
     errorPrint ("bgraphBipartFm: inconsistent graph data");
@@ -846,9 +849,6 @@ const BgraphBipartFmParam * const paraptr)        /*+ Method parameters +*/
   }
 #endif /* SCOTCH_DEBUG_BGRAPH2 */
 
-  memFree (hashtab);                              /* Free group leader */
-  bgraphBipartFmTablExit (tablptr);
-
   return (0);
 }
 
diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index a30ac2e..89ed1aa 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -113,8 +113,14 @@ const HgraphOrderKpParam * restrict const paraptr)
 
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
-  if ((kgraphInit  (&actgrafdat, &actgrafdat.s, &archdat, NULL, 0, NULL, 1, 1, NULL) != 0) ||
-      (kgraphMapSt (&actgrafdat, paraptr->strat) != 0)) {
+  if (kgraphInit (&actgrafdat, &actgrafdat.s, &archdat, NULL, 0, NULL, 1, 1, NULL) != 0) { /* Data freed on error */
+    errorPrint ("hgraphOrderKp: cannot create partitioning graph");
+    archExit   (&archdat);
+    memFree    (cblkptr->cblktab);
+    cblkptr->cblktab = NULL;
+    return (1);
+  }
+  if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) {
     errorPrint ("hgraphOrderKp: cannot compute partition");
     kgraphExit (&actgrafdat);
     archExit   (&archdat);
diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 149fcfa..9aa6666 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -240,6 +240,10 @@ abort:
                       &bandgrafptr->s.velotax, (size_t) ( bandvertnbr      * sizeof (Gnum)), NULL) == NULL) ||
       ((bandgrafptr->s.edgetax = memAlloc ((bandedgenbr + bandedlonbr) * sizeof (Gnum))) == NULL)) {
     errorPrint ("kgraphBand: out of memory (3)");
+    if (bandgrafptr->s.verttax != NULL) {         /* Array is not based yet, so that it cannot be freed along with graph */
+      memFree (bandgrafptr->s.verttax);
+      bandgrafptr->s.verttax = NULL;
+    }
     goto abort;
   }
   bandgrafptr->s.verttax -= bandgrafptr->s.baseval;
@@ -669,7 +673,9 @@ abort:
 #ifdef SCOTCH_DEBUG_KGRAPH2
   if (kgraphCheck (bandgrafptr) != 0) {
     errorPrint ("kgraphBand: inconsistent graph data (2)");
-    bandgrafptr->m.domntab = NULL;
+    memFree    (bandvnumtax + bandgrafptr->s.baseval);
+    bandgrafptr->m.domntab = NULL;                /* Domain array belongs to original graph */
+    kgraphExit (bandgrafptr);
     return (1);
   }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
diff --git a/src/libscotch/kgraph_map_bd.c b/src/libscotch/kgraph_map_bd.c
index 3b0da53..9392a31 100644
--- a/src/libscotch/kgraph_map_bd.c
+++ b/src/libscotch/kgraph_map_bd.c
@@ -267,6 +267,8 @@ const KgraphMapBdParam * const      paraptr)      /*+ Method parameters +*/
 
   if ((orgflagtab = memAlloc (kgraphMapBdFlagSize (orggrafptr->s.vertnnd) * sizeof (int))) == NULL) {
     errorPrint ("kgraphMapBd: out of memory (2)");
+    memFree    (bndvnumtax + bndgrafdat.s.baseval);
+    kgraphExit (&bndgrafdat);
     return (1);
   }
 
diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index b4a4312..ccc5392 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -568,8 +568,10 @@ KgraphMapFmTabl * restrict const    tablptr)
   const Arch * restrict const     archptr = grafptr->m.archptr;
   const ArchDom * restrict const  domntab = grafptr->m.domntab;
 
-  if (*edxxnbrptr >= *edxxsizptr)                 /* If new slot would not fit  */
-    kgraphMapFmEdgeResize (vexxtab, -1, edxxtabptr, edxxsizptr, *edxxnbrptr, tablptr); /* No vexxidx because vertex extended edges will be readd later */
+  if (*edxxnbrptr >= *edxxsizptr) {               /* If new slot would not fit  */
+    if (kgraphMapFmEdgeResize (vexxtab, -1, edxxtabptr, edxxsizptr, *edxxnbrptr, tablptr) != 0) /* No vexxidx because vertex extended edges will be readd later */
+      return (1);
+  }
 
   edxxtab = *edxxtabptr;
   edxxidx = (*edxxnbrptr) ++;                     /* Allocate new slot */
@@ -708,8 +710,10 @@ KgraphMapFmTabl * restrict const            tablptr)
     }
 
     if (edxxidx == -1) {                          /* If edge slot not found    */
-      if (*edxxnbrptr >= *edxxsizptr)             /* If new slot would not fit */
-        kgraphMapFmEdgeResize (vexxtab, vexxidx, edxxtabptr, edxxsizptr, *edxxnbrptr, tablptr);
+      if (*edxxnbrptr >= *edxxsizptr) {           /* If new slot would not fit */
+        if (kgraphMapFmEdgeResize (vexxtab, vexxidx, edxxtabptr, edxxsizptr, *edxxnbrptr, tablptr) != 0)
+          return (1);
+      }
 
       edxxidx = (*edxxnbrptr) ++;                 /* Allocate new slot */
       edxxtab = *edxxtabptr;                      /* Update edxxtab    */
@@ -1007,6 +1011,9 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   }
 #endif /* SCOTCH_DEBUG_KGRAPH3 */
   tablptr = &tabldat;
+  vexxtab = NULL;                                 /* Nothing to free on error yet */
+  savetab = NULL;
+  edxxtab = NULL;
 
   grafptr->kbalval = paraptr->deltval;            /* Store last k-way imbalance ratio */
   kgraphCost (grafptr);
@@ -1037,9 +1044,20 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
     else {                                        /* Imbalance must be fought */
       Strat *               strat;
 
-      strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
-      kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      int                   o;
+
+      if ((strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}")) == NULL) { /* Use a standard algorithm */
+        errorPrint ("kgraphMapFm: cannot create mapping strategy");
+        memFree    (comploadmax);
+        return (1);
+      }
+      o = kgraphMapSt (grafptr, strat);           /* Perform mapping */
       stratExit (strat);
+      if (o != 0) {
+        errorPrint ("kgraphMapFm: cannot compute mapping");
+        memFree    (comploadmax);
+        return (1);
+      }
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
@@ -1052,6 +1070,7 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
                            &comploadmax, (size_t) (domnnbr * sizeof (Gnum)),
                            &comploaddlt, (size_t) (domnnbr * sizeof (Gnum)), NULL) == NULL) {
         errorPrint ("kgraphMapFm: out of memory (3)");
+        memFree    (comploadmax);
         return     (1);
       }
 
@@ -1082,16 +1101,14 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
 
   if (kgraphMapFmTablInit (tablptr) != 0) {
     errorPrint ("kgraphMapFm: internal error (1)"); /* Unable to do proper initialization */
-    kgraphMapFmTablExit (tablptr);
-    return (1);
+    goto abort;
   }
   else {
     if (((vexxtab = memAlloc ((size_t) hashsiz * sizeof (KgraphMapFmVertex))) == NULL) ||
         ((savetab = memAlloc ((size_t) savesiz * sizeof (KgraphMapFmSave)))   == NULL) ||
         ((edxxtab = memAlloc ((size_t) edxxsiz * sizeof (KgraphMapFmEdge)))   == NULL)) {
       errorPrint ("kgraphMapFm: out of memory (4)");
-      kgraphMapFmTablExit (tablptr);
-      return (1);
+      goto abort;
     }
   }
   memSet (vexxtab, ~0, hashsiz * sizeof (KgraphMapFmVertex)); /* Set all vertex numbers to ~0 */
@@ -1101,9 +1118,7 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   while (hashnbr >= hashmax) {
     if (kgraphMapFmResize (&vexxtab, &hashmax, &hashmsk, savetab, 0, tablptr, edxxtab, &lockptr) != 0) {
       errorPrint ("kgraphMapFm: out of memory (5)");
-      memFree    (vexxtab);                       /* Free group leader */
-      kgraphMapFmTablExit (tablptr);
-      return (1);
+      goto abort;
     }
   }
 
@@ -1115,7 +1130,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
     if ((pfixtax == NULL) || (pfixtax[vertnum] == -1)) { /* Add only not fixed vertices */
       for (hashnum = (vertnum * KGRAPHMAPFMHASHPRIME) & hashmsk; vexxtab[hashnum].vertnum != ~0; hashnum = (hashnum + 1) & hashmsk) ;
 
-      kgraphMapFmPartAdd (grafptr, vertnum, hashnum, vexxtab, &edxxtab, &edxxsiz, &edxxnbr, tablptr);
+      if (kgraphMapFmPartAdd (grafptr, vertnum, hashnum, vexxtab, &edxxtab, &edxxsiz, &edxxnbr, tablptr) != 0)
+        goto abort;
 
 #ifdef SCOTCH_DEBUG_KGRAPH2
       if (vexxtab[hashnum].edxxidx == -1) {       /* If vertex does not have any neighbor */
@@ -1469,24 +1485,22 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
 
           if ((saveptr = memRealloc (savetab, savesiz * sizeof (KgraphMapFmSave))) == NULL) {
             errorPrint ("kgraphMapFm: out of memory (6)");
-            memFree    (savetab);                 /* Free group leader */
-            return     (1);
+            goto abort;
           }
           savetab = saveptr;
         }
         if (hashnbr >= hashmax) {                 /* If extended vertex table is already full */
           if (kgraphMapFmResize (&vexxtab, &hashmax, &hashmsk, savetab, savenbr, tablptr, edxxtab, &lockptr) != 0) {
             errorPrint ("kgraphMapFm: out of memory (7)");
-            memFree    (vexxtab);                 /* Free group leader */
-            kgraphMapFmTablExit (tablptr);
-            return       (1);
+            goto abort;
           }
         }
         for (vexxend = (vertend * KGRAPHMAPFMHASHPRIME) & hashmsk; /* Search for vertex or first free slot */
              (vexxtab[vexxend].vertnum != vertend) && (vexxtab[vexxend].vertnum != ~0); vexxend = (vexxend + 1) & hashmsk) ;
 
         if (vexxtab[vexxend].vertnum == ~0) {     /* If neighbor vertex not yet inserted, create it */
-          kgraphMapFmPartAdd (grafptr, vertend, vexxend, vexxtab, &edxxtab, &edxxsiz, &edxxnbr, tablptr);
+          if (kgraphMapFmPartAdd (grafptr, vertend, vexxend, vexxtab, &edxxtab, &edxxsiz, &edxxnbr, tablptr) != 0)
+            goto abort;
           hashnbr ++;                             /* One more vertex in hash table */
 #ifdef SCOTCH_DEBUG_KGRAPH2
           if (vexxtab[vexxend].edxxidx == -1) {
@@ -1623,7 +1637,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
           Gnum        edxxidx;
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
-          kgraphMapFmPartAdd2 (grafptr, vexxtab, vexxend, &edxxtab, &edxxsiz, &edxxnbr, vexxtab[vexxend].domnnum, domnend, edloval, tablptr); /* Add new extended edge */
+          if (kgraphMapFmPartAdd2 (grafptr, vexxtab, vexxend, &edxxtab, &edxxsiz, &edxxnbr, vexxtab[vexxend].domnnum, domnend, edloval, tablptr) != 0) /* Add new extended edge */
+            goto abort;
 #ifdef SCOTCH_DEBUG_KGRAPH2
           for (edxxidx = vexxtab[vexxend].edxxidx; (edxxidx != -1) && (edxxtab[edxxidx].domnnum != domnend); edxxidx = edxxtab[edxxidx].edxxidx) ;
           if (edxxidx == -1) {
@@ -1852,4 +1867,19 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
   return (0);
+
+abort:
+#ifdef SCOTCH_DEBUG_KGRAPH3
+  memFree (chektab);
+#endif /* SCOTCH_DEBUG_KGRAPH3 */
+  memFree (comploadmax);                          /* Free group leader */
+  if (vexxtab != NULL)
+    memFree (vexxtab);
+  if (savetab != NULL)
+    memFree (savetab);
+  if (edxxtab != NULL)
+    memFree (edxxtab);
+  kgraphMapFmTablExit (tablptr);
+
+  return (1);
 }
diff --git a/src/libscotch/kgraph_map_ml.c b/src/libscotch/kgraph_map_ml.c
index 4de54a0..17c98ff 100644
--- a/src/libscotch/kgraph_map_ml.c
+++ b/src/libscotch/kgraph_map_ml.c
@@ -255,11 +255,6 @@ const GraphCoarsenMulti * const coarmulttab)      /*+ Pointer to multinode array
     return (1);
   }
 
-  finegrafptr->s.flagval  |= KGRAPHFREECOMP;
-  finegrafptr->comploadavg = coargrafptr->comploadavg; /* Propagate part load data in case it was changed at the coarser levels */
-  finegrafptr->comploaddlt = coargrafptr->comploaddlt;
-  coargrafptr->comploadavg = NULL;                /* No need to free coarse graph load array as it has been transferred */
-
   fineparttax = finegrafptr->m.parttax;           /* Fine part array is now allocated */
   coarparttax = coargrafptr->m.parttax;
   coarfrontab = coargrafptr->frontab;
@@ -372,6 +367,10 @@ const KgraphMapMlParam * const    paraptr)        /*+ Method parameters +*/
     grafptr->m.domnmax    = coargrafdat.m.domnmax;
     coargrafdat.m.domntab = NULL;
 
+    grafptr->comploadavg    = coargrafdat.comploadavg; /* Propagate part load data in case it was changed at the coarser levels, even on error */
+    grafptr->comploaddlt    = coargrafdat.comploaddlt;
+    coargrafdat.comploadavg = NULL;               /* No need to free coarse graph load array as it has been transferred */
+
     if ((o == 0) &&                               /* If coarsened mapping succeeded */
         ((o = kgraphMapMlUncoarsen (grafptr, &coargrafdat, coarmulttab)) == 0) &&
         ((o = kgraphMapSt          (grafptr, paraptr->stratasc))         != 0)) /* Apply ascending strategy */
diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 9067ff3..4210bf0 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -160,6 +160,8 @@ const KgraphMapRbParam * restrict const paraptr)
     memFree (vflotab);                            /* Not used any longer */
 
     graphExit (&indgrafdat);
+    if (o != 0)                                   /* If recursive bipartitioning failed, do not use its result */
+      return (o);
     if (kgraphMapRbVfloMerge (&grafptr->m, grafptr->vfixnbr, grafptr->pfixtax, vflonbr) != 0) {
       errorPrint ("kgraphMapRb: cannot merge fixed vertex domains");
       return (1);
@@ -473,6 +475,7 @@ const Anum                  vflonbr)              /*+ Number of fixed vertex loa
 #ifdef SCOTCH_DEBUG_KGRAPH2
       if (mappptr->parttax[vertnum] < 0) {        /* If vertex has not been mapped */
         errorPrint ("kgraphMapRbVfloMerge: internal error (1)");
+        memFree    (hashtab);
         return (1);
       }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
@@ -482,6 +485,7 @@ const Anum                  vflonbr)              /*+ Number of fixed vertex loa
 #ifdef SCOTCH_DEBUG_KGRAPH2
     if (mappptr->parttax[vertnum] >= 0) {         /* If fixed vertex has been mapped */
       errorPrint ("kgraphMapRbVfloMerge: internal error (2)");
+      memFree    (hashtab);
       return (1);
     }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
@@ -493,6 +497,7 @@ const Anum                  vflonbr)              /*+ Number of fixed vertex loa
         if (domnnum >= mappptr->domnmax) {
           if (mapResize (mappptr, mappptr->domnmax + (mappptr->domnmax >> 2) + 8) != 0) { /* Increase size by 25% */
             errorPrint ("kgraphMapRbVfloMerge: out of memory (2)");
+            memFree    (hashtab);
             return (1);
           }
         }
@@ -579,6 +584,7 @@ Context * const                         contptr)  /*+ Execution context
 
   if ((veextax = (Gnum *) memAlloc (actgrafptr->s.vertnbr * sizeof (Gnum))) == NULL) {
     errorPrint ("kgraphMapRbBgraph: out of memory");
+    bgraphExit (actgrafptr);
     return (1);
   }
   veextax -= actgrafptr->s.baseval;
@@ -700,6 +706,8 @@ Context * const                         contptr)  /*+ Execution context
 fail :
   if ((o != 0) || (veexmsk == 0)) {               /* If external gain array is useless */
     memFree (veextax + actgrafptr->s.baseval);    /* Forget about it                   */
+    if (o != 0)                                   /* If building failed                */
+      bgraphExit (actgrafptr);                    /* Free bipartition graph            */
     return  (o);                                  /* Return error code                 */
   }
 
@@ -714,6 +722,7 @@ fail :
 #ifdef SCOTCH_DEBUG_KGRAPH2
   if (bgraphCheck (actgrafptr) != 0) {
     errorPrint ("kgraphMapRbBgraph: inconsistent graph data");
+    bgraphExit (actgrafptr);
     return (1);
   }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-- 
2.43.0


From b2dd9e07251f6c8dca02f5e4117a0cde709ff488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 116/134] fix: selection between two partitioning strategies
 may keep the result of the one that failed

---
 src/libscotch/kgraph_map_st.c  | 4 ++--
 src/libscotch/wgraph_part_st.c | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/kgraph_map_st.c b/src/libscotch/kgraph_map_st.c
index f7fcfc6..ac0400d 100644
--- a/src/libscotch/kgraph_map_st.c
+++ b/src/libscotch/kgraph_map_st.c
@@ -336,7 +336,7 @@ const Strat * restrict const  straptr)            /*+ Mapping strategy +*/
         int                 b0;
         int                 b1;
 
-        b0 = o;                                   /* Assume that balance is invalid if partitioning has failed */
+        b0 = (o != 0) ? 2 : 0;                    /* A failed partitioning is worse than an imbalanced one */
         comploaddltasu[0] = 0;
         for (partnum = 0; partnum < savetab[0].domnnbr; partnum ++) {
           Gnum                comploadadlt;
@@ -347,7 +347,7 @@ const Strat * restrict const  straptr)            /*+ Mapping strategy +*/
           comploaddltasu[0] += comploadadlt;
         }
 
-        b1 = o2;
+        b1 = (o2 != 0) ? 2 : 0;
         comploaddltasu[1] = 0;
         for (partnum = 0; partnum < grafptr->m.domnnbr; partnum ++) {
           Gnum                comploadadlt;
diff --git a/src/libscotch/wgraph_part_st.c b/src/libscotch/wgraph_part_st.c
index 9122926..8a26ec0 100644
--- a/src/libscotch/wgraph_part_st.c
+++ b/src/libscotch/wgraph_part_st.c
@@ -258,9 +258,12 @@ const Strat * restrict const straptr)             /*+ Overlap partitioning strat
       o2 = wgraphPartSt (grafptr, straptr->data.seledat.stratab[1]); /* Apply second strategy */
 
       if ((o == 0) || (o2 == 0)) {                /* If at least one method make a k-partition */
-        if (savetab[0].fronload < grafptr->fronload) /* If first strategy is better            */
+        if ((o2 != 0) ||                          /* If only first strategy worked             */
+            ((o == 0) && (savetab[0].fronload < grafptr->fronload))) /* Or is better           */
           wgraphStoreUpdt (grafptr, &savetab[0]); /* Restore its result                        */
       }
+      if (o2 < o)                                 /* o = min(o,o2): if one parts, then part    */
+        o = o2;
 
       wgraphStoreExit (&savetab[0]);              /* Free both save areas */
       wgraphStoreExit (&savetab[1]);
-- 
2.43.0


From 9ed1fb67836b3f8284f57d67ee35afaad22d53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 117/134] fix: ordering methods leak when a sub-ordering fails,
 or go on with unfilled arrays

---
 src/libscotch/hgraph_order_cp.c   |  1 +
 src/libscotch/hmesh_order_cp.c    |  1 +
 src/libscotch/hmesh_order_hd.c    |  6 +++++-
 src/libscotch/hmesh_order_hf.c    |  6 +++++-
 src/libscotch/hmesh_order_nd.c    |  3 ++-
 src/libscotch/mesh_induce_sepa.c  |  2 ++
 src/libscotch/vmesh_separate_gg.c | 10 +++++-----
 7 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index c86f997..5d50801 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -446,6 +446,7 @@ loop_failed: ;
   }
   orderInit (&coarordedat, coargrafdat.s.baseval, coargrafdat.vnohnbr, coarperitab); /* Build ordering of compressed subgraph */
   if (hgraphOrderSt (&coargrafdat, &coarordedat, 0, &coarordedat.cblktre, paraptr->stratcpr) != 0) {
+    orderExit  (&coarordedat);                    /* Free partial sub-tree */
     memFree    (coarperitab);
     hgraphExit (&coargrafdat);
     memFree    (finecoartax + finegrafptr->s.baseval);
diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 9676546..0638133 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -406,6 +406,7 @@ loop_failed: ;
 
   orderInit (&coarordedat, coarmeshdat.m.baseval, coarmeshdat.m.vnodnbr, coarperitab); /* Build ordering of compressed submesh */
   if (hmeshOrderSt (&coarmeshdat, &coarordedat, 0, &coarordedat.cblktre, paraptr->stratcpr) != 0) {
+    orderExit (&coarordedat);                     /* Free partial sub-tree */
     hmeshExit (&coarmeshdat);
     return (1);
   }
diff --git a/src/libscotch/hmesh_order_hd.c b/src/libscotch/hmesh_order_hd.c
index 0fc53c8..34ced3a 100644
--- a/src/libscotch/hmesh_order_hd.c
+++ b/src/libscotch/hmesh_order_hd.c
@@ -136,7 +136,11 @@ const HmeshOrderHdParam * restrict const  paraptr)
     return (1);
   }
 
-  hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvartab, elentab, &pfree);
+  if (hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvartab, elentab, &pfree) != 0) {
+    errorPrint ("hmeshOrderHd: cannot fill work arrays");
+    memFree    (petab);                           /* Free group leader */
+    return (1);
+  }
 
   hallOrderHdR2Halmd (norig, n, meshptr->m.velmnbr, iwlen, petab, pfree,
                       lentab, iwtab, nvartab, elentab, lasttab, &ncmpa,
diff --git a/src/libscotch/hmesh_order_hf.c b/src/libscotch/hmesh_order_hf.c
index 3212638..b7a14cf 100644
--- a/src/libscotch/hmesh_order_hf.c
+++ b/src/libscotch/hmesh_order_hf.c
@@ -140,7 +140,11 @@ const HmeshOrderHfParam * restrict const  paraptr)
     return (1);
   }
 
-  hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvtab, elentab, &pfree);
+  if (hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvtab, elentab, &pfree) != 0) {
+    errorPrint ("hmeshOrderHf: cannot fill work arrays");
+    memFree    (petab);                           /* Free group leader */
+    return (1);
+  }
 
   hallOrderHfR3Hamdf4 (norig, n, meshptr->m.velmnbr, nbbuck, iwlen, petab, pfree,
                        lentab, iwtab, nvtab, elentab, lasttab, &ncmpa,
diff --git a/src/libscotch/hmesh_order_nd.c b/src/libscotch/hmesh_order_nd.c
index 9f46655..264bb48 100644
--- a/src/libscotch/hmesh_order_nd.c
+++ b/src/libscotch/hmesh_order_nd.c
@@ -156,6 +156,7 @@ const HmeshOrderNdParam * const   paraptr)
                       &nspmeshdat.parttax, (size_t) (vertnbr * sizeof (GraphPart)),
                       &nspmeshdat.frontab, (size_t) (vertnbr * sizeof (Gnum)), NULL) == NULL) {
     errorPrint ("hmeshOrderNd: out of memory (1)");
+    meshExit   (&nspmeshdat.m);                   /* Free non-halo mesh */
     return (1);
   }
   memSet (nspmeshdat.parttax, 0, vertnbr * sizeof (GraphPart)); /* Set all vertices to part 0 */
@@ -212,7 +213,7 @@ const HmeshOrderNdParam * const   paraptr)
 
     if (meshInduceSepa (&nspmeshdat.m, nspmeshdat.parttax, nspmeshdat.fronnbr, nspmeshdat.frontab, &indmeshdat.m) != 0) {
       errorPrint ("hmeshOrderNd: cannot build induced subgraph (1)");
-      memFree    (nspmeshdat.frontab);            /* Free remaining space */
+      vmeshExit  (&nspmeshdat);                   /* Free remaining space */
       return (1);
     }
     indmeshdat.vnohnbr = indmeshdat.m.vnodnbr;    /* Fill halo mesh structure of non-halo mesh */
diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index c7a463c..af1cd5e 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -202,6 +202,8 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   }
   if (p == 0) {
     errorPrint ("meshInduceSepa: out of memory (2)"); /* Allocate induced mesh graph structure */
+    if (indmeshptr->verttax != NULL)              /* If vertex arrays were allocated, they are already based */
+      memFree (indmeshptr->verttax + indmeshptr->baseval);
     return     (1);
   }
   memSet (orgindxtax, ~0, orgvertnbr    * sizeof (Gnum));
diff --git a/src/libscotch/vmesh_separate_gg.c b/src/libscotch/vmesh_separate_gg.c
index 166d1e0..39196cf 100644
--- a/src/libscotch/vmesh_separate_gg.c
+++ b/src/libscotch/vmesh_separate_gg.c
@@ -427,6 +427,11 @@ next:                                             /* Select next root element sy
   meshptr->ncmpsize[1] = ncmpsize1;
   meshptr->fronnbr     = ncmpsize2;
 
+  if (permtab != NULL)
+    memFree (permtab);
+  memFree      (vexxtab);                         /* Free group leader */
+  gainTablExit (tablptr);
+
 #ifdef SCOTCH_DEBUG_VMESH2
   if (vmeshCheck (meshptr) != 0) {
     errorPrint ("vmeshSeparateGg: inconsistent graph data");
@@ -434,11 +439,6 @@ next:                                             /* Select next root element sy
   }
 #endif /* SCOTCH_DEBUG_VMESH2 */
 
-  if (permtab != NULL)
-    memFree (permtab);
-  memFree      (vexxtab);                         /* Free group leader */
-  gainTablExit (tablptr);
-
   return (0);
 }
 
-- 
2.43.0


From 65bb717616f34fd171db6d84f5834c8fd39c0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 118/134] fix: mesh graph and Chaco import errors free memory
 twice

---
 src/libscotch/graph_io_chac.c | 1 +
 src/libscotch/mesh_graph.c    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 53c97ea..6313c80 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -145,6 +145,7 @@ const char * const          dataptr)              /* No use           */
                       &grafptr->edlotax, (size_t) (edlosiz          * sizeof (Gnum)), NULL) == NULL)) {
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
+    graphInit (grafptr);                          /* Nothing more to free in graph */
     errorPrint ("graphGeomLoadChac: out of memory");
     return     (1);
   }
diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index 5d3b4bd..c9b2ed2 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -117,6 +117,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
     errorPrint ("meshGraph: out of memory (1)");
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
+    graphInit (grafptr);                          /* Nothing more to free in graph */
     return (1);
   }
   grafptr->verttax -= grafptr->baseval;
@@ -136,6 +137,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
     errorPrint ("meshGraph: out of memory (2)");
     graphFree  (grafptr);
+    memFree    (hashtab);
     return (1);
   }
   grafptr->edgetax -= grafptr->baseval;
@@ -259,6 +261,7 @@ const Gnum                  noconbr)              /*+ number of common points to
     errorPrint ("meshGraphDual: out of memory (1)");
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
+    graphInit (grafptr);                          /* Nothing more to free in graph */
     return (1);
   }
   grafptr->verttax -= grafptr->baseval;
@@ -271,6 +274,7 @@ const Gnum                  noconbr)              /*+ number of common points to
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
     errorPrint ("meshGraphDual: out of memory (2)");
     graphFree  (grafptr);
+    memFree    (hashtab);
     return (1);
   }
   grafptr->edgetax -= grafptr->baseval;
-- 
2.43.0


From df5bf3dc975f220c8af18dac69a8d55ad58578d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 119/134] fix: esmumps ignores errors of the ordering routines

---
 src/esmumps/esmumps.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/esmumps/esmumps.c b/src/esmumps/esmumps.c
index c47f57b..b174e79 100644
--- a/src/esmumps/esmumps.c
+++ b/src/esmumps/esmumps.c
@@ -136,11 +136,22 @@ INT * restrict const        lasttab)              /*+ Permutations computed for
   for (vertnum = 0; vertnum < n; vertnum ++)
     vendtab[vertnum] = petab[vertnum] + lentab[vertnum];
 
-  graphInit        (&grafdat);
-  graphBuildGraph2 (&grafdat, 1, n, pfree - 1, petab, vendtab, velotab, NULL, iwtab, NULL); /* Assume Fortran-based indexing */
+  graphInit (&grafdat);
+  if (graphBuildGraph2 (&grafdat, 1, n, pfree - 1, petab, vendtab, velotab, NULL, iwtab, NULL) != 0) { /* Assume Fortran-based indexing */
+    errorPrint ("esmumps2: cannot build graph");
+    graphExit  (&grafdat);
+    memFree    (vendtab);
+    return (1);
+  }
 
-  orderInit  (&ordedat);
-  orderGraph (&ordedat, &grafdat);                /* Compute ordering with Scotch */
+  orderInit (&ordedat);
+  if (orderGraph (&ordedat, &grafdat) != 0) {     /* Compute ordering with Scotch */
+    errorPrint ("esmumps2: cannot compute ordering");
+    orderExit  (&ordedat);
+    graphExit  (&grafdat);
+    memFree    (vendtab);
+    return (1);
+  }
 
 #ifdef ESMUMPS_ORDER_DUMP
   {
@@ -167,8 +178,15 @@ INT * restrict const        lasttab)              /*+ Permutations computed for
   memCpy (lasttab, ordedat.peritab, n * sizeof (INT));
 #endif /* ESMUMPS_DEBUG */
 
-  symbolInit     (&symbdat);
-  symbolFaxGraph (&symbdat, &grafdat, &ordedat);  /* Compute block symbolic factorizaion */
+  symbolInit (&symbdat);
+  if (symbolFaxGraph (&symbdat, &grafdat, &ordedat) != 0) { /* Compute block symbolic factorizaion */
+    errorPrint ("esmumps2: cannot compute symbolic factorization");
+    symbolExit (&symbdat);
+    orderExit  (&ordedat);
+    graphExit  (&grafdat);
+    memFree    (vendtab);
+    return (1);
+  }
 
 #ifdef ESMUMPS_DEBUG_OUTPUT
   {
-- 
2.43.0


From 3ec371a2204a9fd878eb9b4d1d8838e6be57af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 120/134] fix: unbalanced decompositions of more than 31 levels
 overflow domain numbers, breaking domain inclusion, distances and matching

---
 src/libscotch/arch_build2.c |  2 +-
 src/libscotch/arch_deco2.c  | 73 +++++++------------------------------
 src/libscotch/arch_sub.c    | 28 +++++++-------
 3 files changed, 30 insertions(+), 73 deletions(-)

diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3285771..3cd6486 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -488,7 +488,7 @@ const Anum                          levlnum)      /*+ Current tree level
   if (son0ptr != NULL) {                          /* If node is a branch node */
     Anum                domntmp;
 
-    domntmp = domnnum * 2;                        /* Domain number of first son */
+    domntmp = (domnnum <= (ANUMMAX / 2)) ? (domnnum * 2) : 0; /* Domain number of first son, unless too deep */
     domntab[didxtmp].dfatidx    = domnidx;
     domntab[domnidx].dsubidx[0] = didxtmp;
     didxtmp = archDeco2BuildBuild3 (dataptr, son0ptr, domntmp, didxtmp, levltmp);
diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 4e29048..06de5de 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -386,25 +386,27 @@ const ArchDeco2 * restrict const  archptr)
 {
   Anum                termnbr;
   Anum                termnum;
-  Anum                domnmax;
+  Anum                levlmax;
   Anum                levlnbr;
   Anum                multnbr;
 
   const ArchSubTerm * restrict const  termtab = archptr->termtab;
   const ArchSubData * restrict const  domntab = archptr->domntab;
 
-  for (termnum = 0, termnbr = archptr->termnbr, domnmax = 0; /* Get maximum domain number */
+  for (termnum = 0, termnbr = archptr->termnbr, levlmax = 0; /* Get maximum depth of terminal domains */
        termnum < termnbr; termnum ++) {
-    Anum                domnval;
+    Anum                domnidx;
+    Anum                levlval;
 
-    domnval = domntab[termtab[termnum].domnidx].domnnum;
-    if (domnval > domnmax)
-      domnmax = domnval;
+    for (domnidx = termtab[termnum].domnidx, levlval = 0; domnidx >= 0; /* Count ancestors, since domain numbers may overflow in unbalanced trees */
+         domnidx = domntab[domnidx].dfatidx, levlval ++) ;
+    if (levlval > levlmax)
+      levlmax = levlval;
   }
 
-  for (levlnbr = 1; domnmax > 0; levlnbr ++, domnmax >>= 1) ; /* Compute maximum recursion level in bipartitioning tree */
+  levlnbr = levlmax + 1;                          /* Compute maximum recursion level in bipartitioning tree */
 
-  multnbr = 1 << levlnbr;                         /* Maximum number of multinodes is the size of last level */
+  multnbr = termnbr;                              /* Every multinode comprises at least one distinct terminal domain */
   if ((matcptr->multtab = memAlloc (multnbr * sizeof (ArchCoarsenMulti))) == NULL) {
     errorPrint ("archDeco2MatchInit: out of memory");
     return     (1);
@@ -502,10 +504,6 @@ const ArchDeco2Dom * const  dom1ptr)
   Anum                  distmin;
   Gnum                  baseval;
   Gnum                  vertnbr;
-#ifdef SCOTCH_DEBUG_ARCH2
-  Anum                  domnnum0;
-  Anum                  domnnum1;
-#endif /* SCOTCH_DEBUG_ARCH2 */
 
   const ArchSubData * restrict const    domntab = archptr->domntab;
   const ArchDeco2Data * restrict const  doextab = archptr->doextab;
@@ -521,15 +519,6 @@ const ArchDeco2Dom * const  dom1ptr)
   levlnum  = MAX (levlnum0, levlnum1);            /* Level where to start distance computations    */
   levlptr  = &archptr->levltab[levlnum];          /* Point to start level for distance computation */
   vertnbr  = levlptr->grafdat.vertnbr;            /* Get upper bound on number of vertices         */
-#ifdef SCOTCH_DEBUG_ARCH2
-  domnnum0 = domntab[domnidx0].domnnum;
-  domnnum1 = domntab[domnidx1].domnnum;
-  if ((domntab[domnidx0].domnnum != domnnum0) ||
-      (domntab[domnidx1].domnnum != domnnum1)) {
-    errorPrint ("archDeco2DomDist: internal error (2)");
-    return     (-1);
-  }
-#endif /* SCOTCH_DEBUG_ARCH2 */
   while (levlnum0 < levlnum1) {                   /* Level subdomains as much as possible */
     Anum                domntmp0;
     Anum                levltmp0;
@@ -541,14 +530,6 @@ const ArchDeco2Dom * const  dom1ptr)
 
     domnidx0 = domntmp0;                          /* Father domain becomes current domain */
     levlnum0 = levltmp0;                          /* Set new current level for new domain */
-#ifdef SCOTCH_DEBUG_ARCH2
-    domnnum0 >>= 1;
-    if ((doextab[domnidx0].levlnum != levlnum0) ||
-        (domntab[domnidx0].domnnum != domnnum0)) {
-      errorPrint ("archDeco2DomDist: internal error (3)");
-      return     (-1);
-    }
-#endif /* SCOTCH_DEBUG_ARCH2 */
   }
   while (levlnum1 < levlnum0) {                   /* Level subdomains as much as possible */
     Anum                domntmp1;
@@ -561,14 +542,6 @@ const ArchDeco2Dom * const  dom1ptr)
 
     domnidx1 = domntmp1;
     levlnum1 = levltmp1;
-#ifdef SCOTCH_DEBUG_ARCH2
-    domnnum1 >>= 1;
-    if ((doextab[domnidx1].levlnum != levlnum1) ||
-        (domntab[domnidx1].domnnum != domnnum1)) {
-      errorPrint ("archDeco2DomDist: internal error (4)");
-      return     (-1);
-    }
-#endif /* SCOTCH_DEBUG_ARCH2 */
   }
 
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
@@ -689,27 +662,11 @@ loop: vertnum = queutab[queutailidx ++];          /* Get vertex number from queu
     if (doextab[domntmp0].levlnum <= levlnum) {   /* If father domain is at proper level  */
       domnidx0 = domntmp0;                        /* Father domain becomes current domain */
       levlnum0 = levlnum;                         /* Set new current level for new domain */
-#ifdef SCOTCH_DEBUG_ARCH2
-      domnnum0 >>= 1;
-      if ((doextab[domnidx0].levlnum != levlnum0) ||
-          (domntab[domnidx0].domnnum != domnnum0)) {
-        errorPrint ("archDeco2DomDist: internal error (6)");
-        return     (-1);
-      }
-#endif /* SCOTCH_DEBUG_ARCH2 */
     }
     domntmp1 = domntab[domnidx1].dfatidx;
     if (doextab[domntmp1].levlnum <= levlnum) {
       domnidx1 = domntmp1;
       levlnum1 = levlnum;
-#ifdef SCOTCH_DEBUG_ARCH2
-      domnnum1 >>= 1;
-      if ((doextab[domnidx1].levlnum != levlnum1) ||
-          (domntab[domnidx1].domnnum != domnnum1)) {
-        errorPrint ("archDeco2DomDist: internal error (7)");
-        return     (-1);
-      }
-#endif /* SCOTCH_DEBUG_ARCH2 */
     }
 
     if (domnidx0 == domnidx1) {                   /* If same domains after leveling, half distance of largest domain */
@@ -834,13 +791,11 @@ const ArchDeco2 * const     archptr,
 const ArchDeco2Dom * const  dom0ptr,
 const ArchDeco2Dom * const  dom1ptr)
 {
-  Anum          dom0num;
-  Anum          dom1num;
+  Anum                dom1idx;
 
-  for (dom1num = archptr->domntab[dom1ptr->domnidx].domnnum,
-       dom0num = archptr->domntab[dom0ptr->domnidx].domnnum;
-       dom1num != 0; dom1num >>= 1)
-    if (dom1num == dom0num)
+  for (dom1idx = dom1ptr->domnidx; dom1idx >= 0;  /* Search for first domain among ancestors of second one */
+       dom1idx = archptr->domntab[dom1idx].dfatidx)
+    if (dom1idx == dom0ptr->domnidx)
       return (1);
 
   return (0);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index a666c19..9a3b0b0 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -333,7 +333,7 @@ const Anum                          domnidx)      /*+ Current first free slot in
   if (son0ptr != NULL) {                          /* If node is a branch node */
     Anum                domntmp;
 
-    domntmp = domnnum * 2;                        /* Domain number of first son */
+    domntmp = (domnnum <= (ANUMMAX / 2)) ? (domnnum * 2) : 0; /* Domain number of first son, unless too deep */
     domntab[didxtmp].dfatidx    = domnidx;
     domntab[domnidx].dsubidx[0] = didxtmp;
     didxtmp = archSubArchBuild3 (domntab, termtab, son0ptr, domntmp, didxtmp);
@@ -527,25 +527,27 @@ const ArchSub * restrict const  archptr)
 {
   Anum                termnbr;
   Anum                termnum;
-  Anum                domnmax;
+  Anum                levlmax;
   Anum                levlnbr;
   Anum                multnbr;
 
   const ArchSubTerm * restrict const  termtab = archptr->termtab;
   const ArchSubData * restrict const  domntab = archptr->domntab;
 
-  for (termnum = 0, termnbr = archptr->termnbr, domnmax = 0; /* Get maximum domain number */
+  for (termnum = 0, termnbr = archptr->termnbr, levlmax = 0; /* Get maximum depth of terminal domains */
        termnum < termnbr; termnum ++) {
-    Anum                domnval;
+    Anum                domnidx;
+    Anum                levlval;
 
-    domnval = domntab[termtab[termnum].domnidx].domnnum;
-    if (domnval > domnmax)
-      domnmax = domnval;
+    for (domnidx = termtab[termnum].domnidx, levlval = 0; domnidx >= 0; /* Count ancestors, since domain numbers may overflow in unbalanced trees */
+         domnidx = domntab[domnidx].dfatidx, levlval ++) ;
+    if (levlval > levlmax)
+      levlmax = levlval;
   }
 
-  for (levlnbr = 1; domnmax > 0; levlnbr ++, domnmax >>= 1) ; /* Compute maximum recursion level in bipartitioning tree */
+  levlnbr = levlmax + 1;                          /* Compute maximum recursion level in bipartitioning tree */
 
-  multnbr = 1 << levlnbr;                         /* Maximum number of multinodes is the size of last level */
+  multnbr = termnbr;                              /* Every multinode comprises at least one distinct terminal domain */
   if ((matcptr->multtab = memAlloc (multnbr * sizeof (ArchCoarsenMulti))) == NULL) {
     errorPrint ("archSubMatchInit: out of memory");
     return (1);
@@ -835,11 +837,11 @@ const ArchSub * const       archptr,
 const ArchSubDom * const    dom0ptr,
 const ArchSubDom * const    dom1ptr)
 {
-  Anum          dom0num;
-  Anum          dom1num;
+  Anum                dom1idx;
 
-  for (dom1num = archptr->domntab[dom1ptr->domnidx].domnnum, dom0num = archptr->domntab[dom0ptr->domnidx].domnnum; dom1num != 0; dom1num >>= 1)
-    if (dom1num == dom0num)
+  for (dom1idx = dom1ptr->domnidx; dom1idx >= 0;  /* Search for first domain among ancestors of second one */
+       dom1idx = archptr->domntab[dom1idx].dfatidx)
+    if (dom1idx == dom0ptr->domnidx)
       return (1);
 
   return (0);
-- 
2.43.0


From 8959d360d139dd113dd991e694f8ad7071ad7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 121/134] fix: building a type 1 decomposition keeps the sum of
 non-inverted edge loads

---
 src/libscotch/arch_build.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index cf93c74..b6d050b 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -207,6 +207,7 @@ Context * const             contptr)              /*+ Execution context
 
   if (tgtedlotax != NULL) {                       /* If architecture graph has edge loads                     */
     invedlotax -= tgtgrafptr->baseval;            /* Base inversed edge load array                            */
+    jobtab[0].grafdat.edlosum =                   /* Sum of inversed loads replaces sum of original loads     */
     graphIelo (&jobtab[0].grafdat, jobtab[0].grafdat.edlotax, invedlotax); /* Compute inverse of edge loads   */
     jobtab[0].grafdat.edlotax = invedlotax;       /* Replace potentially induced edge array with inversed one */
   }                                               /* Edge array will be freed along with jobtab group leader  */
-- 
2.43.0


From e30cf6b04f1e910cda6459b86857bef24899e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 122/134] fix: loading a corrupted architecture file of class
 cmpltw, mesh, tleaf, ltleaf or sub leaks memory, overflows or reads out of
 bounds

---
 src/libscotch/arch_cmpltw.c |  7 +++--
 src/libscotch/arch_mesh.c   | 15 +++++++---
 src/libscotch/arch_sub.c    |  3 +-
 src/libscotch/arch_tleaf.c  | 56 +++++++++++++++++--------------------
 4 files changed, 43 insertions(+), 38 deletions(-)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index aae5b75..24a02fa 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -230,7 +230,8 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((fscanf (stream, "%ld", &vertnbr) != 1) ||
-      (vertnbr < 1)) {
+      (vertnbr < 1) ||
+      (vertnbr > ANUMMAX)) {
     errorPrint ("archCmpltwArchLoad: bad input (1)");
     return (1);
   }
@@ -247,10 +248,12 @@ FILE * restrict const       stream)
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
         (velotmp < 1)) {
       errorPrint ("archCmpltwArchLoad: bad input (2)");
+      memFree    (vecwtab);
       return (1);
     }
     veloval = (Anum) velotmp;
-    if (veloval <= 0) {                           /* Target weights cannot be negative nor null */
+    if ((veloval <= 0) ||                         /* Target weights cannot be negative nor null */
+        (velotmp > (ANUMMAX - velosum))) {        /* And their sum must not overflow            */
       errorPrint ("archCmpltwArchLoad: bad input (3)");
       memFree    (vecwtab);
       return (1);
diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index e9ca1d2..76e8a72 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -115,7 +115,8 @@ FILE * restrict const       stream)
 
   if ((intLoad (stream, &archptr->c[0]) != 1) ||
       (intLoad (stream, &archptr->c[1]) != 1) ||
-      (archptr->c[0] < 1) || (archptr->c[1] < 1)) {
+      (archptr->c[0] < 1) || (archptr->c[1] < 1) ||
+      (archptr->c[0] > (ANUMMAX / archptr->c[1]))) { /* If number of vertices overflows */
     errorPrint ("archMesh2ArchLoad: bad input");
     return     (1);
   }
@@ -388,7 +389,9 @@ FILE * restrict const       stream)
   if ((intLoad (stream, &archptr->c[0]) != 1) ||
       (intLoad (stream, &archptr->c[1]) != 1) ||
       (intLoad (stream, &archptr->c[2]) != 1) ||
-      (archptr->c[0] < 1) || (archptr->c[1] < 1) || (archptr->c[2] < 1)) {
+      (archptr->c[0] < 1) || (archptr->c[1] < 1) || (archptr->c[2] < 1) ||
+      (archptr->c[0] > (ANUMMAX / archptr->c[1])) || /* If number of vertices overflows */
+      (archptr->c[2] > (ANUMMAX / (archptr->c[0] * archptr->c[1])))) {
     errorPrint ("archMesh3ArchLoad: bad input");
     return     (1);
   }
@@ -622,6 +625,7 @@ ArchMeshX * restrict const  archptr,
 FILE * restrict const       stream)
 {
   Anum                dimnnum;
+  Anum                vertnbr;
 
 #ifdef SCOTCH_DEBUG_ARCH1
   if ((sizeof (ArchMeshX)    > sizeof (ArchDummy)) ||
@@ -632,17 +636,20 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
+      (archptr->dimnnbr < 1)                     ||
       (archptr->dimnnbr > ARCHMESHDIMNMAX)) {
     errorPrint ("archMeshXArchLoad: bad input (1)");
     return     (1);
   }
 
-  for (dimnnum = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
+  for (dimnnum = 0, vertnbr = 1; dimnnum < archptr->dimnnbr; dimnnum ++) {
     if ((intLoad (stream, &archptr->c[dimnnum]) != 1) ||
-        (archptr->c[dimnnum] < 1)) {
+        (archptr->c[dimnnum] < 1)                     ||
+        (archptr->c[dimnnum] > (ANUMMAX / vertnbr))) { /* If number of vertices overflows */
       errorPrint ("archMeshXArchLoad: bad input (2)");
       return     (1);
     }
+    vertnbr *= archptr->c[dimnnum];
   }
 
   return (0);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 9a3b0b0..d0f0dae 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -88,7 +88,8 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &termnbr) != 1) {
+  if ((intLoad (stream, &termnbr) != 1) ||
+      (termnbr < 1)) {
     errorPrint ("archSubArchLoad: bad input (1)");
     return (1);
   }
diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index a828db2..3aaf06b 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -102,6 +102,7 @@ ArchTleaf * restrict const  archptr,
 FILE * restrict const       stream)
 {
   Anum                sizeval;
+  Anum                linksum;
   Anum                levlnum;
 
 #ifdef SCOTCH_DEBUG_ARCH1
@@ -112,7 +113,9 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &archptr->levlnbr) != 1) {
+  if ((intLoad (stream, &archptr->levlnbr) != 1) ||
+      (archptr->levlnbr < 0)                     ||
+      (archptr->levlnbr > ((ANUMMAX - 1) / 2))) {
     errorPrint ("archTleafArchLoad: bad input (1)");
     return     (1);
   }
@@ -125,15 +128,18 @@ FILE * restrict const       stream)
   archptr->linktab[-1] = 0;                       /* Dummy slot for for level-0 communication */
   archptr->permtab     = NULL;                    /* Assume no permutation array              */
 
-  for (levlnum = 0, sizeval = 1; levlnum < archptr->levlnbr; levlnum ++) {
+  for (levlnum = 0, sizeval = 1, linksum = 0; levlnum < archptr->levlnbr; levlnum ++) {
     if ((intLoad (stream, &archptr->sizetab[levlnum]) != 1) ||
         (intLoad (stream, &archptr->linktab[levlnum]) != 1) ||
         (archptr->sizetab[levlnum] < 2)                     ||
-        (archptr->linktab[levlnum] < 1)) {
+        (archptr->linktab[levlnum] < 1)                     ||
+        (archptr->sizetab[levlnum] > (ANUMMAX / sizeval))   || /* If number of terminals overflows */
+        (archptr->linktab[levlnum] > (ANUMMAX - linksum))) { /* If largest distance overflows      */
       errorPrint ("archTleafArchLoad: bad input (2)");
       return (1);
     }
     sizeval *= archptr->sizetab[levlnum];
+    linksum += archptr->linktab[levlnum];
   }
   archptr->termnbr = sizeval;
 
@@ -679,6 +685,8 @@ ArchTleaf * restrict const  archptr,
 FILE * restrict const       stream)
 {
   Anum                permnum;
+  Anum                levlnum;
+  Anum                sizeval;
 
   if (archTleafArchLoad (archptr, stream) != 0)   /* Read tree part */
     return (1);
@@ -689,51 +697,37 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-#ifdef SCOTCH_DEBUG_ARCH2
-  if (archptr->permnbr != 1) {                    /* Valid empty permutation is of size 1 */
-    Anum                levlnum;
-    Anum                sizeval;
-
-    for (levlnum = archptr->levlnbr - 1, sizeval = archptr->sizetab[levlnum];
-         sizeval != archptr->permnbr; levlnum --, sizeval *= archptr->sizetab[levlnum]) {
-      if (levlnum < 0) {
-        errorPrint ("archLtleafArchLoad: permutation size does not match level boundaries");
-        return     (1);
-      }
-    }
+  for (levlnum = archptr->levlnbr, sizeval = 1;   /* Valid empty permutation is of size 1 */
+       (sizeval < archptr->permnbr) && (levlnum > 0); )
+    sizeval *= archptr->sizetab[-- levlnum];
+  if (sizeval != archptr->permnbr) {
+    errorPrint ("archLtleafArchLoad: permutation size does not match level boundaries");
+    return     (1);
   }
-#endif /* SCOTCH_DEBUG_ARCH2 */
 
   if ((archptr->permtab = memAlloc (archptr->permnbr * 2 * sizeof (Anum))) == NULL) { /* TRICK: space for peritab too */
     errorPrint ("archLtleafArchLoad: out of memory");
     return     (1);
   }
 
-  for (permnum = 0; permnum < archptr->permnbr; permnum ++) {
-#ifdef SCOTCH_DEBUG_ARCH2
-    Anum                permtmp;
-#endif /* SCOTCH_DEBUG_ARCH2 */
+  archptr->peritab = archptr->permtab + archptr->permnbr;
+  for (permnum = 0; permnum < archptr->permnbr; permnum ++) /* No inverse indices yet */
+    archptr->peritab[permnum] = -1;
 
+  for (permnum = 0; permnum < archptr->permnbr; permnum ++) {
     if ((intLoad (stream, &archptr->permtab[permnum]) != 1) ||
         (archptr->permtab[permnum] < 0)                     ||
         (archptr->permtab[permnum] >= archptr->permnbr)) {
       errorPrint ("archLtleafArchLoad: bad input (2)");
       return (1);
     }
-#ifdef SCOTCH_DEBUG_ARCH2
-    for (permtmp = 0; permtmp < permnum; permtmp ++) {
-      if (archptr->permtab[permtmp] == archptr->permtab[permnum]) {
-        errorPrint ("archLtleafArchLoad: duplicate permutation index");
-        return     (1);
-      }
+    if (archptr->peritab[archptr->permtab[permnum]] >= 0) {
+      errorPrint ("archLtleafArchLoad: duplicate permutation index");
+      return     (1);
     }
-#endif /* SCOTCH_DEBUG_ARCH2 */
+    archptr->peritab[archptr->permtab[permnum]] = permnum; /* Build inverse permutation */
   }
 
-  archptr->peritab = archptr->permtab + archptr->permnbr;
-  for (permnum = 0; permnum < archptr->permnbr; permnum ++) /* Build inverse permutation */
-    archptr->peritab[archptr->permtab[permnum]] = permnum;
-
   return (0);
 }
 
-- 
2.43.0


From 1ce32853abed41366961b29f597016cdcadaac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 123/134] fix: loading a corrupted decomposition-defined
 architecture file yields inconsistent domains, leaks or reads out of bounds

---
 src/libscotch/arch_deco.c  | 106 ++++++++++++++++++++++++++++++++----
 src/libscotch/arch_deco2.c | 107 ++++++++++++++++++++++++++++++++++---
 2 files changed, 196 insertions(+), 17 deletions(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index c048eaf..ad0b5be 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -87,6 +87,82 @@
 /*                                     */
 /***************************************/
 
+/* This routine checks the consistency of
+** the domain array of a compiled decomposition.
+** It returns:
+** - 0   : if the domain array is consistent.
+** - !0  : on error.
+*/
+
+static
+int
+archDecoArchCheck (
+const ArchDeco * const          archptr)
+{
+  Anum * restrict     labltab;                    /* Array of terminal domain labels */
+  Anum                lablnbr;
+  Anum                lablnum;
+  Anum                domnnum;
+  int                 o;
+
+  const ArchDecoVert * const  domverttab = archptr->domverttab;
+  const Anum                  domvertnbr = archptr->domvertnbr;
+
+  if (domverttab[0].size != archptr->domtermnbr)  /* If root domain does not hold all terminals */
+    return (1);
+
+  if ((labltab = memAlloc (archptr->domtermnbr * sizeof (Anum))) == NULL) {
+    errorPrint ("archDecoArchCheck: out of memory");
+    return     (1);
+  }
+
+  o = 0;
+  for (domnnum = lablnbr = 0; domnnum < domvertnbr; domnnum ++) { /* For all domains */
+    Anum                son0num;
+    Anum                son1num;
+    Anum                son0siz;
+    Anum                son1siz;
+
+    son0num = 2 * domnnum + 1;
+    son1num = son0num + 1;
+    son0siz = (son0num < domvertnbr) ? domverttab[son0num].size : 0;
+    son1siz = (son1num < domvertnbr) ? domverttab[son1num].size : 0;
+
+    if (domverttab[domnnum].size <= 1) {          /* If domain is a terminal or is not used */
+      if ((domverttab[domnnum].size < 0) ||       /* It should not have sons                */
+          (son0siz != 0) || (son1siz != 0))
+        break;
+      if (domverttab[domnnum].size == 1) {
+        if ((domverttab[domnnum].labl < 0) ||     /* If invalid terminal */
+            (domverttab[domnnum].wght < 0) ||
+            (lablnbr >= archptr->domtermnbr))
+          break;
+        labltab[lablnbr ++] = (Anum) domverttab[domnnum].labl;
+      }
+    }
+    else {                                        /* Domain should be the union of its two sons */
+      if ((son0siz < 1) || (son1siz < 1)                           ||
+          (son0siz != (domverttab[domnnum].size - son1siz))        ||
+          (domverttab[domnnum].wght != (domverttab[son0num].wght + domverttab[son1num].wght)) ||
+          (domverttab[domnnum].labl != MIN (domverttab[son0num].labl, domverttab[son1num].labl)))
+        break;
+    }
+  }
+  if ((domnnum < domvertnbr) || (lablnbr != archptr->domtermnbr)) /* If inconsistent domain data */
+    o = 1;
+  else {
+    intSort1asc1 (labltab, lablnbr);
+    for (lablnum = 1; lablnum < lablnbr; lablnum ++) { /* Terminal labels should all be different */
+      if (labltab[lablnum] == labltab[lablnum - 1])
+        o = 1;
+    }
+  }
+
+  memFree (labltab);
+
+  return (o);
+}
+
 /* This routine builds a compiled
 ** decomposition-defined architecture
 ** from the raw terminal tables that are
@@ -157,12 +233,11 @@ const Anum * const              termdisttab)      /*+ Terminal distance map
       archptr->domverttab[j].wght += archptr->domverttab[i].wght;
     }
   }
-#ifdef SCOTCH_DEBUG_ARCH1
-  if (archptr->domverttab[0].size != termdomnbr) { /* If incorrect accumulation */
-    errorPrint ("archDecoArchBuild2: bad terminal count");
-    return     (1);
+  if (archDecoArchCheck (archptr) != 0) {         /* If inconsistent set of terminals */
+    errorPrint       ("archDecoArchBuild2: inconsistent domain data");
+    archDecoArchFree (archptr);
+    return           (1);
   }
-#endif /* SCOTCH_DEBUG_ARCH1 */
 
   memSet (archptr->domdisttab, 0, termdommax * (termdommax - 1) * sizeof (Anum) / 2);
                                                   /* Assume distance is not known   */
@@ -226,6 +301,7 @@ FILE * restrict const       stream)
   ArchDecoTermVert * restrict termverttab;        /* Table of terminal vertex data                    */
   Anum * restrict             termdisttab;        /* Table of terminal-to-terminal distances          */
   INT                         i, j;
+  int                         o;
 
 #ifdef SCOTCH_DEBUG_ARCH1
   if ((sizeof (ArchDeco)    > sizeof (ArchDummy)) ||
@@ -250,7 +326,8 @@ FILE * restrict const       stream)
   if ((intLoad (stream, &termdomnbr) != 1) ||     /* Proceed with type-0 and type-1 architectures */
       (intLoad (stream, &termdommax) != 1) ||
       (termdommax < termdomnbr)            ||
-      (termdomnbr < 1)) {
+      (termdomnbr < 1)                     ||
+      ((termdommax - 1) > (ANUMMAX / termdommax))) { /* If size of distance array overflows */
     errorPrint ("archDecoArchLoad: bad input (2)");
     return     (1);
   }
@@ -286,7 +363,8 @@ FILE * restrict const       stream)
       INT                 termdistval;
 
       if ((intLoad (stream, &termdistval) != 1) ||
-          (termdistval < 1)) {
+          (termdistval < 1) ||
+          (termdistval > ((ANUMMAX - 2) / 4))) {  /* If average of distances may overflow */
         errorPrint       ("archDecoArchLoad: bad input (4)");
         memFree          (termverttab);           /* Free group leader */
         return           (1);
@@ -294,9 +372,12 @@ FILE * restrict const       stream)
       termdisttab[i] = (Anum) termdistval;
     }
 
-    archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
+    o = archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
 
     memFree (termverttab);                        /* Free group leader */
+
+    if (o != 0)
+      return (1);
   }
   else {                                          /* If it is a compiled decomposition */
     if (memAllocGroup ((void **) (void *)
@@ -329,13 +410,20 @@ FILE * restrict const       stream)
     for (i = 0; i < (termdommax * (termdommax - 1)) / 2; i ++) { /* Read distance array */
       INT                 domdistval;
 
-      if (intLoad (stream, &domdistval) != 1) {
+      if ((intLoad (stream, &domdistval) != 1) ||
+          (domdistval < 0)) {
         errorPrint       ("archDecoArchLoad: bad input (6)");
         archDecoArchFree (archptr);
         return           (1);
       }
       archptr->domdisttab[i] = domdistval;
     }
+
+    if (archDecoArchCheck (archptr) != 0) {
+      errorPrint       ("archDecoArchLoad: inconsistent domain data");
+      archDecoArchFree (archptr);
+      return           (1);
+    }
   }
 
   return (0);
diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 06de5de..6072b1f 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -97,6 +97,98 @@ ArchDeco2 * const           archptr)
   return (0);
 }
 
+/* This routine checks the consistency of the
+** domain tree and of the level data of a version-2,
+** decomposition-defined architecture.
+** It returns:
+** - 0   : if the architecture is consistent.
+** - !0  : on error.
+*/
+
+static
+int
+archDeco2ArchCheck (
+const ArchDeco2 * const     archptr)
+{
+  Anum                domnnum;
+  Anum                termnum;
+  Anum                levlnum;
+
+  const ArchSubTerm * restrict const    termtab = archptr->termtab;
+  const ArchSubData * restrict const    domntab = archptr->domntab;
+  const ArchDeco2Data * restrict const  doextab = archptr->doextab;
+  const ArchDeco2Levl * restrict const  levltab = archptr->levltab;
+  const Anum * restrict const           vnumtab = archptr->vnumtab;
+
+  for (levlnum = 0; levlnum <= archptr->levlmax; levlnum ++) {
+    if ((levltab[levlnum].grafdat.baseval != 0) || /* Vertex numbers are not based */
+        ((levlnum > 0) &&                         /* Coarse vertices must have traversal costs */
+         (levltab[levlnum].grafdat.velotax == NULL)) ||
+        ((levlnum < doextab[0].levlnum) &&        /* Distinct domains cannot be same vertex */
+         (levltab[levlnum].grafdat.vertnbr < 2)))
+      return (1);
+  }
+
+  if ((domntab[0].dfatidx != -1) ||               /* First domain should be root of tree */
+      (domntab[0].domnsiz != archptr->termnbr))
+    return (1);
+
+  for (domnnum = 0; domnnum < archptr->domnnbr; domnnum ++) {
+    Anum                dfatidx;
+    Anum                dsubidx0;
+    Anum                dsubidx1;
+    Anum                levlfat;
+    Anum                vnumidx;
+
+    dfatidx = domntab[domnnum].dfatidx;
+    if (domnnum > 0) {
+      if ((dfatidx < 0) ||                        /* All other domains should be sons of their father */
+          ((domntab[dfatidx].dsubidx[0] != domnnum) &&
+           (domntab[dfatidx].dsubidx[1] != domnnum)))
+        return (1);
+      levlfat = doextab[dfatidx].levlnum;         /* Father should appear at coarser level only */
+      if (doextab[domnnum].levlnum >= levlfat)
+        return (1);
+    }
+    else
+      levlfat = archptr->levlmax + 1;
+
+    dsubidx0 = domntab[domnnum].dsubidx[0];
+    dsubidx1 = domntab[domnnum].dsubidx[1];
+    if ((dsubidx0 < 0) || (dsubidx1 < 0)) {       /* If domain is a terminal */
+      if ((dsubidx0 >= 0) || (dsubidx1 >= 0) ||
+          (domntab[domnnum].domnsiz != 1)    ||
+          (termtab[domntab[domnnum].termnum].domnidx != domnnum))
+        return (1);
+    }
+    else {
+      if ((dsubidx0 == dsubidx1)                     ||
+          (domntab[dsubidx0].dfatidx != domnnum)     ||
+          (domntab[dsubidx1].dfatidx != domnnum)     ||
+          (domntab[dsubidx0].domnsiz != (domntab[domnnum].domnsiz - domntab[dsubidx1].domnsiz)) ||
+          (domntab[dsubidx0].domnwgt != (domntab[domnnum].domnwgt - domntab[dsubidx1].domnwgt)) ||
+          (MIN (domntab[dsubidx0].termnum, domntab[dsubidx1].termnum) != domntab[domnnum].termnum))
+        return (1);
+    }
+
+    for (levlnum = doextab[domnnum].levlnum, vnumidx = doextab[domnnum].vnumidx; /* Vertex numbers of domain until level of father */
+         levlnum < levlfat; levlnum ++, vnumidx --) {
+      if ((vnumidx < 0) ||
+          (vnumtab[vnumidx] >= levltab[levlnum].grafdat.vertnbr))
+        return (1);
+    }
+  }
+
+  for (termnum = 0; termnum < archptr->termnbr; termnum ++) { /* Every terminal should have its domain */
+    domnnum = termtab[termnum].domnidx;
+    if ((domntab[domnnum].domnsiz != 1) ||
+        (domntab[domnnum].termnum != termnum))
+      return (1);
+  }
+
+  return (0);
+}
+
 /* This routine loads and computes the version-2,
 ** decomposition-defined architecture tables.
 ** It is called by archDecoArchLoad.
@@ -137,7 +229,9 @@ FILE * restrict const       stream)
   if ((intLoad (stream, &archptr->termnbr) != 1) ||
       (intLoad (stream, &archptr->levlmax) != 1) || /* Read levlnbr, not lvlmax */
       (intLoad (stream, &archptr->vnumnbr) != 1) ||
-      (archptr->termnbr < 1) ||
+      (archptr->termnbr < 1)             ||
+      (archptr->termnbr > (ANUMMAX / 2)) ||       /* If number of domains overflows */
+      (archptr->vnumnbr < 1)             ||
       (archptr->levlmax <= 0)) {
     errorPrint ("archDeco2ArchLoad2: bad input (1)");
     return     (1);
@@ -247,19 +341,16 @@ FILE * restrict const       stream)
     }
   }
 
-#ifdef SCOTCH_DEBUG_ARCH1
-  for (domnnum = 0; domnnum < domnnbr; domnnum ++) {
-    if (doextab[domnnum].vnumidx > vnumnbr) {
-      errorPrint ("archDeco2ArchLoad2: bad input (8)");
-      goto abort;
-    }
+  if (archDeco2ArchCheck (archptr) != 0) {
+    errorPrint ("archDeco2ArchLoad2: bad input (8)");
+    goto abort;
   }
-#endif /* SCOTCH_DEBUG_ARCH1 */
 
   return (0);
 
 abort:
   archDeco2ArchFree (archptr);
+  memSet (archptr, 0, sizeof (ArchDeco2));        /* Nothing more to be freed */
   return (1);
 }
 
-- 
2.43.0


From 605f78afe9d17b8273053ebbe54aba26c4ec29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 124/134] fix: loading a graph file with negative or
 overflowing sizes, degrees, labels or arc ends reads and writes out of bounds

---
 src/libscotch/graph_io.c      | 22 ++++++++++++++--------
 src/libscotch/graph_io_scot.c |  2 ++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 63811fb..e594d82 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -123,16 +123,19 @@ const GraphFlag             flagval)              /* Graph loading flags
       (intLoad (stream, &grafptr->edgenbr) != 1) ||
       (intLoad (stream, &baseadj)          != 1) ||
       (intLoad (stream, &propval)          != 1) ||
+      (baseadj < 0)                              ||
       (propval < 0)                              ||
       (propval > 111)) {
     errorPrint ("graphLoad: bad input (2)");
     return (1);
   }
-  if (grafptr->vertnbr < 0) {
+  if ((grafptr->vertnbr < 0) ||
+      (grafptr->vertnbr >= (GNUMMAX - MAX (baseadj, baseval)))) { /* Vertex indices should not overflow */
     errorPrint ("graphLoad: invalid number of vertices");
     return (1);
   }
   if ((grafptr->edgenbr < 0) ||
+      (grafptr->edgenbr >= (GNUMMAX - MAX (baseadj, baseval))) || /* Edge indices should not overflow */
       ((grafptr->edgenbr & 1) != 0)) {
     errorPrint ("graphLoad: invalid number of edges");
     return (1);
@@ -191,7 +194,8 @@ const GraphFlag             flagval)              /* Graph loading flags
     if (grafptr->vlbltax != NULL) {               /* If must read label               */
       Gnum                vlblval;                /* Value where to read vertex label */
 
-      if (intLoad (stream, &vlblval) != 1) {      /* Read label data */
+      if ((intLoad (stream, &vlblval) != 1) ||    /* Read label data */
+          (vlblval < 0)) {
         errorPrint ("graphLoad: bad input (3)");
         graphFree  (grafptr);
         return (1);
@@ -212,7 +216,8 @@ const GraphFlag             flagval)              /* Graph loading flags
         velosum                  +=
         grafptr->velotax[vertnum] = veloval;
     }
-    if (intLoad (stream, &degrval) != 1) {        /* Read vertex degree */
+    if ((intLoad (stream, &degrval) != 1) ||      /* Read vertex degree */
+        (degrval < 0)) {
       errorPrint ("graphLoad: bad input (5)");
       graphFree  (grafptr);
       return (1);
@@ -221,12 +226,12 @@ const GraphFlag             flagval)              /* Graph loading flags
       degrmax = degrval;
 
     grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array */
-    degrval += edgenum;
-    if (degrval > edgennd) {                      /* Check if edge array overflows */
+    if (degrval > (edgennd - edgenum)) {          /* Check if edge array overflows */
       errorPrint ("graphLoad: invalid arc count (1)");
       graphFree  (grafptr);
       return (1);
     }
+    degrval += edgenum;
 
     for ( ; edgenum < degrval; edgenum ++) {
       if (proptab[1] != 0) {                      /* If must read edge load        */
@@ -292,12 +297,12 @@ const Gnum * const          vlbltax)
   Gnum                vertnum;                    /* Number of current vertex        */
   Gnum * restrict     indxtab;                    /* Vertex label/number index table */
 
-  if ((indxtab = (Gnum *) memAlloc ((vlblmax + 1) * sizeof (Gnum))) == NULL) {
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
     errorPrint  ("graphLoad2: out of memory");
     return (1);
   }
 
-  memSet (indxtab, ~0, (vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
   for (vertnum = baseval; vertnum < vertnnd; vertnum ++) {
     if (indxtab[vlbltax[vertnum]] != ~0) {        /* If vertex label already used */
       errorPrint  ("graphLoad2: duplicate vertex label");
@@ -310,7 +315,8 @@ const Gnum * const          vlbltax)
     Gnum                edgenum;                  /* Number of current edge */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
-      if (edgetax[edgenum] > vlblmax) {           /* If invalid edge end number */
+      if ((edgetax[edgenum] < 0) ||               /* If invalid edge end number */
+          (edgetax[edgenum] > vlblmax)) {
         errorPrint ("graphLoad2: invalid arc end number (1)");
         memFree    (indxtab);
         return (1);
diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index cce7389..9956126 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -100,6 +100,8 @@ const char * const          dataptr)              /* No use           */
 
   if ((intLoad (filegeoptr, &dimnnbr) != 1) ||    /* Read type and number of geometry items */
       (intLoad (filegeoptr, &coornbr) != 1) ||
+      (coornbr < 0)                         ||
+      (coornbr > (GNUMMAX / 3))             ||    /* Coordinate indices should not overflow */
       (dimnnbr < 1)                         ||
       (dimnnbr > 3)) {
     errorPrint ("graphGeomLoadScot: bad input (1)");
-- 
2.43.0


From 251abff6e99b0654c3eba20b65c9b545db749e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 125/134] fix: loading a Chaco graph file with too many arcs
 writes out of bounds and a wrong number of arcs is not detected

---
 src/libscotch/graph_io_chac.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 6313c80..eeec798 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -112,7 +112,10 @@ const char * const          dataptr)              /* No use           */
       (sscanf (chalinetab, "%ld%ld%ld",
                &chavertnbr,
                &chaedgenbr,
-               &chaflagval) < 2)) {
+               &chaflagval) < 2) ||
+      (chavertnbr < 0) || (chavertnbr >= (GNUMMAX - 1)) || /* Vertex and edge indices should not overflow */
+      (chaedgenbr < 0) || (chaedgenbr >= (GNUMMAX / 2)) ||
+      (chaflagval < 0)) {
     errorPrint ("graphGeomLoadChac: bad input (1)");
     return     (1);
   }
@@ -213,6 +216,11 @@ const char * const          dataptr)              /* No use           */
 
       ungetc (chabuffcar, filesrcptr);            /* Else put character back to stream */
 
+      if (edgenum > grafptr->edgenbr) {           /* Test edge array overflow */
+        errorPrint ("graphGeomLoadChac: bad input (5)");
+        graphFree  (grafptr);
+        return     (1);
+      }
       if ((intLoad (filesrcptr, &chavertnum) != 1) ||
           (chavertnum < 1)                         ||
           (chavertnum > chavertnbr)                ||
@@ -223,11 +231,6 @@ const char * const          dataptr)              /* No use           */
         graphFree  (grafptr);
         return     (1);
       }
-      if (edgenum > (grafptr->edgenbr + 1)) { /* Test edge array overflow */
-        errorPrint ("graphGeomLoadChac: bad input (5)");
-        graphFree  (grafptr);
-        return     (1);
-      }
       grafptr->edgetax[edgenum ++] = chavertnum;
     }
 
@@ -235,6 +238,11 @@ const char * const          dataptr)              /* No use           */
       degrmax = edgenum - grafptr->verttax[vertnum];
   }
   grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array */
+  if (edgenum != (grafptr->edgenbr + 1)) {        /* If number of arcs is not the one announced */
+    errorPrint ("graphGeomLoadChac: bad input (6)");
+    graphFree  (grafptr);
+    return     (1);
+  }
   grafptr->velosum = velosum;
   grafptr->edlosum = edlosum;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From 558f3ce28fc67b22d463ccba0d743ec404666d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 126/134] fix: loading a truncated or corrupted Harwell-Boeing
 file hangs or writes out of bounds, and offset line formats are refused

---
 src/libscotch/graph_io_habo.c | 34 +++++++++++++++++++++-------
 src/libscotch/mesh_io_habo.c  | 42 ++++++++++++++++++++++++++---------
 2 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index b961f0e..3eb46bb 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -184,9 +184,15 @@ const char * const          dataptr)              /* Tag value        */
     return (1);
   }
 
+  if ((habcolnbr < 0) || (habcolnbr >= (GNUMMAX - 1)) || /* Vertex and edge indices should not overflow */
+      (habnzrnbr < 0) || (habnzrnbr >= (GNUMMAX / 2))) {
+    errorPrint ("graphGeomLoadHabo: invalid matrix size");
+    return (1);
+  }
+
   if (((grafptr->verttax = (Gnum *) memAlloc ((habcolnbr + 1) * sizeof (Gnum))) == NULL) ||
       (memAllocGroup ((void **) (void *)
-                      &grafptr->edgetax, (size_t) (habnzrnbr * 2   * sizeof (Gnum)),
+                      &grafptr->edgetax, (size_t) ((size_t) habnzrnbr * 2 * sizeof (Gnum)),
                       &habcoltab,        (size_t) ((habcolnbr + 1) * sizeof (Gnum)),
                       &habnzrtab,        (size_t) (habnzrnbr       * sizeof (Gnum)), NULL) == NULL)) {
     errorPrint ("graphGeomLoadHabo: out of memory (1)");
@@ -219,16 +225,16 @@ const char * const          dataptr)              /* Tag value        */
     if (habvalnum ++ >= habcolfmt.datanbr) {      /* If all useful data read from line */
       habvalnum = 1;                              /* Start at beginning of new line    */
 
-      while ((c != '\n') && (c != '\r'))          /* Eat up all remaining spaces */
+      while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
         c = getc (filesrcptr);
       while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
-      for (habcolidx = 0; habcolidx < habcolfmt.strtnbr; habcolidx ++) /* Get start of line */
+      for (habcolidx = 0; (habcolidx < habcolfmt.strtnbr) && (c != EOF); habcolidx ++) /* Get start of line */
         c = getc (filesrcptr);
     }
 
     habcolval = (c == ' ') ? 0 : (c - '0');
-    for (habcolidx = 1; habcolidx < habcolfmt.datalen; habcolidx ++) {
+    for (habcolidx = 1; (habcolidx < habcolfmt.datalen) && (c != EOF); habcolidx ++) {
       if ((c = getc (filesrcptr)) != ' ')
         habcolval = habcolval * 10 + c - '0';
     }
@@ -237,6 +243,13 @@ const char * const          dataptr)              /* Tag value        */
       graphFree  (grafptr);
       return (1);
     }
+    if ((habcolval < 1)             ||            /* Column indices should be in range and increase */
+        (habcolval > habnzrnbr + 1) ||
+        ((habcolnum == 0) ? (habcolval != 1) : (habcolval < habcoltab[habcolnum - 1]))) {
+      errorPrint ("graphGeomLoadHabo: bad input (9)");
+      graphFree  (grafptr);
+      return (1);
+    }
     habcoltab[habcolnum] = habcolval;
   }
   if (habcoltab[habcolnbr] != (Gnum) habnzrnbr + 1) {
@@ -257,15 +270,15 @@ const char * const          dataptr)              /* Tag value        */
       if (habvalnum ++ >= habnzrfmt.datanbr) {    /* If all useful data read from line */
         habvalnum = 1;                            /* Start at beginning of new line    */
 
-        while ((c != '\n') && (c != '\r'))        /* Eat up all remaining spaces */
+        while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
           c = getc (filesrcptr);
         while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
-        for (habnzridx = 0; habnzridx < habnzrfmt.strtnbr; habnzridx ++) /* Get start of line */
+        for (habnzridx = 0; (habnzridx < habnzrfmt.strtnbr) && (c != EOF); habnzridx ++) /* Get start of line */
           c = getc (filesrcptr);
       }
       habnzrval = (c == ' ') ? 0 : (c - '0');
-      for (habnzridx = 1; habnzridx < habnzrfmt.datalen; habnzridx ++) {
+      for (habnzridx = 1; (habnzridx < habnzrfmt.datalen) && (c != EOF); habnzridx ++) {
         if ((c = getc (filesrcptr)) != ' ')
           habnzrval = habnzrval * 10 + c - '0';
       }
@@ -274,6 +287,11 @@ const char * const          dataptr)              /* Tag value        */
         graphFree  (grafptr);
         return (1);
       }
+      if ((habnzrval < 1) || (habnzrval > habcolnbr)) { /* Row index should be in range */
+        errorPrint ("graphGeomLoadHabo: bad input (10)");
+        graphFree  (grafptr);
+        return (1);
+      }
       habnzrtab[habnzrnum] = habnzrval;
       if (habnzrval != vertnum) {                 /* If not loop edge      */
         grafptr->verttax[vertnum] ++;             /* Account for arc       */
@@ -404,7 +422,7 @@ const char * const                  dataptr)      /* Format string       */
     for (charptr ++; *charptr != '\0'; charptr ++) {
       if (*charptr == '\0')                       /* Error if end of string */
         return (1);
-      if (! isdigit (*charptr < '0'))
+      if (! isdigit ((int) (unsigned char) *charptr))
         break;
       number = number * 10 + *charptr - '0';
     }
diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index 46bf9de..83f7239 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -91,8 +91,11 @@ const char * const          dataptr)              /* No use           */
   Gnum              degrmax;                      /* Maximum degree                            */
   int               c;
 
-  if (((habmattag = atol (dataptr)) == 0) &&      /* Get tag value */
-      (dataptr[0] != '0') && (dataptr[0] != '\0')) {
+  habmattag = 0;                                  /* Read first matrix by default */
+  if ((dataptr != NULL)                   &&      /* If tag value provided */
+      (dataptr[0] != '\0')                &&
+      ((habmattag = atol (dataptr)) == 0) &&      /* Get tag value */
+      (dataptr[0] != '0')) {
     errorPrint ("meshGeomLoadHabo: bad input (1)");
     return     (1);
   }
@@ -125,8 +128,9 @@ const char * const          dataptr)              /* No use           */
     habvarnbr = (Gnum) atol (&habmatbuf[2][14]);  /* NVAR */
     habmatbuf[2][14] = '\0';
 
-    if ((c = sscanf (habmatbuf[3], "(%*d%*[Ii]%d) (%*d%*[Ii]%d)",
-                     &habcolsiz, &habnzrsiz)) != 2) {
+    if (((c = sscanf (habmatbuf[3], "(%*d%*[Ii]%d) (%*d%*[Ii]%d)",
+                     &habcolsiz, &habnzrsiz)) != 2) ||
+        (habcolsiz < 1) || (habnzrsiz < 1)) {
       errorPrint ("meshGeomLoadHabo: bad input (3, %d)", c);
       return     (1);
     }
@@ -161,6 +165,13 @@ const char * const          dataptr)              /* No use           */
     return     (1);
   }
 
+  if ((habeltnbr < 0) || (habvarnbr < 0) || (habvixnbr < 0) ||
+      (habeltnbr >= (GNUMMAX - 1 - habvarnbr))  || /* Vertex and edge indices should not overflow */
+      (habvixnbr >= ((GNUMMAX - 1) / 2))) {
+    errorPrint ("meshGeomLoadHabo: invalid matrix size");
+    return     (1);
+  }
+
   if (((meshptr->verttax = (Gnum *) memAlloc ((habeltnbr + habvarnbr + 1) * sizeof (Gnum))) == NULL) ||
       ((meshptr->edgetax = (Gnum *) memAlloc (habvixnbr * 2               * sizeof (Gnum))) == NULL)) {
     errorPrint ("meshGeomLoadHabo: out of memory (1)");
@@ -185,6 +196,7 @@ const char * const          dataptr)              /* No use           */
   meshptr->vnodnnd = meshptr->velmbas;
   meshptr->velosum = habeltnbr;
   meshptr->vnlosum = habvarnbr;
+  meshptr->veisnbr = 0;                           /* No isolated elements found yet */
 
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
     Gnum              habcolval;                  /* Current column value                                                   */
@@ -192,7 +204,7 @@ const char * const          dataptr)              /* No use           */
 
     while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ;
     habcolval = (c == ' ') ? 0 : (c - '0');
-    for (habcolidx = 1; habcolidx < habcolsiz; habcolidx ++) {
+    for (habcolidx = 1; (habcolidx < habcolsiz) && (c != EOF); habcolidx ++) {
       if ((c = getc (filesrcptr)) != ' ')
         habcolval = habcolval * 10 + c - '0';
     }
@@ -201,14 +213,19 @@ const char * const          dataptr)              /* No use           */
       meshFree   (meshptr);
       return     (1);
     }
-#ifdef SCOTCH_DEBUG_MESH2
-    if ((habcolval < 1) || (habcolval > (habvixnbr + 1))) {
+    if ((habcolval < 1) || (habcolval > (habvixnbr + 1)) || /* Element indices should be in range and increase */
+        ((velmnum == meshptr->velmbas)
+         ? (habcolval != 1)
+         : ((habcolval + habvixnbr) < meshptr->verttax[velmnum - 1]))) {
       errorPrint ("meshGeomLoadHabo: bad input (7)");
+      meshFree   (meshptr);
       return     (1);
     }
-#endif /* SCOTCH_DEBUG_MESH2 */
 
     meshptr->verttax[velmnum] = habcolval + habvixnbr;
+    if ((velmnum > meshptr->velmbas) &&           /* If previous element is isolated */
+        (meshptr->verttax[velmnum] == meshptr->verttax[velmnum - 1]))
+      meshptr->veisnbr ++;                        /* Count it */
   }
   if (meshptr->verttax[velmnum - 1] != (habvixnbr + habvixnbr + 1)) {
     errorPrint ("meshGeomLoadHabo: bad input (8)");
@@ -224,7 +241,7 @@ const char * const          dataptr)              /* No use           */
 
     while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ;
     habnodval = (c == ' ') ? 0 : (c - '0');
-    for (habnzridx = 1; habnzridx < habnzrsiz; habnzridx ++) {
+    for (habnzridx = 1; (habnzridx < habnzrsiz) && (c != EOF); habnzridx ++) {
       if ((c = getc (filesrcptr)) != ' ')
         habnodval = habnodval * 10 + c - '0';
     }
@@ -233,12 +250,11 @@ const char * const          dataptr)              /* No use           */
       meshFree   (meshptr);
       return     (1);
     }
-#ifdef SCOTCH_DEBUG_MESH2
     if ((habnodval < 1) || (habnodval > habvarnbr)) {
       errorPrint ("meshGeomLoadHabo: bad input (10)");
+      meshFree   (meshptr);
       return     (1);
     }
-#endif /* SCOTCH_DEBUG_MESH2 */
     meshptr->edgetax[edgenum] = habnodval;
     meshptr->verttax[habnodval] ++;
   }
@@ -257,6 +273,7 @@ const char * const          dataptr)              /* No use           */
 #ifdef SCOTCH_DEBUG_MESH2
   if (edgesum != meshptr->verttax[meshptr->velmbas]) {
     errorPrint ("meshGeomLoadHabo: internal error (1)");
+    meshFree   (meshptr);
     return     (1);
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
@@ -273,10 +290,12 @@ const char * const          dataptr)              /* No use           */
 #ifdef SCOTCH_DEBUG_MESH2
       if ((vnodnum < 1) || (vnodnum > habvarnbr)) {
         errorPrint ("meshGeomLoadHabo: internal error (2)");
+        meshFree   (meshptr);
         return     (1);
       }
       if (meshptr->verttax[vnodnum] > habvixnbr) {
         errorPrint ("meshGeomLoadHabo: internal error (3)");
+        meshFree   (meshptr);
         return     (1);
       }
 #endif /* SCOTCH_DEBUG_MESH2 */
@@ -298,6 +317,7 @@ const char * const          dataptr)              /* No use           */
 #ifdef SCOTCH_DEBUG_MESH2
   if (meshCheck (meshptr) != 0) {
     errorPrint ("meshGeomLoadHabo: inconsistent mesh data");
+    meshFree   (meshptr);
     return     (1);
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
-- 
2.43.0


From 510c9945b22b572c7a672140d872f3ee400f8306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 127/134] fix: loading a mesh file with labels or corrupted
 data frees unallocated arrays, because two mesh flags share the same value,
 and mixes up node and element labels

---
 src/libscotch/mesh.h    |  2 +-
 src/libscotch/mesh_io.c | 89 +++++++++++++++++++++++++++++++++++------
 2 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/src/libscotch/mesh.h b/src/libscotch/mesh.h
index 6bbc31c..16589a3 100644
--- a/src/libscotch/mesh.h
+++ b/src/libscotch/mesh.h
@@ -63,7 +63,7 @@
 #define MESHFREEVNUM                0x0008        /* Free vnumtab array        */
 #define MESHFREEOTHR                0x0010        /* Free all other arrays     */
 #define MESHFREETABS                0x001F        /* Free all mesh arrays      */
-#define MESHVERTGROUP               0x0010        /* All vertex arrays grouped */
+#define MESHVERTGROUP               0x0020        /* All vertex arrays grouped */
 
 /*+ The Mesh flag type. +*/
 
diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index bcbc9e0..524779e 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -66,6 +66,62 @@
 /*                                        */
 /******************************************/
 
+/* This routine replaces, in the adjacency of the
+** vertices of one kind, the labels of the vertices
+** of the other kind by their indices.
+** It returns:
+** - 0   : on success.
+** - !0  : on error.
+*/
+
+static
+int
+meshLoadRelabel (
+Mesh * restrict const       meshptr,              /* Mesh structure                                    */
+const Gnum                  vlblbas,              /* Start index of vertices which are referred to     */
+const Gnum                  vlblnnd,              /* After-last index of vertices which are referred to */
+const Gnum                  vertbas,              /* Start index of vertices to process                */
+const Gnum                  vertnnd,              /* After-last index of vertices to process           */
+const Gnum                  vlblmax)              /* Maximum vertex label number                       */
+{
+  Gnum * restrict     indxtab;                    /* Vertex label/number index table */
+  Gnum                vertnum;
+
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
+    errorPrint ("meshLoadRelabel: out of memory");
+    return     (1);
+  }
+
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+  for (vertnum = vlblbas; vertnum < vlblnnd; vertnum ++) {
+    if (indxtab[meshptr->vlbltax[vertnum]] != ~0) { /* If vertex label already used */
+      errorPrint ("meshLoadRelabel: duplicate vertex label");
+      memFree    (indxtab);
+      return     (1);
+    }
+    indxtab[meshptr->vlbltax[vertnum]] = vertnum; /* Set vertex number index */
+  }
+  for (vertnum = vertbas; vertnum < vertnnd; vertnum ++) {
+    Gnum                edgenum;
+
+    for (edgenum = meshptr->verttax[vertnum]; edgenum < meshptr->vendtax[vertnum]; edgenum ++) {
+      Gnum                edgeval;
+
+      edgeval = meshptr->edgetax[edgenum];
+      if ((edgeval < 0) || (edgeval > vlblmax) || (indxtab[edgeval] == ~0)) {
+        errorPrint ("meshLoadRelabel: invalid arc end number");
+        memFree    (indxtab);
+        return     (1);
+      }
+      meshptr->edgetax[edgenum] = indxtab[edgeval]; /* Replace label by number */
+    }
+  }
+
+  memFree (indxtab);                              /* Free index array */
+
+  return (0);
+}
+
 /* This routine loads a source mesh from
 ** the given stream.
 ** Edge loads, whenever present, are
@@ -122,8 +178,13 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (intLoad (stream, &propval)          != 1) ||
       (velmnbr < 0)                              ||
       (vnodnbr < 0)                              ||
+      (meshptr->edgenbr < 0)                     ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
+      (velmnbr > (GNUMMAX / 4))                  || /* Vertex and edge indices should not overflow */
+      (vnodnbr > (GNUMMAX / 4))                  ||
+      (MIN (velmbas, vnodbas) > (GNUMMAX / 4))   ||
+      (meshptr->edgenbr > (GNUMMAX / 2))         ||
       (propval < 0)                              ||
       (propval > 111)                            ||
       (((velmbas + velmnbr) != vnodbas) &&
@@ -163,7 +224,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       &meshptr->velotax, (size_t) ( velonbr          * sizeof (Gnum)), /* Allocate single array for both element and node vertices */
       &meshptr->edgetax, (size_t) ( meshptr->edgenbr * sizeof (Gnum)), NULL) == NULL) { /* Edge array grouped with vertex arrays   */
     errorPrint ("meshLoad: out of memory (1)");
-    meshFree   (meshptr);
+    memSet     (meshptr, 0, sizeof (Mesh));       /* Nothing to be freed */
     return     (1);
   }
   meshptr->verttax -= meshptr->baseval;
@@ -215,14 +276,15 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       Gnum                degrval;
 
       if (meshptr->vlbltax != NULL) {             /* If must read label */
-        if (intLoad (stream, &vlblval) != 1) {    /* Read label data    */
+        if ((intLoad (stream, &vlblval) != 1) ||  /* Read label data    */
+            (vlblval < 0)) {
           errorPrint ("meshLoad: bad input (3)");
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->vlbltax[vertnum] = vlblval + vertbas + baseadj; /* Adjust vertex label */
-        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label           */
-          vlblmax = meshptr->vlbltax[vertnum];
+        meshptr->vlbltax[vertnum] = vlblval;
+        if (vlblval > vlblmax)                    /* Get maximum vertex label */
+          vlblmax = vlblval;
       }
       if (proptab[2] != 0) {                      /* If must read vertex load */
         if ((intLoad (stream, &veloval) != 1) ||  /* Read vertex load data    */
@@ -236,7 +298,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         velotax[vertnum] = veloval;
         velosum += veloval;
       }
-      if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
+      if ((intLoad (stream, &degrval) != 1) ||    /* Read vertex degree */
+          (degrval < 0)) {
         errorPrint ("meshLoad: bad input (5)");
         meshFree   (meshptr);
         return     (1);
@@ -249,12 +312,12 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         meshptr->veisnbr ++;                      /* Count it */
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
-      degrval += edgenum;
-      if (degrval > edgennd) {                    /* Check if edge array overflows */
+      if (degrval > (edgennd - edgenum)) {        /* Check if edge array overflows */
         errorPrint ("meshLoad: invalid arc count (1)");
         meshFree   (meshptr);
         return     (1);
       }
+      degrval += edgenum;
 
       for ( ; edgenum < degrval; edgenum ++) {
         if (proptab[1] != 0) {                    /* If must read edge load        */
@@ -264,12 +327,14 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
             return     (1);
           }
         }
-        if (intLoad (stream, &edgeval) != 1) {    /* Read edge data */
+        if ((intLoad (stream, &edgeval) != 1) ||  /* Read edge data */
+            (edgeval < 0)                     ||
+            (edgeval > (GNUMMAX / 2))) {
           errorPrint ("meshLoad: bad input (7)");
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->edgetax[edgenum] = edgeval + edgeadj;
+        meshptr->edgetax[edgenum] = (meshptr->vlbltax != NULL) ? edgeval : (edgeval + edgeadj); /* Labels are not to be adjusted */
       }
     }
 
@@ -297,8 +362,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->degrmax = degrmax;
 
   if (meshptr->vlbltax != NULL) {                 /* If vertex label renaming necessary                 */
-    if (graphLoad2 (meshptr->baseval, vertnbr + meshptr->baseval, meshptr->verttax, /* Rename edge ends */
-                    meshptr->vendtax, meshptr->edgetax, vlblmax, meshptr->vlbltax) != 0) {
+    if ((meshLoadRelabel (meshptr, meshptr->vnodbas, meshptr->vnodnnd, meshptr->velmbas, meshptr->velmnnd, vlblmax) != 0) || /* Rename edge ends */
+        (meshLoadRelabel (meshptr, meshptr->velmbas, meshptr->velmnnd, meshptr->vnodbas, meshptr->vnodnnd, vlblmax) != 0)) {
       errorPrint ("meshLoad: cannot relabel vertices");
       meshFree   (meshptr);
       return     (1);
-- 
2.43.0


From 7f0572b7f8489a23d77be45bfef5eae781c0d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 128/134] fix: loading a null pseudo-random state makes the
 generator return the same value for ever

---
 src/libscotch/common_integer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/common_integer.c b/src/libscotch/common_integer.c
index 8dd059d..6fa829b 100644
--- a/src/libscotch/common_integer.c
+++ b/src/libscotch/common_integer.c
@@ -322,9 +322,10 @@ intRandLoad2 (
 IntRandState * restrict const statptr,            /*+ Random state to load +*/
 FILE * restrict const         stream)             /*+ Stream to read from  +*/
 {
-  if (fscanf (stream, "%" PRIu64 "%" PRIu64,
-              &statptr->randtab[0],
-              &statptr->randtab[1]) != 2) {
+  if ((fscanf (stream, "%" PRIu64 "%" PRIu64,
+               &statptr->randtab[0],
+               &statptr->randtab[1]) != 2) ||
+      ((statptr->randtab[0] | statptr->randtab[1]) == 0)) { /* Null state can never be left */
     errorPrint ("intRandLoad2: bad input");
     return     (2);
   }
-- 
2.43.0


From 89b34f8a6a115979d9245ac568e34a332f3fce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 129/134] fix: Matrix Market loader: indices based from 0,
 missing end of last line, long comments, dense format and sizes that overflow

---
 src/libscotch/graph_io_mmkt.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 2d89f68..43ad81b 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -98,7 +98,7 @@ const char * const          dataptr)              /* Fake base value  */
   Gnum                degrmax;
   char                linetab[1025];
   char *              lineptr;
-  char                c;
+  int                 c;
 
   baseval = 1;                                    /* Regular MatrixMarket indices start from 1 */
 
@@ -126,9 +126,14 @@ const char * const          dataptr)              /* Fake base value  */
     errorPrint ("graphGeomLoadMmkt: only matrix types supported");
     return (1);
   }
+  if (strstr (linetab + 14, "coordinate") == NULL) { /* Dense format has no index data */
+    errorPrint ("graphGeomLoadMmkt: only coordinate format supported");
+    return (1);
+  }
 
-  while ((c = fgetc (filesrcptr)) == '%') {       /* Skip additional comment lines */
-    if (fgets (linetab, 1025, filesrcptr) == NULL) {
+  while ((c = fgetc (filesrcptr)) == '%') {       /* Skip additional comment lines, whatever their length */
+    while (((c = fgetc (filesrcptr)) != '\n') && (c != EOF)) ;
+    if (c == EOF) {
       errorPrint ("graphGeomLoadMmkt: bad input (2)");
       return (1);
     }
@@ -145,6 +150,11 @@ const char * const          dataptr)              /* Fake base value  */
     errorPrint ("graphGeomLoadMmkt: not a square matrix");
     return     (1);
   }
+  if ((mrownbr < 0) || (mrownbr >= (GNUMMAX - 1 - baseval)) || /* Vertex and edge indices should not overflow */
+      (linenbr < 0) || (linenbr >= (GNUMMAX / 2 - baseval))) {
+    errorPrint ("graphGeomLoadMmkt: invalid matrix size");
+    return     (1);
+  }
 
   memSet (grafptr, 0, sizeof (Graph));
 
@@ -175,12 +185,12 @@ const char * const          dataptr)              /* Fake base value  */
 
   for (linenum = sortnbr = 0; linenum < linenbr; linenum ++) {
     if ((intLoad (filesrcptr, &sorttab[sortnbr].vertnum[0]) != 1) || /* Read edge ends */
-        (intLoad (filesrcptr, &sorttab[sortnbr].vertnum[1]) != 1) ||
-        (fgets (linetab, 1025, filesrcptr) == NULL)) { /* Skip end of line */
+        (intLoad (filesrcptr, &sorttab[sortnbr].vertnum[1]) != 1)) {
       errorPrint ("graphGeomLoadMmkt: bad input (4)");
       graphExit  (grafptr);
       return     (1);
     }
+    while (((c = fgetc (filesrcptr)) != '\n') && (c != EOF)) ; /* Skip end of line, if any */
 
     if ((sorttab[sortnbr].vertnum[0] < baseval) || (sorttab[sortnbr].vertnum[0] >= (mrownbr + baseval)) ||
         (sorttab[sortnbr].vertnum[1] < baseval) || (sorttab[sortnbr].vertnum[1] >= (mrownbr + baseval))) {
@@ -224,7 +234,7 @@ const char * const          dataptr)              /* Fake base value  */
   edgetmp = edgenum - edgetmp;                    /* Compute degree and see if it is maximum degree */
   if (edgetmp > degrmax)
     degrmax = edgetmp;
-  while (vertnum < mrownbr)                       /* Fill gaps with isolated vertices and mark beginning of new one */
+  while (vertnum < (grafptr->vertnnd - 1))        /* Fill gaps with isolated vertices and mark beginning of new one */
     grafptr->verttax[++ vertnum] = edgenum;
   grafptr->verttax[++ vertnum] = edgenum;         /* Mark end of array */
 
-- 
2.43.0


From e3e6fafed448f3194039af6e06f8e3de87ed2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 130/134] fix: Harwell-Boeing mesh loader reads padded lines
 and the same formats as the graph loader

---
 src/libscotch/graph_io_habo.c |  1 -
 src/libscotch/graph_io_habo.h |  2 +-
 src/libscotch/mesh_io_habo.c  | 79 +++++++++++++++++++++++++----------
 src/libscotch/module.h        |  1 +
 4 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index 3eb46bb..09655b7 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -381,7 +381,6 @@ const char * const          dataptr)              /* Tag value        */
 ** and returns the size of the integers to read.
 */
 
-static
 int
 graphGeomLoadHaboFormat (
 GraphGeomHaboLine * restrict const  lineptr,      /* Line format to fill */
diff --git a/src/libscotch/graph_io_habo.h b/src/libscotch/graph_io_habo.h
index 132a21f..f231cc7 100644
--- a/src/libscotch/graph_io_habo.h
+++ b/src/libscotch/graph_io_habo.h
@@ -85,4 +85,4 @@ typedef struct GraphGeomHaboLine_ {
 **  The function prototypes.
 */
 
-static int                  graphGeomLoadHaboFormat (GraphGeomHaboLine * restrict const, const char * const);
+int                         graphGeomLoadHaboFormat (GraphGeomHaboLine * restrict const, const char * const);
diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index 83f7239..3a89de3 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -57,6 +57,48 @@
 #include "geom.h"
 #include "graph.h"
 #include "mesh.h"
+#include "graph_io_habo.h"
+
+/* This routine reads the next integer of a
+** section, according to its Fortran format.
+** It returns:
+** - 0   : on success.
+** - !0  : on end of file.
+*/
+
+static
+int
+meshGeomLoadHaboValue (
+FILE * const                    fileptr,          /* Data stream                 */
+const GraphGeomHaboLine * const lineptr,          /* Format of line              */
+int * const                     valnumptr,        /* Number of value in line     */
+Gnum * const                    valptr)           /* Value to set                */
+{
+  Gnum                valval;
+  int                 validx;
+  int                 c;
+
+  c = getc (fileptr);
+  if ((* valnumptr) ++ >= lineptr->datanbr) {     /* If all useful data read from line */
+    * valnumptr = 1;                              /* Start at beginning of new line    */
+
+    while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
+      c = getc (fileptr);
+    while (((c = getc (fileptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
+
+    for (validx = 0; (validx < lineptr->strtnbr) && (c != EOF); validx ++) /* Get start of line */
+      c = getc (fileptr);
+  }
+
+  valval = (c == ' ') ? 0 : (c - '0');
+  for (validx = 1; (validx < lineptr->datalen) && (c != EOF); validx ++) {
+    if ((c = getc (fileptr)) != ' ')
+      valval = valval * 10 + c - '0';
+  }
+  * valptr = valval;
+
+  return (c == EOF);
+}
 
 /* This routine loads the geometrical mesh
 ** in the Harwell-Boeing matrix format, and
@@ -79,8 +121,9 @@ const char * const          dataptr)              /* No use           */
   char              habmattype[3];                /* Matrix type                               */
   long              habcrdnbr;                    /* Total number of data lines                */
   long              habrhsnbr;                    /* Number of right hand side lines           */
-  int               habcolsiz;                    /* Size of column type                       */
-  int               habnzrsiz;                    /* Size of non-zero type                     */
+  GraphGeomHaboLine habcolfmt;                    /* Format of column line                     */
+  GraphGeomHaboLine habnzrfmt;                    /* Format of non-zero line                   */
+  int               habvalnum;                    /* Number of value in line                   */
   Gnum              habvixnbr;                    /* Number of element matrix variable indices */
   Gnum              habeltnbr;                    /* Number of elements                        */
   Gnum              habvarnbr;                    /* Number of variables, that is, nodes       */
@@ -90,6 +133,7 @@ const char * const          dataptr)              /* No use           */
   Gnum              edgesum;                      /* Accumulated number of edges in node part  */
   Gnum              degrmax;                      /* Maximum degree                            */
   int               c;
+  int               o;
 
   habmattag = 0;                                  /* Read first matrix by default */
   if ((dataptr != NULL)                   &&      /* If tag value provided */
@@ -128,10 +172,12 @@ const char * const          dataptr)              /* No use           */
     habvarnbr = (Gnum) atol (&habmatbuf[2][14]);  /* NVAR */
     habmatbuf[2][14] = '\0';
 
-    if (((c = sscanf (habmatbuf[3], "(%*d%*[Ii]%d) (%*d%*[Ii]%d)",
-                     &habcolsiz, &habnzrsiz)) != 2) ||
-        (habcolsiz < 1) || (habnzrsiz < 1)) {
-      errorPrint ("meshGeomLoadHabo: bad input (3, %d)", c);
+    habmatbuf[3][32] = '\0';
+    o = graphGeomLoadHaboFormat (&habnzrfmt, &habmatbuf[3][16]);
+    habmatbuf[3][16] = '\0';
+    o |= graphGeomLoadHaboFormat (&habcolfmt, &habmatbuf[3][0]);
+    if (o != 0) {
+      errorPrint ("meshGeomLoadHabo: bad input (3)");
       return     (1);
     }
 
@@ -198,17 +244,12 @@ const char * const          dataptr)              /* No use           */
   meshptr->vnlosum = habvarnbr;
   meshptr->veisnbr = 0;                           /* No isolated elements found yet */
 
+  ungetc ('\n', filesrcptr);                      /* Create fake previous line */
+  habvalnum = habcolfmt.datanbr;                  /* Eat up fake previous line */
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
     Gnum              habcolval;                  /* Current column value                                                   */
-    int               habcolidx;                  /* Current index in column value                                          */
 
-    while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ;
-    habcolval = (c == ' ') ? 0 : (c - '0');
-    for (habcolidx = 1; (habcolidx < habcolsiz) && (c != EOF); habcolidx ++) {
-      if ((c = getc (filesrcptr)) != ' ')
-        habcolval = habcolval * 10 + c - '0';
-    }
-    if (c == EOF) {
+    if (meshGeomLoadHaboValue (filesrcptr, &habcolfmt, &habvalnum, &habcolval) != 0) {
       errorPrint ("meshGeomLoadHabo: bad input (6)");
       meshFree   (meshptr);
       return     (1);
@@ -235,17 +276,11 @@ const char * const          dataptr)              /* No use           */
 
   memSet (meshptr->verttax + 1, 0, habvarnbr * sizeof (Gnum)); /* Pre-set node adjacency array */
 
+  habvalnum = habnzrfmt.datanbr;                  /* Start by eating end of previous line */
   for (edgenum = habvixnbr + 1; edgenum <= meshptr->edgenbr; edgenum ++) { /* Read VARIND as second part of edge array */
     Gnum              habnodval;                  /* Current non-zero value                                              */
-    int               habnzridx;                  /* Current index in non-zero value                                     */
 
-    while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ;
-    habnodval = (c == ' ') ? 0 : (c - '0');
-    for (habnzridx = 1; (habnzridx < habnzrsiz) && (c != EOF); habnzridx ++) {
-      if ((c = getc (filesrcptr)) != ' ')
-        habnodval = habnodval * 10 + c - '0';
-    }
-    if (c == EOF) {
+    if (meshGeomLoadHaboValue (filesrcptr, &habnzrfmt, &habvalnum, &habnodval) != 0) {
       errorPrint ("meshGeomLoadHabo: bad input (9)");
       meshFree   (meshptr);
       return     (1);
diff --git a/src/libscotch/module.h b/src/libscotch/module.h
index 3ced1d6..96ea8f9 100644
--- a/src/libscotch/module.h
+++ b/src/libscotch/module.h
@@ -861,6 +861,7 @@
 #define graphMatchNone              SCOTCH_NAME_INTERN (graphMatchNone)
 #define graphGeomLoadChac           SCOTCH_NAME_INTERN (graphGeomLoadChac)
 #define graphGeomLoadHabo           SCOTCH_NAME_INTERN (graphGeomLoadHabo)
+#define graphGeomLoadHaboFormat     SCOTCH_NAME_INTERN (graphGeomLoadHaboFormat)
 #define graphGeomLoadMmkt           SCOTCH_NAME_INTERN (graphGeomLoadMmkt)
 #define graphGeomLoadScot           SCOTCH_NAME_INTERN (graphGeomLoadScot)
 #define graphGeomSaveChac           SCOTCH_NAME_INTERN (graphGeomSaveChac)
-- 
2.43.0


From e4c94192fb9c35d97169a868dec35791f84f97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 131/134] fix: compressed standard streams were not closed, so
 that their end was awaited for ever

---
 src/libscotch/common_file.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/common_file.c b/src/libscotch/common_file.c
index eeb55e6..eea1825 100644
--- a/src/libscotch/common_file.c
+++ b/src/libscotch/common_file.c
@@ -290,9 +290,10 @@ const int                   filenbr)
   int                i;
 
   for (i = 0; i < filenbr; i ++) {                /* For all file names   */
-    if ((filetab[i].fileptr != NULL) &&           /* If stream exists     */
-        (filetab[i].nameptr != NULL) &&           /* And it has a name    */
-        (filetab[i].nameptr[0] != '-')) {         /* Which is not default */
+    if ((filetab[i].fileptr != NULL)    &&        /* If stream exists            */
+        (filetab[i].nameptr != NULL)    &&        /* And it has a name           */
+        ((filetab[i].nameptr[0] != '-') ||        /* Which is not default        */
+         (filetab[i].compptr != NULL))) {         /* Or it is a pipe to be ended */
       fclose (filetab[i].fileptr);                /* Close the stream     */
       if (filetab[i].flagval & FILEFREENAME)
         memFree (filetab[i].nameptr);
-- 
2.43.0


From 334c491dc68706de12c8dfeda3815a53ea6f4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 132/134] fix: closing a compressed input stream before its end
 killed the process or printed an error

---
 src/libscotch/common_file_decompress.c | 54 ++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/common_file_decompress.c b/src/libscotch/common_file_decompress.c
index 6e80222..8704cc1 100644
--- a/src/libscotch/common_file_decompress.c
+++ b/src/libscotch/common_file_decompress.c
@@ -59,6 +59,8 @@
 #include "common.h"
 #include "common_file.h"
 #include "common_file_compress.h"
+#include <errno.h>
+#include <signal.h>
 #ifdef COMMON_FILE_COMPRESS_BZ2
 #include "bzlib.h"
 #endif /* COMMON_FILE_COMPRESS_BZ2 */
@@ -127,6 +129,39 @@ const char * const          nameptr)              /*+ Name string +*/
   return (FILECOMPRESSTYPENONE);
 }
 
+/* This routine writes a buffer of decompressed
+** data to the pipe. The reader is allowed to close
+** its end before all of the data have been read.
+** It returns:
+** - 0  : if data have been written.
+** - 1  : if decompression must stop.
+*/
+
+#if ((defined COMMON_FILE_COMPRESS_BZ2) || (defined COMMON_FILE_COMPRESS_GZ) || (defined COMMON_FILE_COMPRESS_LZMA))
+static
+int
+fileDecompressWrite (
+FileCompress * const        compptr,
+const byte * const          bufftab,
+const size_t                buffnbr)
+{
+  size_t              bytenum;
+
+  for (bytenum = 0; bytenum < buffnbr; ) {
+    ssize_t             bytenbr;
+
+    if ((bytenbr = write (compptr->infdnum, bufftab + bytenum, buffnbr - bytenum)) < 0) {
+      if (errno != EPIPE)                         /* If not just that reader closed its end */
+        errorPrint ("fileDecompressWrite: cannot write");
+      return (1);
+    }
+    bytenum += bytenbr;
+  }
+
+  return (0);
+}
+#endif /* ((defined COMMON_FILE_COMPRESS_BZ2) || (defined COMMON_FILE_COMPRESS_GZ) || (defined COMMON_FILE_COMPRESS_LZMA)) */
+
 /* This routine creates a thread to decompress the
 ** given stream according to the given (de)compression
 ** algorithm.
@@ -144,6 +179,14 @@ void *                                            /* (void *) to comply to the P
 fileDecompress2 (
 FileCompress * const        compptr)
 {
+#if ((defined COMMON_PTHREAD_FILE) && (defined SIGPIPE))
+  sigset_t            sigsdat;
+
+  sigemptyset (&sigsdat);                         /* If reader closes its end too early, write() should */
+  sigaddset   (&sigsdat, SIGPIPE);                /* return an error to us rather than kill the process */
+  pthread_sigmask (SIG_BLOCK, &sigsdat, NULL);
+#endif /* ((defined COMMON_PTHREAD_FILE) && (defined SIGPIPE)) */
+
   switch (compptr->typeval) {
 #ifdef COMMON_FILE_COMPRESS_BZ2
     case FILECOMPRESSTYPEBZ2 :
@@ -272,8 +315,7 @@ FileCompress * const        compptr)
   }
 
   while ((bytenbr = BZ2_bzRead (&flagval, decoptr, compptr->bufftab, FILECOMPRESSDATASIZE), flagval) >= BZ_OK) { /* If BZ_OK or BZ_STREAM_END */
-    if (write (compptr->infdnum, compptr->bufftab, bytenbr) != bytenbr) {
-      errorPrint ("fileDecompressBz2: cannot write");
+    if (fileDecompressWrite (compptr, compptr->bufftab, bytenbr) != 0) {
       flagval = BZ_STREAM_END;                    /* Avoid other error message */
       break;
     }
@@ -325,10 +367,8 @@ FileCompress * const        compptr)
   }
 
   while ((bytenbr = gzread (decoptr, compptr->bufftab, FILECOMPRESSDATASIZE)) > 0) {
-    if (write (compptr->infdnum, compptr->bufftab, bytenbr) != bytenbr) {
-      errorPrint ("fileDecompressGz: cannot write");
+    if (fileDecompressWrite (compptr, compptr->bufftab, bytenbr) != 0)
       break;
-    }
   }
   if (bytenbr < 0)
     errorPrint ("fileDecompressGz: cannot read");
@@ -392,10 +432,8 @@ FileCompress * const        compptr)
       size_t              obufnbr;
 
       obufnbr = FILECOMPRESSDATASIZE - decodat.avail_out; /* Compute number of bytes to write */
-      if (write (compptr->infdnum, obuftab, obufnbr) != obufnbr) {
-        errorPrint ("fileDecompressLzma: cannot write");
+      if (fileDecompressWrite (compptr, obuftab, obufnbr) != 0)
         break;
-      }
       decodat.next_out  = obuftab;
       decodat.avail_out = FILECOMPRESSDATASIZE;
     }
-- 
2.43.0


From 72506972aef0ab66ee75e9ab9b2bc4da38613ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 133/134] fix: the end of bzip2 files that fill the input
 buffer was reported as an error

---
 src/libscotch/common_file_decompress.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/common_file_decompress.c b/src/libscotch/common_file_decompress.c
index 8704cc1..7d1750f 100644
--- a/src/libscotch/common_file_decompress.c
+++ b/src/libscotch/common_file_decompress.c
@@ -324,9 +324,14 @@ FileCompress * const        compptr)
       int                 byunnbr;
 
       BZ2_bzReadGetUnused (&flagval, decoptr, &byunptr, &byunnbr); /* Get remaining chars in stream */
-      if ((byunnbr == 0) && (feof (compptr->oustptr) != 0)) { /* If end of decompressed stream too  */
-        flagval = BZ_STREAM_END;
-        break;
+      if (byunnbr == 0) {                         /* If no remaining chars, end of file may not have been seen */
+        int                 charval;
+
+        if ((charval = getc (compptr->oustptr)) == EOF) { /* If end of decompressed stream too */
+          flagval = BZ_STREAM_END;
+          break;
+        }
+        ungetc (charval, compptr->oustptr);
       }
       memMov (compptr->bufftab, byunptr, byunnbr);
       BZ2_bzReadClose (&flagval, decoptr);
-- 
2.43.0


From 89e5ab47a4f363de9c1e37d801d1493c5917aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 134/134] fix: files in the legacy .lzma format could not be
 read

---
 src/libscotch/common_file_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/common_file_decompress.c b/src/libscotch/common_file_decompress.c
index 7d1750f..128541f 100644
--- a/src/libscotch/common_file_decompress.c
+++ b/src/libscotch/common_file_decompress.c
@@ -405,7 +405,7 @@ FileCompress * const        compptr)
     return;
   }
 
-  if (lzma_stream_decoder (&decodat, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK) {
+  if (lzma_auto_decoder (&decodat, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK) {
     errorPrint ("fileDecompressLzma: cannot start decompression");
     memFree    (obuftab);
     return;
-- 
2.43.0

