From e1a741268ca897b6cc80665224543003f3290eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 01/50] fix: List_Insert inserts before the given entry, not
 before the first other entry

---
 src/util/List.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..67a1615 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
-- 
2.43.0


From 18a1cfbec93476d5b13e5a2679ce584e6f548ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 02/50] fix: List_Cat records the first removed entry when only
 the source list has gaps

---
 src/util/List.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 67a1615..0aadf48 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -969,9 +969,9 @@ extern "C" {
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
     nent_d += nent_s;
-    nrem_d += nrem_s;
     if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
+      rem1_d = ntot_d + rem1_s;
+    nrem_d += nrem_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From e3df4f70fdf9d7da41c3c9d6ceca0c1f74910355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 03/50] fix: List_RemSorted reports an absent entry instead of
 using an uninitialised flag, looping or reading past the list

---
 src/util/List.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 0aadf48..4e8eca0 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -712,11 +712,14 @@ extern "C" {
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
     int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
-    int nent, p, nrem, rem1, ntot, i, id;
+    int nent, p, nrem, rem1, ntot, i, id, imin0, imax0;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
+    if (nent == 0) /* nothing to remove */
+      return 0;
+
     imin = 0; imax = ntot-1;
     if (!(l->entry[imin])) {
 
@@ -744,9 +747,12 @@ extern "C" {
     idmax = (*entry2int)(l->entry[imax]);
 
     done = 0;
+    fnd = 0;
     i = 0;
     id = (*entry2int)(entry);
     while (!done) { 
+      imin0 = imin;
+      imax0 = imax;
       imid = (int)(0.5+(imin+imax)/2.0);
 
       if (!(l->entry[imid])) {
@@ -797,7 +803,8 @@ extern "C" {
 	fnd = 1;
 	done = 1;
       }
-      else if (imax-imin <= 1) {
+      else if (imax-imin <= 1 || (imin == imin0 && imax == imax0)) {
+	/* search range cannot be narrowed any further - not in list */
 	done = 1;
       }
     }
-- 
2.43.0


From 5dab88484398fb02180b6e59b31e157a62df5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 04/50] fix: adjacency count queries on entities without such
 neighbours no longer dereference a null list

---
 src/base/MFace_F1.c   | 4 ++--
 src/base/MVertex_F1.c | 4 ++--
 src/base/MVertex_F4.c | 8 ++++----
 src/base/MVertex_R1.c | 8 ++++----
 src/base/MVertex_R2.c | 4 ++--
 src/base/MVertex_R4.c | 4 ++--
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..640756e 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -169,8 +169,8 @@ extern "C" {
 #endif
 
     adjfaces = MF_AdjFaces_F1(f);
-    nf = List_Num_Entries(adjfaces);
-    List_Delete(adjfaces);
+    nf = adjfaces ? List_Num_Entries(adjfaces) : 0;
+    if (adjfaces) List_Delete(adjfaces);
     return nf;
   }
 
diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..a75adb1 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,8 +94,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
 
     return nr;
   }
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index 1b3c1d5..c56811b 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -75,8 +75,8 @@ extern "C" {
 #endif
     
     vfaces = MV_Faces_F4(v);
-    nf = List_Num_Entries(vfaces);
-    List_Delete(vfaces);
+    nf = vfaces ? List_Num_Entries(vfaces) : 0;
+    if (vfaces) List_Delete(vfaces);
     return nf;
   }
 
@@ -91,8 +91,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F4(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
     return nr;
   }
 
diff --git a/src/base/MVertex_R1.c b/src/base/MVertex_R1.c
index a7febee..8a27250 100644
--- a/src/base/MVertex_R1.c
+++ b/src/base/MVertex_R1.c
@@ -73,8 +73,8 @@ extern "C" {
 #endif
     
     vedges = MV_Edges_R1(v);
-    ne = List_Num_Entries(vedges);
-    List_Delete(vedges);
+    ne = vedges ? List_Num_Entries(vedges) : 0;
+    if (vedges) List_Delete(vedges);
     return ne;
   }
 
@@ -89,13 +89,13 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R1(v);
-    nf = List_Num_Entries(vfaces);
+    nf = vfaces ? List_Num_Entries(vfaces) : 0;
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
       if (MEnt_IsVolatile(vface))
 	MF_Delete(vface,0);
     }
-    List_Delete(vfaces);
+    if (vfaces) List_Delete(vfaces);
 
     return nf;
   }
diff --git a/src/base/MVertex_R2.c b/src/base/MVertex_R2.c
index d134e90..0e39db7 100644
--- a/src/base/MVertex_R2.c
+++ b/src/base/MVertex_R2.c
@@ -102,13 +102,13 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R2(v);
-    nf = List_Num_Entries(vfaces);
+    nf = vfaces ? List_Num_Entries(vfaces) : 0;
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
       if (MEnt_IsVolatile(vface))
 	MF_Delete(vface,0);
     }
-    List_Delete(vfaces);
+    if (vfaces) List_Delete(vfaces);
 
     return nf;
   }
diff --git a/src/base/MVertex_R4.c b/src/base/MVertex_R4.c
index 6e43e62..473f986 100644
--- a/src/base/MVertex_R4.c
+++ b/src/base/MVertex_R4.c
@@ -105,8 +105,8 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vregions = MV_Regions_R4(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
 
     return nr;
   }
-- 
2.43.0


From d6bfaa2bfc8e9c8828cba6ae7eb372d599e70c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 05/50] fix: regions of an F4 mesh are attached to their edges
 when their faces are set

---
 src/base/MRegion_F4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..9ad97de 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -87,6 +87,7 @@ extern "C" {
 
   void MR_Set_Faces_F4(MRegion_ptr r, int nf, MFace_ptr *rfaces, int *dirs) {
     MR_Set_Faces_FNR3R4(r,nf,rfaces,dirs);
+    MR_Restore_F4(r);  /* let the edges of the faces know about the region */
   }
 
   void MR_Set_Vertices_F4(MRegion_ptr r, int nv, MVertex_ptr *mvertices, int nf, int **template) {
-- 
2.43.0


From b85eb325329a8a4c85fad2593aac96f6af813de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 06/50] fix: MV_FaceIDs for R4 meshes reads the vertex's face
 list, not the output array

---
 src/base/MVertex_R4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MVertex_R4.c b/src/base/MVertex_R4.c
index 473f986..f859c38 100644
--- a/src/base/MVertex_R4.c
+++ b/src/base/MVertex_R4.c
@@ -178,7 +178,7 @@ extern "C" {
     
     *nvf = List_Num_Entries(adj->vfaces);
     for (i = 0; i < *nvf; i++)
-      vfaceids[i] = MEnt_ID(List_Entry(vfaceids,i));
+      vfaceids[i] = MEnt_ID(List_Entry(adj->vfaces,i));
   }
 
   List_ptr MV_Regions_R4(MVertex_ptr v) {
-- 
2.43.0


From d27040a164e7f058ef1ffbd035cfb13d1a7326b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 07/50] fix: define the declared query MV_AdjVertexIDs

---
 src/base/MVertex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 5de6bd2..3097c58 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -176,6 +176,11 @@ extern "C" {
     return (*MV_AdjVertices_jmp[RTYPE])(v);
   }
 
+  void MV_AdjVertexIDs(MVertex_ptr v, int *nvadj, int *adjvertids) {
+    RepType RTYPE = MEnt_RepType((MEntity_ptr) v);
+    (*MV_AdjVertexIDs_jmp[RTYPE])(v, nvadj, adjvertids);
+  }
+
   List_ptr MV_Edges(MVertex_ptr v) {
     RepType RTYPE = MEnt_RepType((MEntity_ptr) v);
     return (*MV_Edges_jmp[RTYPE])(v);
-- 
2.43.0


From 8489ac92d780d4431d1c562f3465ccac5148d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 08/50] fix: F4 regions are attached to edges in every build
 path; face region IDs and ID queries neither crash on nor leak absent
 neighbours

---
 src/base/ME_Face_Funcs_R1R2.c     |  1 +
 src/base/ME_Face_Funcs_R3R4.c     |  3 ++-
 src/base/ME_Region_Funcs_RN.c     |  1 +
 src/base/MEdge_F4.c               |  1 +
 src/base/MF_Region_Funcs_F1F3.c   |  3 ++-
 src/base/MF_Region_Funcs_F2F4.c   |  6 +++++-
 src/base/MFace_F4.c               | 26 ++++++++++++++++----------
 src/base/MR_Edge_Funcs_FN.c       |  1 +
 src/base/MR_Face_Funcs_FNR3R4.c   |  3 +--
 src/base/MR_Vertex_Funcs_FNR3R4.c |  1 +
 src/base/MRegion_F4.c             |  1 -
 11 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/base/ME_Face_Funcs_R1R2.c b/src/base/ME_Face_Funcs_R1R2.c
index 2417788..842ee18 100644
--- a/src/base/ME_Face_Funcs_R1R2.c
+++ b/src/base/ME_Face_Funcs_R1R2.c
@@ -114,6 +114,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++) 
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/ME_Face_Funcs_R3R4.c b/src/base/ME_Face_Funcs_R3R4.c
index 7fd739c..6c6dc7f 100644
--- a/src/base/ME_Face_Funcs_R3R4.c
+++ b/src/base/ME_Face_Funcs_R3R4.c
@@ -89,12 +89,13 @@ extern "C" {
   }
 
   void ME_FaceIDs_R3R4(MEdge_ptr e, int *nef, int *efaceids) {
-    List_ptr efaces = ME_Faces_R1R2(e);
+    List_ptr efaces = ME_Faces_R3R4(e);
     if (efaces) {
       int i;
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++) 
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/ME_Region_Funcs_RN.c b/src/base/ME_Region_Funcs_RN.c
index 49279ed..fc31fc0 100644
--- a/src/base/ME_Region_Funcs_RN.c
+++ b/src/base/ME_Region_Funcs_RN.c
@@ -62,6 +62,7 @@ extern "C" {
       *ner = List_Num_Entries(eregs);
       for (i = 0; i < *ner; i++)
         eregids[i] = MEnt_ID(List_Entry(eregs,i));
+      List_Delete(eregs);
     }
     else
       *ner = 0;
diff --git a/src/base/MEdge_F4.c b/src/base/MEdge_F4.c
index 85b02a6..0c7f780 100644
--- a/src/base/MEdge_F4.c
+++ b/src/base/MEdge_F4.c
@@ -156,6 +156,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++)
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..8be5400 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,8 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 08bec49..de32926 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -57,6 +57,10 @@ extern "C" {
   void MF_RegionIDs_F2F4(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_F2F4(f);
+    if (!fregs) {
+      *nfr = 0;
+      return;
+    }
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
@@ -87,7 +91,7 @@ extern "C" {
       for (i = 0; i < nr; i++) {
 	r = List_Entry(eregs,i);
 	fdir = MR_FaceDir(r,f);
-	if (fdir == !dir) {
+	if (fdir == dir) {
 	  r1 = r;
 	  break;
 	}
diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..61910ca 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -262,20 +262,26 @@ extern "C" {
 #endif
   }
 
+  /* In F4 meshes regions are reached from the edges of their faces */
+
   void MF_Add_Region_F4(MFace_ptr f, MRegion_ptr r, int side) {
-#ifdef DEBUG
-    MSTK_Report("MF_Add_Region",
-		"Function call unsuitable for this representation",
-		MSTK_WARN);
-#endif
+    MFace_Adj_F2F4 *adj = (MFace_Adj_F2F4 *) f->adj;
+    MEdge_ptr e;
+    int idx = 0;
+
+    while ((e = List_Next_Entry(adj->fedges,&idx)))
+      ME_Add_Region(e,r);
   }
 
   void MF_Rem_Region_F4(MFace_ptr f, MRegion_ptr r) {
-#ifdef DEBUG
-    MSTK_Report("MF_Rem_Region",
-		"Function call unsuitable for this representation",
-		MSTK_WARN);
-#endif
+    MFace_Adj_F2F4 *adj = (MFace_Adj_F2F4 *) f->adj;
+    MEdge_ptr e;
+    int idx = 0;
+
+    /* Keep the edges that other faces of the region still use */
+    while ((e = List_Next_Entry(adj->fedges,&idx)))
+      if (!MR_UsesEntity(r,(MEntity_ptr) e,MEDGE))
+        ME_Rem_Region(e,r);
   }
 
   MFace_ptr MF_NextInHash_F4(MFace_ptr f) {
diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 987a3b6..a71a91b 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -396,6 +396,7 @@ extern "C" {
     *nre = List_Num_Entries(redges);
     for (i = 0; i < *nre; i++)
       redgeids[i] = MEnt_ID(List_Entry(redges,i));
+    List_Delete(redges);
   }
 
 
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..734cf1d 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -94,8 +94,7 @@ extern "C" {
 
       List_Add(adj->rfaces,rfaces[i]);
 
-      if (MEnt_RepType((MEntity_ptr) r) != F4) 
-	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      MF_Add_Region(rfaces[i],r,!dirs[i]);
     }
 
     MR_Update_ElementType_FNR3R4(r);
diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 0cb77cb..7dcf584 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -266,6 +266,7 @@ extern "C" {
     *nrv = List_Num_Entries(rverts);
     for (i = 0; i < *nrv; i++)
       rvertids[i] = MEnt_ID(List_Entry(rverts,i));
+    List_Delete(rverts);
   }
 
   void MR_Replace_Vertex_FNR3R4(MRegion_ptr r, MVertex_ptr v, MVertex_ptr nuv){
diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 9ad97de..7e16fd5 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -87,7 +87,6 @@ extern "C" {
 
   void MR_Set_Faces_F4(MRegion_ptr r, int nf, MFace_ptr *rfaces, int *dirs) {
     MR_Set_Faces_FNR3R4(r,nf,rfaces,dirs);
-    MR_Restore_F4(r);  /* let the edges of the faces know about the region */
   }
 
   void MR_Set_Vertices_F4(MRegion_ptr r, int nv, MVertex_ptr *mvertices, int nf, int **template) {
-- 
2.43.0


From 0611ba3104c9630cf6e08452cdfd7b906fc6ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 09/50] fix: R1/R2 polyhedron templates are stored and
 released, R1 regions are freed once, implicit entities start unlocked, region
 queries on boundary faces return none

---
 src/base/ME_Region_Funcs_RN.c | 11 +++++++++--
 src/base/MEdge_R2.c           |  1 +
 src/base/MEdge_R4.c           |  1 +
 src/base/MF_Region_Funcs_R1.c |  4 ++++
 src/base/MF_Region_Funcs_R2.c |  4 ++++
 src/base/MF_Region_Funcs_R4.c |  3 ++-
 src/base/MFace_R2.c           |  3 +++
 src/base/MR_Vertex_Funcs_R1.c |  9 +++++----
 src/base/MR_Vertex_Funcs_R2.c |  9 +++++----
 src/base/MRegion_R1.c         |  6 ++----
 src/base/MRegion_R2.c         |  4 ++--
 11 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/base/ME_Region_Funcs_RN.c b/src/base/ME_Region_Funcs_RN.c
index fc31fc0..d0ab982 100644
--- a/src/base/ME_Region_Funcs_RN.c
+++ b/src/base/ME_Region_Funcs_RN.c
@@ -24,11 +24,15 @@ extern "C" {
     ne = 0;
 
     vregs = MV_Regions(e->vertex[0]);
+    if (!vregs)
+      return 0;
+
     idx = 0;
     while ((reg = List_Next_Entry(vregs,&idx))) {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	ne++;
     }
+    List_Delete(vregs);
 
     return ne;
   }
@@ -38,14 +42,17 @@ extern "C" {
     MRegion_ptr reg;
     List_ptr eregs, vregs;
 
-    eregs = List_New(0);
-
     vregs = MV_Regions(e->vertex[0]);
+    if (!vregs)
+      return NULL;
+
+    eregs = List_New(0);
     idx = 0;
     while ((reg = List_Next_Entry(vregs,&idx))) {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	List_Add(eregs,reg);
     }
+    List_Delete(vregs);
 
     if (List_Num_Entries(eregs))
       return eregs;    
diff --git a/src/base/MEdge_R2.c b/src/base/MEdge_R2.c
index 3cbf036..83e67af 100644
--- a/src/base/MEdge_R2.c
+++ b/src/base/MEdge_R2.c
@@ -22,6 +22,7 @@ extern "C" {
 
     adj = e->adj = (MEdge_Adj_RN *) malloc(sizeof(MEdge_Adj_RN));
     adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void ME_Delete_R2(MEdge_ptr e, int keep) {
diff --git a/src/base/MEdge_R4.c b/src/base/MEdge_R4.c
index e2afa92..87ca03e 100644
--- a/src/base/MEdge_R4.c
+++ b/src/base/MEdge_R4.c
@@ -22,6 +22,7 @@ extern "C" {
 
     adj = e->adj = (MEdge_Adj_RN *) malloc(sizeof(MEdge_Adj_RN));
     adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void ME_Delete_R4(MEdge_ptr e, int keep) {
diff --git a/src/base/MF_Region_Funcs_R1.c b/src/base/MF_Region_Funcs_R1.c
index ebca8a3..64bc864 100644
--- a/src/base/MF_Region_Funcs_R1.c
+++ b/src/base/MF_Region_Funcs_R1.c
@@ -68,6 +68,10 @@ extern "C" {
   void MF_RegionIDs_R1(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_R1(f);
+    if (!fregs) {
+      *nfr = 0;
+      return;
+    }
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R2.c b/src/base/MF_Region_Funcs_R2.c
index c4a2571..a542e1b 100644
--- a/src/base/MF_Region_Funcs_R2.c
+++ b/src/base/MF_Region_Funcs_R2.c
@@ -68,6 +68,10 @@ extern "C" {
   void MF_RegionIDs_R2(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_R2(f);
+    if (!fregs) {
+      *nfr = 0;
+      return;
+    }
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 963a717..903b5e0 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -48,7 +48,8 @@ extern "C" {
   }
 
   int MF_RegionID_R4(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_R4 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_R4 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_R4(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MFace_R2.c b/src/base/MFace_R2.c
index 7d673dc..c67a668 100644
--- a/src/base/MFace_R2.c
+++ b/src/base/MFace_R2.c
@@ -22,6 +22,9 @@ extern "C" {
 
     adj = f->adj = (MFace_Adj_R2 *) malloc(sizeof(MFace_Adj_R2));
     adj->fvertices = NULL;
+    adj->adjfaces = NULL;
+    adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void MF_Delete_R2(MFace_ptr f, int keep) {
diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index 1166f00..ccf99ee 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -89,13 +89,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -118,7 +119,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index cb3dab0..0cde9b2 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -88,13 +88,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -117,7 +118,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index eec17c3..28faed3 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -49,14 +49,12 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
 	free(adj);
       }
-
-      free(r);
     }
   }
 
@@ -80,7 +78,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
diff --git a/src/base/MRegion_R2.c b/src/base/MRegion_R2.c
index b210bb9..f5c4bd4 100644
--- a/src/base/MRegion_R2.c
+++ b/src/base/MRegion_R2.c
@@ -55,7 +55,7 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
@@ -95,7 +95,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
-- 
2.43.0


From 6051c45d0560f5cbaed72d05915be647b1a9327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 10/50] fix: set edits return the set, MSet_Cat is defined and
 compares entity types, renaming reallocates, copy/union/intersection do not
 leak

---
 src/base/MSet.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..1c46505 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -58,7 +58,10 @@ extern "C" {
   }
 
   void MSet_Rename(MSet_ptr set, char *newname) {
-    strcpy(set->name,newname);
+    char *name = (char *) malloc((strlen(newname)+1)*sizeof(char));
+    strcpy(name,newname);
+    free(set->name);
+    set->name = name;
   }
 
   MType MSet_EntDim(MSet_ptr set) {
@@ -77,20 +80,24 @@ extern "C" {
   }
 
   MSet_ptr    MSet_Add(MSet_ptr set, void *entry) {
-    return List_Add(set->entlist,entry);
+    List_Add(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_ChknAdd(MSet_ptr set, void *entry) {
-    return List_ChknAdd(set->entlist,entry);
+    List_ChknAdd(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_Insert(MSet_ptr set, void *nuentry, void *b4entry) {
-    return List_Insert(set->entlist,nuentry,b4entry);
+    List_Insert(set->entlist,nuentry,b4entry);
+    return set;
   }
 
 
   MSet_ptr    MSet_Inserti(MSet_ptr set, void *nuentry, int i) {
-    return List_Inserti(set->entlist,nuentry,i);
+    List_Inserti(set->entlist,nuentry,i);
+    return set;
   }
 
   int         MSet_Rem(MSet_ptr set, void *entry) {
@@ -136,16 +143,17 @@ extern "C" {
 
     newset = MSet_New(MSet_Mesh(src),MSet_Name(src,name),MSet_EntDim(src));
 
+    List_Delete(newset->entlist);
     newset->entlist = List_Copy(src->entlist);
 
     return newset;
   }
 
 
-  MSet_ptr    MSets_Cat(MSet_ptr dest, MSet_ptr src) {    
+  MSet_ptr    MSet_Cat(MSet_ptr dest, MSet_ptr src) {    
     if (MSet_Mesh(dest) != MSet_Mesh(src) ||
-	MSet_EntDim(dest) != MSet_EntDim(dest)) {
-      MSTK_Report("MSets_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
+	MSet_EntDim(dest) != MSet_EntDim(src)) {
+      MSTK_Report("MSet_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
     }
 
     dest->entlist = List_Cat(dest->entlist, src->entlist);
@@ -193,7 +201,9 @@ extern "C" {
       newset = MSet_New(MSet_Mesh(s1),newname,MSet_EntDim(s1));
 
     
+    List_Delete(newset->entlist);
     newset->entlist = List_Copy(s1->entlist);
+    free(newname);
     
 #ifdef MSTK_USE_MARKERS
     mkid = MSTK_GetMarker();
@@ -303,6 +313,7 @@ extern "C" {
       newset = NULL;
     }
 
+    free(newname);
     return newset;
   }
 
-- 
2.43.0


From 110f12db2695f8145b7642b29c998afb37b59b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 11/50] fix: re-setting or clearing a vector or tensor
 attribute value frees the old value and accepts none; an attribute without a
 mesh knows it has none

---
 src/base/MAttrib.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..fbda43a 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -71,10 +71,9 @@ extern "C" {
       attrib->ncomp = 1;
     else
       attrib->ncomp = ncomponents;
-    if(mesh) {
-      attrib->mesh = mesh;
+    attrib->mesh = mesh;
+    if(mesh)
       MESH_Add_Attrib(mesh,attrib);
-    }
     va_end(ap);
 
     return attrib;
@@ -99,7 +98,8 @@ extern "C" {
   }
 
   void MAttrib_Delete(MAttrib_ptr attrib) {
-    MESH_Rem_Attrib(attrib->mesh,attrib);
+    if (attrib->mesh)
+      MESH_Rem_Attrib(attrib->mesh,attrib);
     free(attrib->name);
     free(attrib);
   }
@@ -155,8 +155,13 @@ extern "C" {
          * before storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
+        double *vval_copy = NULL;
+        if (pval) {
+          vval_copy = (double *) malloc(ncomp*sizeof(double));
+          memcpy(vval_copy, pval, ncomp*sizeof(double));
+        }
+        if (attins->att_val.pval)
+          free(attins->att_val.pval);
         attins->att_val.pval = vval_copy;
         break;
       }
@@ -166,8 +171,13 @@ extern "C" {
          * storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
+        double *tval_copy = NULL;
+        if (pval) {
+          tval_copy = (double *) malloc(ncomp*sizeof(double));
+          memcpy(tval_copy, pval, ncomp*sizeof(double));
+        }
+        if (attins->att_val.pval)
+          free(attins->att_val.pval);
         attins->att_val.pval = tval_copy;
         break;
       }
-- 
2.43.0


From 514285a62295ccb2cc72b9be1e398b7b72c1f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 12/50] fix: entities are found and removed by ID after
 renumbering, restoring and deleting; new IDs never clash; global ID search
 lists follow deletions

---
 include/MSTK_private.h |   1 +
 include/Mesh.h         |   1 +
 src/base/MEntity.c     |   4 +-
 src/base/Mesh.c        | 167 ++++++++++++++++++++++++++++++-----------
 4 files changed, 130 insertions(+), 43 deletions(-)

diff --git a/include/MSTK_private.h b/include/MSTK_private.h
index 4cc3b9c..582f053 100644
--- a/include/MSTK_private.h
+++ b/include/MSTK_private.h
@@ -42,6 +42,7 @@ typedef enum MDelType {MDELREGION=-40, MDELFACE=-30, MDELEDGE=-20, MDELVERTEX=-1
 /* THIS FILE HAS ADDITIONAL FUNCTIONS THAT THE NORMAL USER NEED NOT SEE */
 
   void       MESH_Reset_Cached_MaxIDs(Mesh_ptr mesh);
+  void       MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id);
 
   void       MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v);
   void       MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e);
diff --git a/include/Mesh.h b/include/Mesh.h
index c369416..953ee48 100644
--- a/include/Mesh.h
+++ b/include/Mesh.h
@@ -100,6 +100,7 @@ extern "C" {
   void       MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r);
 
   void       MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh);
+  void       MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id);
 
 #ifdef MSTK_HAVE_MPI
   void         MESH_Set_Prtn(Mesh_ptr mesh, unsigned int partition, 
diff --git a/src/base/MEntity.c b/src/base/MEntity.c
index 94c7d90..939fcd3 100644
--- a/src/base/MEntity.c
+++ b/src/base/MEntity.c
@@ -131,8 +131,10 @@ extern "C" {
      * have entries with ascending IDs */
     if (orig_id) {
       Mesh_ptr mesh = ent->entdat.mesh;
-      if (mesh)
+      if (mesh) {
         MESH_Flag_EntLists_As_Unsorted(mesh);
+        MESH_Update_Cached_MaxID(mesh,ent->entdat.dim,id);
+      }
     }
   }
 
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..da2a781 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -664,21 +664,21 @@ void MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh) {
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
-  if (mesh->nv) {
+  if (mesh->mvertex) {
     List_Compress(mesh->mvertex);  // can't sort list with gaps
     List_Sort(mesh->mvertex, mesh->nv, sizeof(MVertex_ptr), compareID);
   }
-  if (mesh->ne) {
+  if (mesh->medge) {
     List_Compress(mesh->medge);  // can't sort list with gaps
     List_Sort(mesh->medge, mesh->ne, sizeof(MEdge_ptr), compareID);
   }
 
-  if (mesh->nf) {
+  if (mesh->mface) {
     List_Compress(mesh->mface);  // can't sort list with gaps
     List_Sort(mesh->mface, mesh->nf, sizeof(MFace_ptr), compareID);
   }
 
-  if (mesh->nr) {
+  if (mesh->mregion) {
     List_Compress(mesh->mregion);  // can't sort list with gaps
     List_Sort(mesh->mregion, mesh->nr, sizeof(MRegion_ptr), compareID);
   }
@@ -842,6 +842,45 @@ MEntity_ptr MESH_EntityFromID(Mesh_ptr mesh, int mtype, int id) {
 
 }
 
+/* Remove an entity from a list that is usually in ascending order of the
+   given ID. If it cannot be found that way (the entities were assigned new
+   IDs or restored after being deleted), look at each entry */
+static int pvtMESH_Rem_From_List(List_ptr list, void *ent, 
+                                 int (*entry2int)(void *)) {
+  int fnd = List_RemSorted(list,ent,entry2int);
+  if (!fnd)
+    fnd = List_Rem(list,ent);
+  return fnd;
+}
+
+#ifdef MSTK_HAVE_MPI
+/* Forget a removed entity in a list used for searching by global ID */
+static void pvtMESH_Rem_From_GIDList(List_ptr list, void *ent) {
+  if (list && List_Rem(list,ent))
+    List_Compress(list);   /* can't search list with gaps */
+}
+#endif
+
+/* Make sure that new entities do not get an ID that is in use */
+void MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id) {
+  switch (mtype) {
+  case MVERTEX:
+    if (id > mesh->max_vid) mesh->max_vid = id;
+    break;
+  case MEDGE:
+    if (id > mesh->max_eid) mesh->max_eid = id;
+    break;
+  case MFACE:
+    if (id > mesh->max_fid) mesh->max_fid = id;
+    break;
+  case MREGION:
+    if (id > mesh->max_rid) mesh->max_rid = id;
+    break;
+  default:
+    break;
+  }
+}
+
 void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (mesh->mvertex == (List_ptr) NULL)
     mesh->mvertex = List_New(10);
@@ -853,6 +892,10 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else { /* Restored vertex - may be out of order */
+    MESH_Update_Cached_MaxID(mesh,MVERTEX,MV_ID(v));
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+  }
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -869,6 +912,10 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else { /* Restored edge - may be out of order */
+    MESH_Update_Cached_MaxID(mesh,MEDGE,ME_ID(e));
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+  }
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -893,6 +940,10 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else { /* Restored face - may be out of order */
+    MESH_Update_Cached_MaxID(mesh,MFACE,MF_ID(f));
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+  }
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -906,6 +957,10 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else { /* Restored region - may be out of order */
+    MESH_Update_Cached_MaxID(mesh,MREGION,MR_ID(r));
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+  }
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
@@ -937,7 +992,7 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
    * at the end. */
   
   if (!fnd)
-    fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->mvertex,v,&(MV_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_Vertex","Vertex not found in list",MSTK_FATAL);
@@ -945,8 +1000,9 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
   mesh->nv = List_Num_Entries(mesh->mvertex);
 
 #ifdef MSTK_HAVE_MPI
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_mvlist,v);
   if (MV_PType(v) == POVERLAP) {
-    fnd = List_RemSorted(mesh->ovvertex,v,&(MV_GlobalID));
+    fnd = pvtMESH_Rem_From_List(mesh->ovvertex,v,&(MV_GlobalID));
     if (!fnd)
       MSTK_Report("MESH_Rem_Vertex","Vertex not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -986,7 +1042,7 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
    * at the end. */
   
   if (!fnd)
-    fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->medge,e,&(ME_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_Edge","Edge not found in list",MSTK_FATAL);
@@ -994,8 +1050,9 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
   mesh->ne = List_Num_Entries(mesh->medge);
 
 #ifdef MSTK_HAVE_MPI
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_melist,e);
   if (ME_PType(e) == POVERLAP) {
-    fnd = List_RemSorted(mesh->ovedge,e,&(ME_GlobalID));
+    fnd = pvtMESH_Rem_From_List(mesh->ovedge,e,&(ME_GlobalID));
     if (!fnd)
       MSTK_Report("MESH_Rem_Edge","Edge not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -1036,7 +1093,7 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
    * at the end. */
   
   if (!fnd)
-    fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->mface,f,&(MF_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_Face","Face not found in list",MSTK_FATAL);
@@ -1044,8 +1101,9 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
   mesh->nf = List_Num_Entries(mesh->mface);
 
 #ifdef MSTK_HAVE_MPI
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_mflist,f);
   if (MF_PType(f) == POVERLAP) {
-    fnd = List_RemSorted(mesh->ovface,f,&(MF_GlobalID));
+    fnd = pvtMESH_Rem_From_List(mesh->ovface,f,&(MF_GlobalID));
     if (!fnd)
       MSTK_Report("MESH_Rem_Face","Face not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -1085,7 +1143,7 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
    * at the end. */
   
   if (!fnd)
-    fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->mregion,r,&(MR_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_Region","Region not found in list",MSTK_FATAL);
@@ -1093,8 +1151,9 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
   mesh->nr = List_Num_Entries(mesh->mregion);
 
 #ifdef MSTK_HAVE_MPI
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_mrlist,r);
   if (MR_PType(r) == POVERLAP) {
-    fnd = List_RemSorted(mesh->ovregion,r,&(MR_GlobalID));
+    fnd = pvtMESH_Rem_From_List(mesh->ovregion,r,&(MR_GlobalID));
     if (!fnd)
       MSTK_Report("MESH_Rem_Region","Region not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -1409,41 +1468,45 @@ List_ptr   MESH_Region_List(Mesh_ptr mesh) {
 
 void MESH_Enable_GlobalIDSearch(Mesh_ptr mesh) {
 
-  if (mesh->nv && !mesh->gid_sorted_mvlist)
-    mesh->gid_sorted_mvlist = List_Copy(mesh->mvertex);
+  if (mesh->gid_sorted_mvlist)
+    List_Delete(mesh->gid_sorted_mvlist);
+  mesh->gid_sorted_mvlist = mesh->nv ? List_Copy(mesh->mvertex) : NULL;
 
-  if (mesh->ne && !mesh->gid_sorted_melist)
-    mesh->gid_sorted_melist = List_Copy(mesh->medge);
+  if (mesh->gid_sorted_melist)
+    List_Delete(mesh->gid_sorted_melist);
+  mesh->gid_sorted_melist = mesh->ne ? List_Copy(mesh->medge) : NULL;
 
-  if (mesh->nf && !mesh->gid_sorted_mflist)
-    mesh->gid_sorted_mflist = List_Copy(mesh->mface);
+  if (mesh->gid_sorted_mflist)
+    List_Delete(mesh->gid_sorted_mflist);
+  mesh->gid_sorted_mflist = mesh->nf ? List_Copy(mesh->mface) : NULL;
 
-  if (mesh->nr && !mesh->gid_sorted_mrlist)
-    mesh->gid_sorted_mrlist = List_Copy(mesh->mregion);
+  if (mesh->gid_sorted_mrlist)
+    List_Delete(mesh->gid_sorted_mrlist);
+  mesh->gid_sorted_mrlist = mesh->nr ? List_Copy(mesh->mregion) : NULL;
 
   MESH_Sort_GlobalIDSearch_Lists(mesh);
 }
 
 void MESH_Sort_GlobalIDSearch_Lists(Mesh_ptr mesh) {
 
-  if (mesh->nv && mesh->gid_sorted_mvlist) {
+  if (mesh->gid_sorted_mvlist) {
     List_Compress(mesh->gid_sorted_mvlist);  // can't sort list with gaps
-    List_Sort(mesh->gid_sorted_mvlist,mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
+    List_Sort(mesh->gid_sorted_mvlist,List_Num_Entries(mesh->gid_sorted_mvlist),sizeof(MVertex_ptr),compareGlobalID);
   }
 
-  if (mesh->ne && mesh->gid_sorted_melist) {
+  if (mesh->gid_sorted_melist) {
     List_Compress(mesh->gid_sorted_melist);
-    List_Sort(mesh->gid_sorted_melist,mesh->ne,sizeof(MEdge_ptr),compareGlobalID);
+    List_Sort(mesh->gid_sorted_melist,List_Num_Entries(mesh->gid_sorted_melist),sizeof(MEdge_ptr),compareGlobalID);
   }
 
-  if (mesh->nf && mesh->gid_sorted_mflist) {
+  if (mesh->gid_sorted_mflist) {
     List_Compress(mesh->gid_sorted_mflist);
-    List_Sort(mesh->gid_sorted_mflist,mesh->nf,sizeof(MFace_ptr),compareGlobalID);
+    List_Sort(mesh->gid_sorted_mflist,List_Num_Entries(mesh->gid_sorted_mflist),sizeof(MFace_ptr),compareGlobalID);
   }
 
-  if (mesh->nr && mesh->gid_sorted_mrlist) {
+  if (mesh->gid_sorted_mrlist) {
     List_Compress(mesh->gid_sorted_mrlist);
-    List_Sort(mesh->gid_sorted_mrlist,mesh->nr,sizeof(MRegion_ptr),compareGlobalID);
+    List_Sort(mesh->gid_sorted_mrlist,List_Num_Entries(mesh->gid_sorted_mrlist),sizeof(MRegion_ptr),compareGlobalID);
   }
 
   mesh->gidlists_sorted = 1;
@@ -1477,6 +1540,9 @@ MVertex_ptr MESH_VertexFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MVertex_ptr mv;
 
+  if (!mesh->nv)
+    return NULL;
+
   if (!mesh->gid_sorted_mvlist)
     MSTK_Report("MESH_VertexFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1490,7 +1556,7 @@ MVertex_ptr MESH_VertexFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mv_tmp,global_id);
 
   mv = (MVertex_ptr) List_Search(mesh->gid_sorted_mvlist,(void *)&mv_tmp,
-                                 mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
+                                 List_Num_Entries(mesh->gid_sorted_mvlist),sizeof(MVertex_ptr),compareGlobalID);
 
   MV_Delete(mv_tmp,0);
 
@@ -1501,6 +1567,9 @@ MEdge_ptr MESH_EdgeFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MEdge_ptr me;
 
+  if (!mesh->ne)
+    return NULL;
+
   if (!mesh->gid_sorted_melist)
     MSTK_Report("MESH_EdgeFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1514,7 +1583,7 @@ MEdge_ptr MESH_EdgeFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(me_tmp,global_id);
 
   me = (MEdge_ptr) List_Search(mesh->gid_sorted_melist,(void *)&me_tmp,
-                               mesh->ne,sizeof(MEdge_ptr),compareGlobalID);
+                               List_Num_Entries(mesh->gid_sorted_melist),sizeof(MEdge_ptr),compareGlobalID);
 
   ME_Delete(me_tmp,0);
   
@@ -1525,7 +1594,10 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MFace_ptr mf;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->nf)
+    return NULL;
+
+  if (!mesh->gid_sorted_mflist)
     MSTK_Report("MESH_FaceFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1538,7 +1610,7 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mf_tmp,global_id);
 
   mf = (MFace_ptr) List_Search(mesh->gid_sorted_mflist,(void *)&mf_tmp,
-                               mesh->nf,sizeof(MFace_ptr),compareGlobalID);
+                               List_Num_Entries(mesh->gid_sorted_mflist),sizeof(MFace_ptr),compareGlobalID);
 
   MF_Delete(mf_tmp,0);
   
@@ -1549,7 +1621,10 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MRegion_ptr mr;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->nr)
+    return NULL;
+
+  if (!mesh->gid_sorted_mrlist)
     MSTK_Report("MESH_RegionFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1562,7 +1637,7 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mr_tmp,global_id);
 
   mr = (MRegion_ptr) List_Search(mesh->gid_sorted_mrlist,(void *)&mr_tmp,
-                                 mesh->nr,sizeof(MRegion_ptr),compareGlobalID);
+                                 List_Num_Entries(mesh->gid_sorted_mrlist),sizeof(MRegion_ptr),compareGlobalID);
 
   MR_Delete(mr_tmp,0);
 
@@ -2151,18 +2226,20 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
   }
 
   if (!fnd)
-    fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->mvertex,v,&(MV_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in mesh vertex list",MSTK_FATAL);
 
   mesh->nv = List_Num_Entries(mesh->mvertex);
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_mvlist,v);
 
-  fnd = List_RemSorted(mesh->ghvertex,v,&(MV_GlobalID));
+  fnd = pvtMESH_Rem_From_List(mesh->ghvertex,v,&(MV_GlobalID));
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
@@ -2188,18 +2265,20 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
   }
   
   if (!fnd)
-    fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->medge,e,&(ME_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in mesh edge list",MSTK_FATAL);
 
   mesh->ne = List_Num_Entries(mesh->medge);
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_melist,e);
 
-  fnd = List_RemSorted(mesh->ghedge,e,&(ME_GlobalID));
+  fnd = pvtMESH_Rem_From_List(mesh->ghedge,e,&(ME_GlobalID));
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
@@ -2225,18 +2304,20 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
   }
 
   if (!fnd)
-    fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->mface,f,&(MF_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in mesh face list",MSTK_FATAL);
 
   mesh->nf = List_Num_Entries(mesh->mface);
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_mflist,f);
 
-  fnd = List_RemSorted(mesh->ghface,f,&(MF_GlobalID));
+  fnd = pvtMESH_Rem_From_List(mesh->ghface,f,&(MF_GlobalID));
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
@@ -2261,18 +2342,20 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
   }
 
   if (!fnd)
-    fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
+    fnd = pvtMESH_Rem_From_List(mesh->mregion,r,&(MR_ID));
 
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in mesh region list",MSTK_FATAL);
 
   mesh->nr = List_Num_Entries(mesh->mregion);
+  pvtMESH_Rem_From_GIDList(mesh->gid_sorted_mrlist,r);
 
-  fnd = List_RemSorted(mesh->ghregion,r,&(MR_GlobalID));
+  fnd = pvtMESH_Rem_From_List(mesh->ghregion,r,&(MR_GlobalID));
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
 
 
-- 
2.43.0


From 868b33944e37fa09e9752d7a60ca99bbd23cae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:07 +0000
Subject: [PATCH 13/50] fix: restored ghost and overlap entities return to the
 mesh and to their list; F4 faces leave and rejoin their edges, F4 regions
 release their directions

---
 src/base/MEdge.c      |  6 ++++--
 src/base/MFace.c      |  6 ++++--
 src/base/MFace_F4.c   | 24 +++++++++++++++++++++++-
 src/base/MRegion.c    |  6 ++++--
 src/base/MRegion_F4.c |  6 ++++--
 src/base/MVertex.c    |  8 +++++---
 6 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/base/MEdge.c b/src/base/MEdge.c
index b61f41c..a207e98 100644
--- a/src/base/MEdge.c
+++ b/src/base/MEdge.c
@@ -82,12 +82,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) e);
 
+    MESH_Add_Edge(mesh,e);
+
 #ifdef MSTK_HAVE_MPI
     if (ME_PType(e) == PGHOST)
       MESH_Add_GhostEdge(mesh,e);
-    else
+    else if (ME_PType(e) == POVERLAP)
+      MESH_Add_OverlapEdge(mesh,e);
 #endif
-      MESH_Add_Edge(mesh,e);
 
     (*ME_Restore_jmp[RTYPE])(e);
   }
diff --git a/src/base/MFace.c b/src/base/MFace.c
index 757c30e..5f02fca 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -81,12 +81,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) f);
 
+    MESH_Add_Face(mesh,f);
+
 #ifdef MSTK_HAVE_MPI
     if (MF_PType(f) == PGHOST)
       MESH_Add_GhostFace(mesh,f);
-    else
+    else if (MF_PType(f) == POVERLAP)
+      MESH_Add_OverlapFace(mesh,f);
 #endif
-      MESH_Add_Face(mesh,f);
 
     (*MF_Restore_jmp[RTYPE])(f);
   }
diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 61910ca..4700532 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,9 +28,20 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int idx;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      if (adj && adj->fedges) {
+        idx = 0;
+        while ((e = List_Next_Entry(adj->fedges,&idx)))
+          ME_Rem_Face(e,f);
+      }
+    }
 
     if (!keep) {
-      adj = (MFace_Adj_F2F4 *) f->adj;
       if (adj) {
 	if (adj->fedges)
 	  List_Delete(adj->fedges);
@@ -40,7 +51,18 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int idx;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+    if (adj->fedges) {
+      idx = 0;
+      while ((e = List_Next_Entry(adj->fedges,&idx)))
+        ME_Add_Face(e,f);
+    }
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
diff --git a/src/base/MRegion.c b/src/base/MRegion.c
index 69d2871..4a818f3 100644
--- a/src/base/MRegion.c
+++ b/src/base/MRegion.c
@@ -85,12 +85,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) r);
 
+    MESH_Add_Region(mesh,r);
+
 #ifdef MSTK_HAVE_MPI
     if (MR_PType(r) == PGHOST)
       MESH_Add_GhostRegion(mesh,r);
-    else
+    else if (MR_PType(r) == POVERLAP)
+      MESH_Add_OverlapRegion(mesh,r);
 #endif
-      MESH_Add_Region(mesh,r);
 
     (*MR_Restore_jmp[RTYPE])(r);
   }
diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..7fafdc9 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -32,7 +32,7 @@ extern "C" {
     adj = (MRegion_Adj_FN *) r->adj;
 
     if (MEnt_Dim((MEntity_ptr) r) != MDELETED) { /* if regn hasnt been temporarily deleted */
-      if (adj) {
+      if (adj && adj->rfaces) {
 	idx = 0;
 	while ((f = List_Next_Entry(adj->rfaces,&idx))) {	  
 	  fedges = MF_Edges(f,1,0);
@@ -48,8 +48,10 @@ extern "C" {
 
     if (!keep) {
       if (adj) {
-	if (adj->rfaces)
+	if (adj->rfaces) {
+	  free(adj->fdirs);
 	  List_Delete(adj->rfaces);
+	}
 	free(adj);
       }
     }
diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 3097c58..ada4a33 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -83,12 +83,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) v);
 
+    MESH_Add_Vertex(mesh,v);
+
 #ifdef MSTK_HAVE_MPI
-    if (ME_PType(v) == PGHOST)
+    if (MV_PType(v) == PGHOST)
       MESH_Add_GhostVertex(mesh,v);
-    else
+    else if (MV_PType(v) == POVERLAP)
+      MESH_Add_OverlapVertex(mesh,v);
 #endif
-      MESH_Add_Vertex(mesh,v);
 
     (*MV_Restore_jmp[RTYPE])(v);
   }
-- 
2.43.0


From c85b8148283700cd258a001a86d240ecd634ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 14/50] fix: face vertex IDs of R2 and R4 meshes report their
 count and follow the requested direction

---
 src/base/MF_Vertex_Funcs_R2.c | 3 ++-
 src/base/MF_Vertex_Funcs_R4.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Vertex_Funcs_R2.c b/src/base/MF_Vertex_Funcs_R2.c
index af718c8..9dc5439 100644
--- a/src/base/MF_Vertex_Funcs_R2.c
+++ b/src/base/MF_Vertex_Funcs_R2.c
@@ -337,6 +337,7 @@ extern "C" {
     adj = (MFace_Adj_R2 *) f->adj;
     nv = List_Num_Entries(adj->fvertices);
 
+    *nfv = nv;
     if (!startvertid) {
       if (dir) {
         for (i = 0; i < nv; i++)
@@ -344,7 +345,7 @@ extern "C" {
       }
       else {
 	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+          fvertids[nv-1-i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
     }
     else {
diff --git a/src/base/MF_Vertex_Funcs_R4.c b/src/base/MF_Vertex_Funcs_R4.c
index 6af1153..660c778 100644
--- a/src/base/MF_Vertex_Funcs_R4.c
+++ b/src/base/MF_Vertex_Funcs_R4.c
@@ -275,6 +275,7 @@ extern "C" {
     adj = (MFace_Adj_R2 *) f->adj;
     nv = List_Num_Entries(adj->fvertices);
 
+    *nfv = nv;
     if (!startvertid) {
       if (dir) {
         for (i = 0; i < nv; i++)
@@ -282,7 +283,7 @@ extern "C" {
       }
       else {
 	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+          fvertids[nv-1-i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
     }
     else {
-- 
2.43.0


From 7ecda5095cf2fbab4076f87bfa39c807c11cad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 15/50] fix: simplex splits keep the model region of the split
 cells; face split by an edge releases its work arrays

---
 src/mod/ME_Split_SimplexMesh.c | 3 +++
 src/mod/MF_Split_SimplexMesh.c | 2 ++
 src/mod/MF_Split_with_Edge.c   | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/mod/ME_Split_SimplexMesh.c b/src/mod/ME_Split_SimplexMesh.c
index 9b0a5dd..2449cf5 100644
--- a/src/mod/ME_Split_SimplexMesh.c
+++ b/src/mod/ME_Split_SimplexMesh.c
@@ -35,6 +35,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(etets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
@@ -167,6 +168,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
+    MR_Set_GEntDim(r,3);
     MR_Set_GEntID(r,rid[i]);
 
     rvarr[0] = vsplit;
@@ -176,6 +178,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
+    MR_Set_GEntDim(r,3);
     MR_Set_GEntID(r,rid[i]);
   }
 
diff --git a/src/mod/MF_Split_SimplexMesh.c b/src/mod/MF_Split_SimplexMesh.c
index bbb6b97..87c8b37 100644
--- a/src/mod/MF_Split_SimplexMesh.c
+++ b/src/mod/MF_Split_SimplexMesh.c
@@ -41,6 +41,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(ftets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
@@ -123,6 +124,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
       rvarr[2] = tetverts[i][(j+1)%3];
       rvarr[3] = tetverts[i][3];
       MR_Set_Vertices(r, 4, rvarr, 0, NULL);
+      MR_Set_GEntDim(r,3);
       MR_Set_GEntID(r,rid[i]);
     }
   }
diff --git a/src/mod/MF_Split_with_Edge.c b/src/mod/MF_Split_with_Edge.c
index f5497f8..5c350b9 100644
--- a/src/mod/MF_Split_with_Edge.c
+++ b/src/mod/MF_Split_with_Edge.c
@@ -144,6 +144,8 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   free(fedirs0);
   free(fedges1);
   free(fedirs1);
+  free(fedirs);
+  List_Delete(felist);
 
   /* Update face lists of of connected regions */
 
-- 
2.43.0


From a9edb51ea44d91456fb2fcfa2304f48b58db220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 16/50] fix: a region lists a neighbour with which it shares
 several faces only once

---
 src/base/MR_Face_Funcs_FNR3R4.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 734cf1d..5b67565 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -412,18 +412,18 @@ extern "C" {
 	if (freg == r) {
 	  freg = MF_Region(face,1);
 	  if (freg) {
-   	    List_Add(adjr,freg);
+   	    List_ChknAdd(adjr,freg);
   	  }
 	}
 	else 
-	  List_Add(adjr,freg);
+	  List_ChknAdd(adjr,freg);
       }
     }
     return adjr;
   }
 
   void MR_AdjRegionIDs_FNR3R4(MRegion_ptr r, int *nradj, int *adjregids) {
-    int i, k, nf, rid;
+    int i, j, k, nf, rid;
     MRegion_Adj_FN *adj;
     
     rid = MEnt_ID((MEntity_ptr)r);
@@ -434,14 +434,14 @@ extern "C" {
     for (i = 0; i < nf; i++) {
       MFace_ptr face = List_Entry(adj->rfaces,i);
       int fregid = MF_RegionID(face,0);
+      if (fregid == rid)
+	fregid = MF_RegionID(face,1);
       if (fregid) {
-	if (fregid == rid) {
-	  fregid = MF_RegionID(face,1);
-	  if (fregid) {
-            adjregids[k++] = fregid;
-  	  }
-	}
-	else 
+	/* regions sharing several faces are listed only once */
+	for (j = 0; j < k; j++)
+	  if (adjregids[j] == fregid)
+	    break;
+	if (j == k)
 	  adjregids[k++] = fregid;
       }
     }
-- 
2.43.0


From 062d15c7040ece3a86fdcac0cf6b980c29faa54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 17/50] fix: replacing face edges in F4 meshes updates the
 regions of the edges; edges made from face vertices take the classification
 of the right vertex

---
 src/base/MF_Edge_Funcs_F2F4.c   | 19 ++++++++++++++++++-
 src/base/MF_Vertex_Funcs_F2F4.c |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..e8d72a7 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -201,7 +201,9 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev, idx;
+    MRegion_ptr r;
+    List_ptr fregs;
 
     adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -254,6 +256,8 @@ extern "C" {
     ncom = nold < nnu ? nold : nnu;
 
 
+    fregs = MF_Regions(f);
+
     /* Replace old edges with new ones (up to the common number of edges) */
 
     for (j = 0; j < ncom; j++) {
@@ -330,6 +334,19 @@ extern "C" {
       ME_Add_Face(newedges[j],f);
     }
 
+    /* The edges of an F4 mesh also know their regions */
+    if (fregs) {
+      idx = 0;
+      while ((r = List_Next_Entry(fregs,&idx))) {
+	for (j = 0; j < nold; j++)
+	  if (!MR_UsesEntity(r,(MEntity_ptr) oldedges[j],MEDGE))
+	    ME_Rem_Region(oldedges[j],r);
+	for (j = 0; j < nnu; j++)
+	  ME_Add_Region(newedges[j],r);
+      }
+      List_Delete(fregs);
+    }
+
     free(oldedges);
     free(olddirs);
     free(newedges);
diff --git a/src/base/MF_Vertex_Funcs_F2F4.c b/src/base/MF_Vertex_Funcs_F2F4.c
index 75301cc..2ff0f78 100644
--- a/src/base/MF_Vertex_Funcs_F2F4.c
+++ b/src/base/MF_Vertex_Funcs_F2F4.c
@@ -54,7 +54,7 @@ extern "C" {
 	}
 	else if (vgdim[(i+1)%n] > vgdim[i]) {
 	  egdim = vgdim[(i+1)%n];
-	  egid = vgid[i];
+	  egid = vgid[(i+1)%n];
 	}
 	else { /* vgdim[i] == vgdim[(i+1)%n] */
 	  if (vgdim[i] == 0) {
-- 
2.43.0


From 1f50f349037a056864e31ec450dcbbe7e540c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 18/50] fix: removing faces from a region leaves the other
 faces on their side; joining faces accepts either relative orientation,
 checks the second face's classification and releases memory when refused

---
 src/base/MR_Face_Funcs_FNR3R4.c | 13 ++++++++++---
 src/mod/MFs_Join.c              | 17 +++++++++++++----
 src/mod/MRs_Join.c              |  2 ++
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 5b67565..b806aa7 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -707,13 +707,20 @@ extern "C" {
                it from the list (this shifts all the subsequent faces up)
                Similarly shift all the face dirs up */
 
-            for (ii = i; ii < nf-1; ii++)
-              if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
-                MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
+            for (ii = i; ii < nf-1; ii++) {
+              /* move only the direction bit - the faces themselves
+                 stay on the same side of the region */
+              unsigned int dir = MR_FaceDir_i_FNR3R4(r,ii+1);
+              j = (int) ii/(8*sizeof(unsigned int));
+              k = ii%(8*sizeof(unsigned int));
+              adj->fdirs[j] = (adj->fdirs[j] & ~(1U<<k)) | (dir<<k);
+            }
             List_Remi(adj->rfaces,i);
+            nf--;
           }
           
           MF_Rem_Region(f,r);
+          break;
         }
       }
     }
diff --git a/src/mod/MFs_Join.c b/src/mod/MFs_Join.c
index 4de0580..1dd9816 100644
--- a/src/mod/MFs_Join.c
+++ b/src/mod/MFs_Join.c
@@ -27,7 +27,7 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     MSTK_Report("MFs_Join","Faces not from same mesh",MSTK_ERROR);
     return 0;
   }
-  else if (gid != MF_GEntID(f0) || gdim != MF_GEntDim(f0)) {
+  else if (gid != MF_GEntID(f1) || gdim != MF_GEntDim(f1)) {
     MSTK_Report("MFs_Join","Faces not from same geometric entity",MSTK_ERROR);
     return 0;
   }
@@ -48,7 +48,7 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     List_Delete(fregs);
   }
 
-  if (fr00 != fr10 || fr01 != fr11) {
+  if ((fr00 != fr10 || fr01 != fr11) && (fr00 != fr11 || fr01 != fr10)) {
     MSTK_Report("MFs_Join","Faces have incompatible regions connected to them",
                 MSTK_ERROR);
     return 0;
@@ -85,6 +85,9 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
 
   if (k0 == -1 || k1 == -1) {
     MSTK_Report("MFs_Join","Cannot find edge in face",MSTK_ERROR);
+    free(fe0); free(fedir0);
+    free(fe1); free(fedir1);
+    free(fe3); free(fedir3);
     return 0;
   }
 
@@ -94,8 +97,14 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
   }
 
   for (i = 0; i < nfe1-1; i++) {
-    fe3[(nfe0-1)+i] = fe1[(k1+1+i)%nfe1];
-    fedir3[(nfe0-1)+i] = fedir1[(k1+1+i)%nfe1];
+    if (fedir0[k0] != fedir1[k1]) {
+      fe3[(nfe0-1)+i] = fe1[(k1+1+i)%nfe1];
+      fedir3[(nfe0-1)+i] = fedir1[(k1+1+i)%nfe1];
+    }
+    else { /* faces use the edge in the same sense - traverse f1 backwards */
+      fe3[(nfe0-1)+i] = fe1[(k1+nfe1-1-i)%nfe1];
+      fedir3[(nfe0-1)+i] = !fedir1[(k1+nfe1-1-i)%nfe1];
+    }
   }
 
   
diff --git a/src/mod/MRs_Join.c b/src/mod/MRs_Join.c
index de4bf8b..e0bd23d 100644
--- a/src/mod/MRs_Join.c
+++ b/src/mod/MRs_Join.c
@@ -42,6 +42,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
   if (fcmn) {
     if (!MR_UsesEntity(r1,fcmn,MFACE)) {
       MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+      List_Delete(rfaces2);
       return 0;
     }
   }
@@ -80,6 +81,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
 
   if (!found) {
     MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+    free(rf2); free(rfdir2);
     return 0;
   }
 
-- 
2.43.0


From 9fba9c4a16128031fb16573ea54a615c8435f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 19/50] fix: merging faces releases its lists when refused

---
 src/mod/MFs_Merge_FN.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mod/MFs_Merge_FN.c b/src/mod/MFs_Merge_FN.c
index 1b58929..13baa67 100644
--- a/src/mod/MFs_Merge_FN.c
+++ b/src/mod/MFs_Merge_FN.c
@@ -64,6 +64,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
     MSTK_Report("MFs_Merge",
 		"To-be-merged faces have different number of edges",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
   
@@ -80,6 +82,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	MSTK_Report("MFs_Merge",
 		    "Edges of faces must be merged before merging faces",
 		    MSTK_ERROR);
+	List_Delete(fedges1);
+	List_Delete(fedges2);
 	return 0;
       }
     }
@@ -98,6 +102,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	MSTK_Report("MFs_Merge",
 		    "Edges of faces must be merged before merging faces",
 		    MSTK_ERROR);
+	List_Delete(fedges1);
+	List_Delete(fedges2);
 	return 0;
       }
     }
@@ -109,6 +115,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
     MSTK_Report("MFs_Merge",
 		"Edges of faces must be merged before merging faces",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
 
-- 
2.43.0


From 5602ddb67f66bba2331322ec17857e5be29a96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 20/50] fix: replacing a region vertex in R1/R2 meshes updates
 the regions of both vertices

---
 src/base/MR_Vertex_Funcs_R1.c | 6 ++++++
 src/base/MR_Vertex_Funcs_R2.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index ccf99ee..b599fdc 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -211,12 +211,15 @@ extern "C" {
     for (i = 0; i < nv; i++)
       if (v == (MVertex_ptr) List_Entry(adj->rvertices,i)) {
 	List_Replacei(adj->rvertices,i,nuv);
+	MV_Rem_Region(v,r);
+	MV_Add_Region(nuv,r);
 	return;
       }
   }
 
   void MR_Replace_Vertex_i_R1(MRegion_ptr r, int i, MVertex_ptr nuv) {
     MRegion_Adj_R1 *adj;
+    MVertex_ptr v;
 
 #ifdef DEBUG
     if (MR_Mesh(r) != MV_Mesh(nuv))
@@ -226,7 +229,10 @@ extern "C" {
 #endif
 
     adj = (MRegion_Adj_R1 *) r->adj;
+    v = List_Entry(adj->rvertices,i);
     List_Replacei(adj->rvertices,i,nuv);
+    MV_Rem_Region(v,r);
+    MV_Add_Region(nuv,r);
   }
 
 
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index 0cde9b2..02c8697 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -211,12 +211,15 @@ extern "C" {
     for (i = 0; i < nv; i++)
       if (v == (MVertex_ptr) List_Entry(adj->rvertices,i)) {
 	List_Replacei(adj->rvertices,i,nuv);
+	MV_Rem_Region(v,r);
+	MV_Add_Region(nuv,r);
 	return;
       }
   }
 
   void MR_Replace_Vertex_i_R2(MRegion_ptr r, int i, MVertex_ptr nuv) {
     MRegion_Adj_R2 *adj;
+    MVertex_ptr v;
 
 #ifdef DEBUG
     if (MR_Mesh(r) != MV_Mesh(nuv))
@@ -226,7 +229,10 @@ extern "C" {
 #endif
 
     adj = (MRegion_Adj_R2 *) r->adj;
+    v = List_Entry(adj->rvertices,i);
     List_Replacei(adj->rvertices,i,nuv);
+    MV_Rem_Region(v,r);
+    MV_Add_Region(nuv,r);
   }
 
 
-- 
2.43.0


From 5eb5e28b29b3c7d728326e9ff00637f49f597e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 21/50] fix: swapping an edge keeps the model face ID and
 refuses edges of solid cells, inconsistently oriented faces and vertices that
 are already connected

---
 src/mod/ME_Swap2D.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/mod/ME_Swap2D.c b/src/mod/ME_Swap2D.c
index a5b1ac7..e2e2375 100644
--- a/src/mod/ME_Swap2D.c
+++ b/src/mod/ME_Swap2D.c
@@ -23,8 +23,7 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
     MSTK_Report("ME_Swap2D","Can swap edges on model faces only",MSTK_ERROR);
     return 0;
   } 
-  /*  gid = ME_GEntID(eswp); */
-  gid = 0;
+  gid = ME_GEntID(eswp);
  
   /* Collect information */
 
@@ -33,14 +32,30 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
   v[1] = ME_Vertex(eswp,1);
 
   efaces = ME_Faces(eswp);
-  nf = List_Num_Entries(efaces);
+  nf = efaces ? List_Num_Entries(efaces) : 0;
 
   if (nf != 2) {
     MSTK_Report("ME_Swap2D","Edge must be connected to exactly two faces for 2D swap",MSTK_ERROR);
-    List_Delete(efaces);
+    if (efaces) List_Delete(efaces);
     return 0;
   }
 
+  for (k = 0; k < 2; k++) {
+    List_ptr fregs = MF_Regions(List_Entry(efaces,k));
+    if (fregs) {
+      MSTK_Report("ME_Swap2D","Cannot swap edge of faces connected to regions",MSTK_ERROR);
+      List_Delete(fregs);
+      List_Delete(efaces);
+      return 0;
+    }
+  }
+
+  if (MF_EdgeDir(List_Entry(efaces,0),eswp) == 
+      MF_EdgeDir(List_Entry(efaces,1),eswp)) {
+    MSTK_Report("ME_Swap2D","Faces of edge must be consistently oriented for 2D swap",MSTK_ERROR);
+    List_Delete(efaces);
+    return 0;
+  }
 
   k = 0;
   f[0] = List_Entry(efaces,0);
@@ -83,6 +98,10 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
 
   List_Delete(efaces);
 
+  if (MVs_CommonEdge(v[2],v[3])) {
+    MSTK_Report("ME_Swap2D","Vertices opposite the edge are already connected by an edge",MSTK_ERROR);
+    return 0;
+  }
 
   /* Delete old configuration */
 
-- 
2.43.0


From 10262b51104b98051dee25980eba568f19d145be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 22/50] fix: edge collapse keeps the requested vertex, prefers
 boundary vertices of solid meshes, keeps the entity of lower model dimension
 when merging and refuses merges of different model entities before changing
 the mesh

---
 src/mod/ME_Collapse.c | 79 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 73 insertions(+), 6 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..010c0cb 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -9,6 +9,51 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include "MSTK_private.h"
 
 
+/* Check that collapsing vdel onto vkeep does not merge edges or faces
+   classified on different model entities of the same dimension */
+
+static int merges_permitted(MVertex_ptr vdel, MVertex_ptr vkeep) {
+  int idx, i, nfv, ok = 1;
+  MEdge_ptr edge, edge2;
+  MFace_ptr face, face2;
+  MVertex_ptr overt, fverts2[MAXPV2];
+  List_ptr vedges, vfaces, fverts;
+
+  vedges = MV_Edges(vdel);
+  idx = 0;
+  while (ok && vedges && (edge = List_Next_Entry(vedges,&idx))) {
+    overt = ME_OppVertex(edge,vdel);
+    if (overt == vkeep) continue;
+
+    edge2 = MVs_CommonEdge(overt,vkeep);
+    if (edge2 && ME_GEntDim(edge) == ME_GEntDim(edge2) &&
+        ME_GEntID(edge) != ME_GEntID(edge2))
+      ok = 0;
+  }
+  if (vedges) List_Delete(vedges);
+
+  vfaces = MV_Faces(vdel);
+  idx = 0;
+  while (ok && vfaces && (face = List_Next_Entry(vfaces,&idx))) {
+    fverts = MF_Vertices(face,1,vdel);
+    nfv = List_Num_Entries(fverts);
+    if (!List_Contains(fverts,vkeep)) {
+      fverts2[0] = vkeep;
+      for (i = 1; i < nfv; i++)
+        fverts2[i] = List_Entry(fverts,i);
+
+      face2 = MVs_CommonFace(nfv,fverts2);
+      if (face2 && MF_GEntDim(face) == MF_GEntDim(face2) &&
+          MF_GEntID(face) != MF_GEntID(face2))
+        ok = 0;
+    }
+    List_Delete(fverts);
+  }
+  if (vfaces) List_Delete(vfaces);
+
+  return ok;
+}
+
 /*                                                                      */
 /* Collapse an edge                                                     */
 /*   All elements connected to this edge will be collapsed/deleted and  */
@@ -78,7 +123,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
       if (MV_GEntID(vkeep) != MV_GEntID(vdel))
         status = 0;                 /* cannot allow since it will cause 
                                        a dimensional reduction in mesh */
-      else {
+      else if (vkeep_in == NULL) {
         /* No restriction because of topology - pick the one with the
          * lower global ID to delete - important for parallel
          * operation consistency */
@@ -124,8 +169,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
     idx1 = 0;
     while ((edge = (MEdge_ptr) List_Next_Entry(vedges,&idx1))) {
       List_ptr efaces = ME_Faces(edge);
-      int nef = List_Num_Entries(efaces);
-      List_Delete(efaces);
+      int nef = efaces ? List_Num_Entries(efaces) : 0;
+      if (efaces) List_Delete(efaces);
       if (nef < 2) {
         vdel_external = 1;
         break;
@@ -141,18 +186,18 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
       vfaces = MV_Faces(vdel);
 
       idx1 = 0;
-      while ((face = (MFace_ptr) List_Next_Entry(vfaces,&idx1))) {
+      while (vfaces && (face = (MFace_ptr) List_Next_Entry(vfaces,&idx1))) {
         List_ptr fregs = MF_Regions(face);
         int nfr = fregs ? List_Num_Entries(fregs) : 0;
         if (fregs) List_Delete(fregs);
 
         if (nfr == 1) {
-          vdel_external = 0;
+          vdel_external = 1;
           break;
         }
       }
 
-      List_Delete(vfaces);
+      if (vfaces) List_Delete(vfaces);
     }
 
     if (vdel_external) {
@@ -169,6 +214,9 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
   }
 
 
+  if (status && topoflag == 1 && !merges_permitted(vdel,vkeep))
+    status = 0;
+
   if (status == 0)
     return NULL;   /* Cannot collapse due to constraints of topological
 		   conformity with geometric model */
@@ -450,6 +498,16 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
           List_Delete(efaces);
         }
     
+        /* Of two edges classified on model entities of different
+           dimension, the one on the lower dimensional entity is kept */
+
+        if (edge_on_boundary == edge2_on_boundary &&
+            ME_GEntDim(edge) != ME_GEntDim(edge2) &&
+            ME_GEntDim(edge) < 4 && ME_GEntDim(edge2) < 4) {
+          edge_on_boundary = (ME_GEntDim(edge) < ME_GEntDim(edge2));
+          edge2_on_boundary = !edge_on_boundary;
+        }
+
         if (edge_on_boundary == edge2_on_boundary) {
           /* if both edges are boundary edges or both are interior, then we
              don't have to worry about topological consistency of the
@@ -542,6 +600,15 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
           int face2_on_boundary = ((MF_PType(face2) != PGHOST) && !fregs2) ? 1 : 0;
           if (fregs2) List_Delete(fregs2);
 
+          /* Of two faces classified on model entities of different
+             dimension, the one on the lower dimensional entity is kept */
+
+          if (MF_GEntDim(face) != MF_GEntDim(face2) &&
+              MF_GEntDim(face) < 4 && MF_GEntDim(face2) < 4) {
+            face_on_boundary = (MF_GEntDim(face) < MF_GEntDim(face2));
+            face2_on_boundary = !face_on_boundary;
+          }
+
           if (face_on_boundary == face2_on_boundary) {
           /* if both faces are boundary faces or both are interior, then we
              don't have to worry about topological consistency of the
-- 
2.43.0


From ec9e3369dbc649863d1749362c5690b0b8bcd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 23/50] fix: F4 vertices list faces without regions also next
 to regions

---
 src/base/MVertex_F4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index c56811b..8f2d2e0 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -208,8 +208,8 @@ extern "C" {
 	}
 	List_Delete(eregions);
       }
-      else {
-	/* perhaps the edge has boundary faces (not connected to regions) */
+      {
+	/* perhaps the edge has (also) faces not connected to regions */
 	efaces = ME_Faces(edge);
 	if (efaces) {
 	  nf = List_Num_Entries(efaces);
-- 
2.43.0


From 6e0ab437e091046eb6842d59e1a19dbb69e5dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 24/50] fix: replacing edges of a face across the start of its
 edge list, in either order, and removing an F4 face's edge kept wrong
 directions or order

---
 src/base/MF_Edge_Funcs_F1F3.c | 61 ++++++++++++++--------------
 src/base/MF_Edge_Funcs_F2F4.c | 76 ++++++++++++++++++++---------------
 2 files changed, 74 insertions(+), 63 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..cc4b7cf 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -212,6 +212,22 @@ extern "C" {
       MSTK_Report("MF_Replace_Edge_i","No initial set of edges for face",
 		  MSTK_ERROR);
 
+    if (i+nold > ne && nold != nnu) {
+      /* The old edges span the start of the edge list and their number
+         changes. Start the list at the first edge after them */
+
+      int nrot = (i+nold)%ne;
+      for (j = 0; j < nrot; j++) {
+	MEdge_ptr fedge0 = List_Entry(adj->fedges,0);
+	dir = adj->edirs & 1UL;
+	List_Remi(adj->fedges,0);
+	List_Add(adj->fedges,fedge0);
+	adj->edirs = (adj->edirs>>1) & ~(1UL<<(ne-1));
+	adj->edirs = adj->edirs | ((unsigned long) dir<<(ne-1));
+      }
+      i -= nrot;
+    }
+
     oldedges = (MEdge_ptr *) malloc(nold*sizeof(MEdge_ptr));
     olddirs  = (int *) malloc(nold*sizeof(int));
     for (j = 0; j < nold; j++) {
@@ -309,7 +325,7 @@ extern "C" {
 	 move the remaining bits to the right */
       
       for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+	for (k = i+ncom; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -344,7 +360,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F1F3(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F1F3 *adj;
     MEdge_ptr fedge;
 
@@ -373,39 +389,22 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* Start replacing from the lowest index, unless the edge before some
+       old edge in the face is not an old edge. Then, the old edges start
+       there (the old edges could be given in either direction and could
+       be spanning the start vertex in the face vertex cycle) */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = 0;
+    for (i = 0; nold < ne && i < nold; i++) {
+      int iprev = (eindex[i]-1+ne)%ne;
+      for (j = 0, found = 0; j < nold && !found; j++)
+	found = (eindex[j] == iprev);
+      if (!found) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F1F3(f, nold, istart, nnu, nuedges);
 
     free(eindex);
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index e8d72a7..92e55d2 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -166,11 +166,13 @@ extern "C" {
     }
 
 
+    List_ptr fregs = MF_Regions(f);
+
     List_Remi(adj->fedges,eindex);
 
     /* Move the remaining bits to the right */
     int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -188,6 +190,17 @@ extern "C" {
 
     ME_Rem_Face(remedge,f);
 
+    /* Or to the regions of the face that do not use it otherwise */
+
+    if (fregs) {
+      MRegion_ptr r;
+      int idx = 0;
+      while ((r = List_Next_Entry(fregs,&idx)))
+	if (!MR_UsesEntity(r,(MEntity_ptr) remedge,MEDGE))
+	  ME_Rem_Region(remedge,r);
+      List_Delete(fregs);
+    }
+
   }
 
 
@@ -212,6 +225,22 @@ extern "C" {
       MSTK_Report("MF_Replace_Edge_i","No initial set of edges for face",
 		  MSTK_ERROR);
 
+    if (i+nold > ne && nold != nnu) {
+      /* The old edges span the start of the edge list and their number
+         changes. Start the list at the first edge after them */
+
+      int nrot = (i+nold)%ne;
+      for (j = 0; j < nrot; j++) {
+	MEdge_ptr fedge0 = List_Entry(adj->fedges,0);
+	dir = adj->edirs & 1UL;
+	List_Remi(adj->fedges,0);
+	List_Add(adj->fedges,fedge0);
+	adj->edirs = (adj->edirs>>1) & ~(1UL<<(ne-1));
+	adj->edirs = adj->edirs | ((unsigned long) dir<<(ne-1));
+      }
+      i -= nrot;
+    }
+
     oldedges = (MEdge_ptr *) malloc(nold*sizeof(MEdge_ptr));
     olddirs  = (int *) malloc(nold*sizeof(int));
     for (j = 0; j < nold; j++) {
@@ -311,7 +340,7 @@ extern "C" {
 	 move the remaining bits to the right */
       
       for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+	for (k = i+ncom; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -359,7 +388,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F2F4(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F2F4 *adj;
     MEdge_ptr fedge;
 
@@ -388,39 +417,22 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* Start replacing from the lowest index, unless the edge before some
+       old edge in the face is not an old edge. Then, the old edges start
+       there (the old edges could be given in either direction and could
+       be spanning the start vertex in the face vertex cycle) */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = 0;
+    for (i = 0; nold < ne && i < nold; i++) {
+      int iprev = (eindex[i]-1+ne)%ne;
+      for (j = 0, found = 0; j < nold && !found; j++)
+	found = (eindex[j] == iprev);
+      if (!found) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F2F4(f, nold, istart, nnu, nuedges);
 
     free(eindex);
-- 
2.43.0


From 862930b72e3930c31bccaee3f80fc52f2c782f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 25/50] fix: MESH_Delete leaked the faces explicitly added to
 R1/R2 meshes

---
 src/base/Mesh.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index da2a781..b285dfe 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -126,6 +126,13 @@ void MESH_Delete(Mesh_ptr mesh) {
     List_Delete(mesh->mregion);
   }
   if (mesh->hface) {
+    if (mesh->mface) {
+      /* Faces explicitly added to the mesh are not in the hash */
+      i = 0;
+      while ((mf = List_Next_Entry(mesh->mface,&i)))
+	if (!MEnt_IsVolatile(mf))
+	  MF_Destroy_For_MESH_Delete(mf);
+    }
     Hash_Delete(mesh->hface);
     if (mesh->mface) {
       /* Hash_Delete already cleaned all implicit face entities */
-- 
2.43.0


From 35ced895cbb7c5604a77c35a6db2df6e1d817fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 26/50] fix: MESH_Gen_Structured leaked a vertex column in 2D

---
 src/hilev/MESH_Gen_Structured.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MESH_Gen_Structured.c b/src/hilev/MESH_Gen_Structured.c
index f737c78..4907b0a 100644
--- a/src/hilev/MESH_Gen_Structured.c
+++ b/src/hilev/MESH_Gen_Structured.c
@@ -283,7 +283,7 @@ Mesh_ptr MESH_Gen_Structured(double lx, double ly, double lz,
     }
    
 
-    for (i = 0; i < nx; i++)
+    for (i = 0; i < nx+1; i++)
       free(verts[i]);
     free(verts);
 
-- 
2.43.0


From ee143e8210ef45ced20fc8007a8ddb02736aa85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 27/50] fix: MESH_InitFromGenDesc leaked its vertex arrays

---
 src/hilev/MESH_InitFromGenDesc.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/hilev/MESH_InitFromGenDesc.c b/src/hilev/MESH_InitFromGenDesc.c
index e0d54b0..d65fca9 100644
--- a/src/hilev/MESH_InitFromGenDesc.c
+++ b/src/hilev/MESH_InitFromGenDesc.c
@@ -27,19 +27,6 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
   MRegion_ptr mr;
 
 
-  verts = (MVertex_ptr *) malloc(nv*sizeof(MVertex_ptr));
-  
-
-  /* Create the mesh vertices */
-              
-  for (i = 0; i < nv; i++) {
-    verts[i] = MV_New(mesh);
-    MV_Set_Coords(verts[i],xyz[i]);
-	
-    MV_Set_ID(verts[i],i+1);
-  }
-      
-
   if (nf && nr) {
     
     MSTK_Report("MESH_InitFromGenDesc",
@@ -56,6 +43,19 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
   }
 
 
+  verts = (MVertex_ptr *) malloc(nv*sizeof(MVertex_ptr));
+  
+
+  /* Create the mesh vertices */
+              
+  for (i = 0; i < nv; i++) {
+    verts[i] = MV_New(mesh);
+    MV_Set_Coords(verts[i],xyz[i]);
+	
+    MV_Set_ID(verts[i],i+1);
+  }
+      
+
   max_nfv = 0;
   for (i = 0; i < nf; i++)
     if (nfv[i] > max_nfv)
@@ -111,7 +111,9 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
       else {
 	MSTK_Report("MESH_InitFromGenDesc",
 		    "No standard mesh shape for regions with more than 8 vertices",MSTK_WARN);
-	
+
+	free(rverts);
+	free(verts);
 	return 0;
 	
       }
@@ -142,6 +144,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
   }
 
 
+  if (rverts) free(rverts);
   if (verts) free(verts);
 
   return 1;
-- 
2.43.0


From 4e51f6599aa56b2c1475cfb68cf7c772ece9f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 28/50] fix: element graph grew its array with the wrong
 pointer, leaked lists of boundary sides and assumed IDs equal positions

---
 src/hilev/MESH_GetElementGraph.c | 43 ++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index 2506b50..e445672 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -18,6 +18,27 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 /* adjbeg - pointer to array containing the offsets of the adjelems list at */
 /*          which the adjacent elements are enumerated for each element     */
 
+/* Array giving the position in the mesh of the element with each ID (IDs may
+   not be contiguous, e.g. if elements were deleted) */
+
+static int *element_positions(Mesh_ptr mesh, int is3d) {
+  int maxid = 0, idx = 0;
+  MEntity_ptr ment;
+
+  while ((ment = is3d ? (MEntity_ptr) MESH_Next_Region(mesh, &idx) :
+	  (MEntity_ptr) MESH_Next_Face(mesh, &idx)))
+    if (MEnt_ID(ment) > maxid) maxid = MEnt_ID(ment);
+
+  int *elempos = (int *) malloc((maxid+1)*sizeof(int));
+  int i = 0;
+  idx = 0;
+  while ((ment = is3d ? (MEntity_ptr) MESH_Next_Region(mesh, &idx) :
+	  (MEntity_ptr) MESH_Next_Face(mesh, &idx)))
+    elempos[MEnt_ID(ment)] = i++;
+
+  return elempos;
+}
+
 int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 			 int **adjelems) {
 
@@ -29,6 +50,8 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
     int nalloc = 4*(*nelems);  /* start with assuming 4 nbrs per entity */
     *adjelems = (int *) malloc(nalloc*sizeof(int));
 
+    int *elempos = element_positions(mesh, 1);
+
     int pos = 0;
     int i = 0;
     int idx = 0;
@@ -41,7 +64,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MFace_ptr rf;
       while ((rf = List_Next_Entry(rfaces, &idx2))) {
 	List_ptr fregs = MF_Regions(rf);
-	if (List_Num_Entries(fregs) == 1) continue;
+	if (List_Num_Entries(fregs) == 1) {
+	  List_Delete(fregs);
+	  continue;
+	}
 
 	MRegion_ptr oppr;
 	if (List_Entry(fregs,0) == mr)
@@ -50,9 +76,9 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,0);
 	if (pos == nalloc) {
 	  nalloc *= 2;
-	  *adjelems = (int *) realloc(adjelems, nalloc*sizeof(int));
+	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	}
-	(*adjelems)[pos] = MR_ID(oppr)-1;
+	(*adjelems)[pos] = elempos[MR_ID(oppr)];
 	pos++;
 	
 	List_Delete(fregs);
@@ -61,6 +87,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       i++;
     }
     (*adjbeg)[*nelems] = pos;
+    free(elempos);
 
   } else {
 
@@ -70,6 +97,8 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
     int nalloc = 4*(*nelems);  /* start with assuming 4 nbrs per entity */
     *adjelems = (int *) malloc(nalloc*sizeof(int));
 
+    int *elempos = element_positions(mesh, 0);
+
     int pos = 0;
     int i = 0;
     int idx = 0;
@@ -82,7 +111,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MEdge_ptr fe;
       while ((fe = List_Next_Entry(fedges, &idx2))) {
 	List_ptr efaces = ME_Faces(fe);
-	if (List_Num_Entries(efaces) == 1) continue;
+	if (List_Num_Entries(efaces) == 1) {
+	  List_Delete(efaces);
+	  continue;
+	}
 
 	/* have to account for non-manifold configurations */
 	int idx3 = 0;
@@ -93,7 +125,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	      nalloc *= 2;
 	      *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	    }
-	    (*adjelems)[pos] = MF_ID(ef)-1;
+	    (*adjelems)[pos] = elempos[MF_ID(ef)];
 	    pos++;
 	  }
 	}
@@ -103,6 +135,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       i++;
     }
     (*adjbeg)[*nelems] = pos;
+    free(elempos);
   }
 
   return 1;
-- 
2.43.0


From be293094d5d85f529b1454576912c59b53b3596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 29/50] fix: Tri2Quad and Tet2Hex left attributes and a partial
 mesh behind when refusing other meshes

---
 src/hilev/MESH_Tet2Hex.c  | 14 ++++++++++----
 src/hilev/MESH_Tri2Quad.c | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/hilev/MESH_Tet2Hex.c b/src/hilev/MESH_Tet2Hex.c
index 0662032..63c5521 100644
--- a/src/hilev/MESH_Tet2Hex.c
+++ b/src/hilev/MESH_Tet2Hex.c
@@ -52,6 +52,16 @@ extern "C" {
     nV = MESH_Num_Vertices(tetmesh);
     nR = MESH_Num_Regions(tetmesh);
     
+    *hexmesh = NULL;
+
+    idr = 0;
+    while( (ptr_r = MESH_Next_Region(tetmesh, &idr)) ) {
+      if( MR_ElementType(ptr_r) != TET ) {
+	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
     *hexmesh = MESH_New(MESH_RepType(tetmesh));
     
     
@@ -99,10 +109,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(tetmesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
diff --git a/src/hilev/MESH_Tri2Quad.c b/src/hilev/MESH_Tri2Quad.c
index 8f0407c..f7ee1ed 100644
--- a/src/hilev/MESH_Tri2Quad.c
+++ b/src/hilev/MESH_Tri2Quad.c
@@ -50,6 +50,16 @@ extern "C" {
     nV = MESH_Num_Vertices(trimesh);
     nF = MESH_Num_Faces(trimesh);
     
+    *quadmesh = NULL;
+
+    idf = 0;
+    while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
+      if( MF_Num_Vertices(ptr_f) != 3 ) {
+	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
     *quadmesh = MESH_New(MESH_RepType(trimesh));
     
     
@@ -97,10 +107,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
-- 
2.43.0


From 78044c20edba2d51e0a55817b09b1413602acc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 30/50] fix: MFs_DihedralAngle: use the second face's own
 vertex count to choose its reference point

---
 src/hilev/MFs_DihedralAngle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MFs_DihedralAngle.c b/src/hilev/MFs_DihedralAngle.c
index c4c0d13..1eccf79 100644
--- a/src/hilev/MFs_DihedralAngle.c
+++ b/src/hilev/MFs_DihedralAngle.c
@@ -119,7 +119,7 @@ extern "C" {
 
     MSTK_VDiff3(fxyz[1],fxyz[0],vec1);
 
-    if (nfv1 == 3) { /* Triangles - always convex */
+    if (nfv2 == 3) { /* Triangles - always convex */
       MSTK_VDiff3(fxyz[2],fxyz[0],vec2);
     }
     else { /* Others - can be non-convex */
-- 
2.43.0


From 710d4e89c19ead11e76aa3f4ecb3998f4d60e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 31/50] fix: Graph_Renumber_GPS: number every node of any graph
 once (disconnected graphs, unreached nodes, buffer overflow, leak)

---
 src/util/Graph_renumber.c | 140 ++++++++++++++++++++++++++++++++++----
 1 file changed, 125 insertions(+), 15 deletions(-)

diff --git a/src/util/Graph_renumber.c b/src/util/Graph_renumber.c
index 0abb100..7391122 100644
--- a/src/util/Graph_renumber.c
+++ b/src/util/Graph_renumber.c
@@ -27,21 +27,10 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
                           int n_beg, int n_end, int level[], int nodemap[]);
 
 
-/* 
-   Renumber nodes of a graph according to the Gibbs-Pool-Stockmeyer algorithm 
-   with George-Liu modifications to find the pseudo-peripheral nodes
-
-   nnodes   (in)      -- Number of nodes in the graph
-   nstart   (in)      -- Start node (optional - can be 0 if not known)
-   nadj     (in)      -- number of neighbors for each node
-   adj      (in)      -- array containing the neighbors of each node
-   nodemap  (out)     -- new numbers for the nodes (starting from 0)
-   depth    (out)     -- Number of levels of nodes
-   maxwidth (out)     -- maxwidth of any level
-*/
+/* Renumber the nodes of a connected graph - see Graph_Renumber_GPS */
 
-int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj, 
-                       int *nodemap, int *depth, int *maxwidth) {
+static int Graph_Renumber_Connected(int nnodes, int nstart, int *nadj, int *adj, 
+                                    int *nodemap, int *depth, int *maxwidth) {
   int i, j, k, d, l, n_1, n_k, nnew, ncset;
   int curlev, curnode;
   int curdepth, curmaxwidth, minmaxwidth, newmaxwidth, newdepth;
@@ -101,6 +90,96 @@ int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj,
 
 
 
+/* 
+   Renumber nodes of a graph according to the Gibbs-Pool-Stockmeyer algorithm 
+   with George-Liu modifications to find the pseudo-peripheral nodes. The 
+   algorithm works on connected graphs, so the connected components of the
+   graph are numbered one after the other, beginning with that of the start 
+   node
+
+   nnodes   (in)      -- Number of nodes in the graph
+   nstart   (in)      -- Start node (optional - can be 0 if not known)
+   nadj     (in)      -- number of neighbors for each node
+   adj      (in)      -- array containing the neighbors of each node
+   nodemap  (out)     -- new numbers for the nodes (starting from 0)
+   depth    (out)     -- Number of levels of nodes
+   maxwidth (out)     -- maxwidth of any level
+*/
+
+int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj, 
+                       int *nodemap, int *depth, int *maxwidth) {
+  int i, j, k, n, ndone, nadjall, curdepth, curmaxwidth;
+  int *offset, *nodes, *locid, *nadj1, *adj1, *nodemap1;
+
+  *depth = *maxwidth = 0;
+  if (nnodes <= 0) return 1;
+
+  offset = (int *) malloc(nnodes*sizeof(int));
+  offset[0] = 0;
+  for (i = 1; i < nnodes; i++)
+    offset[i] = offset[i-1] + nadj[i-1];
+  nadjall = offset[nnodes-1] + nadj[nnodes-1];
+
+  nodes = (int *) malloc(nnodes*sizeof(int));    /* nodes of the component */
+  locid = (int *) malloc(nnodes*sizeof(int));    /* number in component or -1 */
+  nadj1 = (int *) malloc(nnodes*sizeof(int));
+  adj1 = (int *) malloc((nadjall+1)*sizeof(int));
+  nodemap1 = (int *) malloc(nnodes*sizeof(int));
+
+  for (i = 0; i < nnodes; i++) locid[i] = -1;
+
+  ndone = 0;
+  for (i = -1; i < nnodes; i++) {
+    int start = (i == -1) ? nstart : i;
+    if (locid[start] != -1) continue;
+
+    /* collect the connected component of the start node */
+
+    nodes[0] = start; locid[start] = 0;
+    n = 1;
+    for (j = 0; j < n; j++)
+      for (k = 0; k < nadj[nodes[j]]; k++) {
+        int adjnode = adj[offset[nodes[j]]+k];
+        if (locid[adjnode] == -1) {
+          locid[adjnode] = n;
+          nodes[n++] = adjnode;
+        }
+      }
+
+    if (n == nnodes) /* connected graph */
+      Graph_Renumber_Connected(nnodes, nstart, nadj, adj, nodemap, depth, 
+                               maxwidth);
+    else {
+      int nadj1all = 0;
+      for (j = 0; j < n; j++) {
+        nadj1[j] = nadj[nodes[j]];
+        for (k = 0; k < nadj1[j]; k++)
+          adj1[nadj1all++] = locid[adj[offset[nodes[j]]+k]];
+      }
+
+      Graph_Renumber_Connected(n, 0, nadj1, adj1, nodemap1, &curdepth,
+                               &curmaxwidth);
+
+      for (j = 0; j < n; j++)
+        nodemap[nodes[j]] = ndone + nodemap1[j];
+      if (curdepth > *depth) *depth = curdepth;
+      if (curmaxwidth > *maxwidth) *maxwidth = curmaxwidth;
+    }
+    ndone += n;
+  }
+
+  free(offset);
+  free(nodes);
+  free(locid);
+  free(nadj1);
+  free(adj1);
+  free(nodemap1);
+
+  return 1;
+}
+
+
+
 /* Given a graph and a starting node, build a level structure and
    return some information about it.
 
@@ -409,7 +488,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       
         cset[0] = unmarked_node;
         ncset = 1;
-        tag[i] = 1;
+        tag[unmarked_node] = 1;
       
         for (j = 0; j < ncset; j++) {
           int node = cset[j];
@@ -505,6 +584,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       done = 1;
   } 
 
+  *depth = curdepth;
   *maxwidth = 0;
   for (i = 0; i < curdepth; i++)
     *maxwidth = baselevelwidth[i] > (*maxwidth) ? baselevelwidth[i] : (*maxwidth);
@@ -516,6 +596,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
   free(cset);
   free(tag);
   free(maxcset);
+  free(unmarked_nodes);
   free(levelpairs);
   free(zeros);
 }
@@ -596,6 +677,18 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
     /* For each of these nodes number the adjacent nodes that are in
        the SAME level by increasing degree (valence) */
 
+    if (!ncurlevnodes) { /* none of the nodes in the level was reached */
+      int next = -1;
+      for (j = 0; j < nnodes; j++)
+        if (level[j] == lev && (next == -1 || nadj[j] < nadj[next])) next = j;
+      if (next != -1) {
+        nodemap[next] = nnew++;
+        tag[next] = 1;
+        curlevnodes[ncurlevnodes] = next;
+        ncurlevnodes++;
+      }
+    }
+
     i = 0;
     while (i < ncurlevnodes) {
       int off, node;
@@ -633,6 +726,23 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
       }
 
       i++;
+
+      /* When there is nothing left to visit, pick up a node of this
+         level which has no neighbor in the previous level or among
+         the nodes already numbered in this level */
+
+      if (i == ncurlevnodes) {
+        int next = -1;
+        for (j = 0; j < nnodes; j++)
+          if (level[j] == lev && nodemap[j] == -1 &&
+              (next == -1 || nadj[j] < nadj[next])) next = j;
+        if (next != -1) {
+          nodemap[next] = nnew++;
+          tag[next] = 1;
+          curlevnodes[ncurlevnodes] = next;
+          ncurlevnodes++;
+        }
+      }
     }
 
     /* Next, for each of these nodes number the adjacent nodes that are in
-- 
2.43.0


From eb18b3cd437aa27ed33310b9ef53b26f6ff1d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 32/50] fix: MESH_Renumber: bandwidth renumbering of any mesh
 (gaps in IDs, isolated vertices, several components, dense graphs) without
 stray attributes

---
 src/hilev/MESH_Renumber.c | 128 +++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 72 deletions(-)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 4dde840..ddbddaf 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -40,13 +40,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
   int idx, idx2, idx3;
   int i, j;
   int done;
-  MAttrib_ptr vidatt;
   List_ptr vlist;
   double xyz[3];
-  double rval;
   int bandwidth, maxbandwidth1, maxbandwidth2;
   double avebandwidth1, avebandwidth2;
-  void *pval;
 
   if (renum_type == 0) {
     if (mtype == MVERTEX || mtype == MALLTYPE) {
@@ -80,16 +77,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
   else if (renum_type == 1) {
     double minx, miny, minz;
     int minid, maxid;
-    int *nadj, *newmap, *adj, *offset, nconn;
+    int *nadj, *newmap, *adj, *offset, nconn = 0;
     int nalloc, depth, maxwidth;
+
+    /* The graph of connections is set up in terms of IDs so make sure that
+       the ID of every entity matches its position in the mesh */
+
+    MESH_Renumber(mesh,0,mtype);
         
 #ifdef MSTK_USE_MARKERS
     int mkid = MSTK_GetMarker();
-#else
-    MAttrib_ptr mkatt = MAttrib_New(mesh, "mkatt", INT, MALLTYPE);
 #endif
 
-    if (mtype == MVERTEX || mtype == MALLTYPE) { 
+    if ((mtype == MVERTEX || mtype == MALLTYPE) && MESH_Num_Vertices(mesh)) { 
       int nv = MESH_Num_Vertices(mesh);      
       
       /* Compute a graph of vertex connections across elements (faces
@@ -98,7 +98,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       /* Start with the vertex in the lower leftmost corner */
       
       minx = miny = minz = 1.0e+12;
-      v0 = NULL;
+      v0 = MESH_Vertex(mesh,0);
       idx = 0;
       while ((mv = MESH_Next_Vertex(mesh,&idx))) {
 	MV_Coords(mv,xyz);
@@ -127,7 +127,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vfaces = MV_Faces(mv);
           idx2 = 0;
-          while ((vf = List_Next_Entry(vfaces,&idx2))) {
+          while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
             List_ptr fverts = MF_Vertices(vf,1,0);
             idx3 = 0;
             while ((adjv = List_Next_Entry(fverts,&idx3))) {
@@ -136,21 +136,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #ifdef MSTK_USE_MARKERS
                 vmarked = MEnt_IsMarked(adjv,mkid);
 #else
-                MEnt_Get_AttVal(adjv, mkatt, &vmarked, &rval, &pval);
+                vmarked = List_Contains(adjvlist,adjv);
 #endif
                 if (!vmarked) {
                   List_Add(adjvlist,adjv);
 #ifdef MSTK_USE_MARKERS
                   MEnt_Mark(adjv,mkid);
-#else
-                  MEnt_Set_AttVal(adjv, mkatt, 1, 0.0, NULL);
 #endif
                 }
               }
             }
             List_Delete(fverts);
           }
-          List_Delete(vfaces);
+          if (vfaces) List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
 #endif
@@ -158,7 +156,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjvlist);
           
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -182,7 +180,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vregions = MV_Regions(mv);
           idx2 = 0;
-          while ((vr = List_Next_Entry(vregions,&idx2))) {
+          while (vregions && (vr = List_Next_Entry(vregions,&idx2))) {
             List_ptr rverts = MR_Vertices(vr);
             idx3 = 0;
             while ((adjv = List_Next_Entry(rverts,&idx3))) {
@@ -191,21 +189,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #ifdef MSTK_USE_MARKERS
                 vmarked = MEnt_IsMarked(adjv,mkid);
 #else
-                MEnt_Get_AttVal(adjv, mkatt, &vmarked, &rval, &pval);
+                vmarked = List_Contains(adjvlist,adjv);
 #endif
                 if (!vmarked) {
                   List_Add(adjvlist,adjv);
 #ifdef MSTK_USE_MARKERS
                   MEnt_Mark(adjv,mkid);
-#else
-                  MEnt_Set_AttVal(adjv, mkatt, 1, 0.0, NULL);
 #endif
                 }
               }
             }
             List_Delete(rverts);
           }
-          List_Delete(vregions);
+          if (vregions) List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
 #endif
@@ -213,7 +209,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjvlist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -324,7 +320,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent nodes
        in ascending order of their valence) */
 
-    if (mtype == MEDGE || mtype == MALLTYPE) {
+    if ((mtype == MEDGE || mtype == MALLTYPE) && MESH_Num_Edges(mesh)) {
       int ne = MESH_Num_Edges(mesh);
       MEdge_ptr ve;
       List_ptr elist;
@@ -339,13 +335,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 	   connected to the starting vertex as the first edge */
 
 	List_ptr vedges = MV_Edges(v0);
-	e0 = List_Entry(vedges,0);
-	List_Delete(vedges);
+	e0 = (vedges && List_Num_Entries(vedges)) ?
+            List_Entry(vedges,0) : MESH_Edge(mesh,0);
+	if (vedges) List_Delete(vedges);
       }
       else {
 	/* Find the edge whose mid point is a minimum point */
 	minx = miny = minz = 1.0e+12;
-	e0 = NULL;
+	e0 = MESH_Edge(mesh,0);
 	idx = 0;
 	while ((me = MESH_Next_Edge(mesh,&idx))) {
           double exyz[2][3];
@@ -381,7 +378,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           efaces = ME_Faces(me);
           idx2 = 0;
-          while ((ef = List_Next_Entry(efaces,&idx2))) {
+          while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
             List_ptr fedges = MF_Edges(ef,1,0);
             idx3 = 0;
             while ((adje = List_Next_Entry(fedges,&idx3))) {
@@ -390,21 +387,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #ifdef MSTK_USE_MARKERS
                 emarked = MEnt_IsMarked(adje,mkid);
 #else
-                MEnt_Get_AttVal(adje, mkatt, &emarked, &rval, &pval);
+                emarked = List_Contains(adjelist,adje);
 #endif
                 if (!emarked) {
                   List_Add(adjelist,adje);
 #ifdef MSTK_USE_MARKERS
                   MEnt_Mark(adje,mkid);
-#else
-                  MEnt_Set_AttVal(adje, mkatt, 1, 0.0, NULL);
 #endif
                 }
               }
             }
             List_Delete(fedges);
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
 #endif
@@ -412,7 +407,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjelist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -436,7 +431,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           eregions = ME_Regions(me);
           idx2 = 0;
-          while ((er = List_Next_Entry(eregions,&idx2))) {
+          while (eregions && (er = List_Next_Entry(eregions,&idx2))) {
             List_ptr redges = MR_Edges(er);
             idx3 = 0;
             while ((adje = List_Next_Entry(redges,&idx3))) {
@@ -445,21 +440,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #ifdef MSTK_USE_MARKERS
                 emarked = MEnt_IsMarked(adje,mkid);
 #else
-                MEnt_Get_AttVal(adje, mkatt, &emarked, &rval, &pval);
+                emarked = List_Contains(adjelist,adje);
 #endif
                 if (!emarked) {
                   List_Add(adjelist,adje);
 #ifdef MSTK_USE_MARKERS
                   MEnt_Mark(adje,mkid);
-#else
-                  MEnt_Set_AttVal(adje, mkatt, 1, 0.0, NULL);
 #endif
                 }
               }
             }
             List_Delete(redges);
           }
-          List_Delete(eregions);
+          if (eregions) List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
 #endif
@@ -467,7 +460,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjelist);
           
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
           
@@ -580,7 +573,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent graph nodes
        in ascending order of their valence) */
 
-    if (mtype == MFACE || mtype == MALLTYPE) {      
+    if ((mtype == MFACE || mtype == MALLTYPE) && MESH_Num_Faces(mesh)) {      
       int nf = MESH_Num_Faces(mesh);
 
       if (mtype == MALLTYPE) { 
@@ -589,13 +582,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
            connected to the starting vertex as the first edge */
 
         List_ptr vfaces = MV_Faces(v0);
-        f0 = List_Entry(vfaces,0);
-        List_Delete(vfaces);
+        f0 = (vfaces && List_Num_Entries(vfaces)) ?
+            List_Entry(vfaces,0) : MESH_Face(mesh,0);
+        if (vfaces) List_Delete(vfaces);
       }
       else {
         /* Find the face whose mid point is a minimum point */
         minx = miny = minz = 1.0e+12;
-        f0 = NULL;
+        f0 = MESH_Face(mesh,0);
         idx = 0;
         while ((mf = MESH_Next_Face(mesh,&idx))) {
           double fxyz[MAXPV2][3];
@@ -640,25 +634,23 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           while ((fv = List_Next_Entry(fverts,&idx2))) {
             List_ptr vfaces = MV_Faces(fv);
             idx3 = 0;
-            while ((adjf = List_Next_Entry(vfaces,&idx3))) {
+            while (vfaces && (adjf = List_Next_Entry(vfaces,&idx3))) {
               if (adjf != mf) {
                 int fmarked;
 #ifdef MSTK_USE_MARKERS
                 fmarked = MEnt_IsMarked(adjf,mkid);
 #else
-                MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
+                fmarked = List_Contains(adjflist,adjf);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
-#else
-                  MEnt_Set_AttVal(adjf, mkatt, 1, 0.0, NULL);
 #endif
                 }
               }
             }	    
-            List_Delete(vfaces);
+            if (vfaces) List_Delete(vfaces);
           }
           List_Delete(fverts);
 #ifdef MSTK_USE_MARKERS
@@ -668,7 +660,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjflist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -692,7 +684,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjflist = List_New(0);
           fregions = MF_Regions(mf);
           idx2 = 0;
-          while ((fr = List_Next_Entry(fregions,&idx2))) {
+          while (fregions && (fr = List_Next_Entry(fregions,&idx2))) {
             List_ptr rfaces = MR_Faces(fr);
             idx3 = 0;
             while ((adjf = List_Next_Entry(rfaces,&idx3))) {
@@ -701,21 +693,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #ifdef MSTK_USE_MARKERS
                 fmarked = MEnt_IsMarked(adjf,mkid);
 #else
-                MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
+                fmarked = List_Contains(adjflist,adjf);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
-#else
-                  MEnt_Set_AttVal(adjf, mkatt, 1, 0.0, NULL);
 #endif
                 }
               }
             }
             List_Delete(rfaces);
           }
-          List_Delete(fregions);
+          if (fregions) List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
 #endif
@@ -723,7 +713,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjflist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -863,13 +853,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
              region */
 
           List_ptr vregions = MV_Regions(v0);
-          r0 = List_Entry(vregions,0);
-          List_Delete(vregions);
+          r0 = (vregions && List_Num_Entries(vregions)) ?
+            List_Entry(vregions,0) : MESH_Region(mesh,0);
+          if (vregions) List_Delete(vregions);
         }
         else {
           /* Find the region whose center point is a minimum point */
           minx = miny = minz = 1.0e+12;
-          r0 = NULL;
+          r0 = MESH_Region(mesh,0);
           idx = 0;
           while ((mr = MESH_Next_Region(mesh,&idx))) {
             double rxyz[MAXPV3][3];
@@ -913,23 +904,23 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           while ((rv = List_Next_Entry(rverts,&idx2))) {
             List_ptr vregions = MV_Regions(rv);
             idx3 = 0;
-            while ((adjr = List_Next_Entry(vregions,&idx3))) {
+            while (vregions && (adjr = List_Next_Entry(vregions,&idx3))) {
               if (adjr != mr) {
                 int rmarked;
 #ifdef MSTK_USE_MARKERS
                 rmarked = MEnt_IsMarked(adjr,mkid);
 #else
-                MEnt_Get_AttVal(adjr, mkatt, &rmarked, &rval, &pval);
+                rmarked = List_Contains(adjrlist,adjr);
 #endif
-                List_Add(adjrlist,adjr);
+                if (!rmarked) {
+                  List_Add(adjrlist,adjr);
 #ifdef MSTK_USE_MARKERS
-                MEnt_Mark(adjr,mkid);
-#else
-                MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
+                  MEnt_Mark(adjr,mkid);
 #endif
+                }
               }
             }	    
-            List_Delete(vregions);
+            if (vregions) List_Delete(vregions);
           }
           List_Delete(rverts);
 #ifdef MSTK_USE_MARKERS
@@ -939,7 +930,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           nadj[i] = List_Num_Entries(adjrlist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -1052,13 +1043,6 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
   }
   
 
-  vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
-  idx = 0;
-  while ((mv = MESH_Next_Vertex(mesh,&idx))) {
-    MEnt_Set_AttVal(mv,vidatt,MV_ID(mv),0.0,NULL);
-  }
- 
-
   /* We have to reset the max IDs stored in the mesh so that we can correctly
      assign IDs to new entities */
 
-- 
2.43.0


From 9ed54b38356b096a11c60bb396911050b12910a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 33/50] fix: MESH_BuildClassfn: compare whole sets of model
 faces/edges, recognise sharp edges inside a model face, free memory of
 isolated edges and vertices

---
 src/hilev/MESH_BuildEdgeClassfn.c   | 24 ++++++++++++------------
 src/hilev/MESH_BuildVertexClassfn.c | 20 ++++++++++----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 93fb511..1147a13 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -158,8 +158,10 @@ extern "C" {
 	geids[ngedges] = max_gedge_id;
 	gefaceids[ngedges] = malloc(1*sizeof(int *));
 	gefaceids[ngedges][0] = 0;
+	ngedges++;
       }
 
+      if (efaces) List_Delete(efaces);
       continue; /* nothing else to do */
     }
 
@@ -203,8 +205,8 @@ extern "C" {
 	    if (gefaceids[i][0] != 2)
 	      continue;
 
-	    if ((loc_gfids[0] == gefaceids[i][0]) && 
-		(gefaceids[i][0] == gefaceids[i][1])) {
+	    if ((loc_gfids[0] == gefaceids[i][1]) && 
+		(gefaceids[i][1] == gefaceids[i][2])) {
 	      fnd = 1;
 	      break;
 	    }
@@ -296,22 +298,20 @@ extern "C" {
 	if (ngef != gefaceids[i][0]) 
 	  continue; /* number of connected model faces is different */
 	
-	/* see if all the model faces of the current edge can be found
-	   in the i'th model edge's faces */
+	/* see if every model face of the current edge occurs as many
+	   times among the i'th model edge's faces as it does around
+	   the current edge */
 
 	fnd2 = 0;
 	for (j = 0; j < ngef; j++) {
-	  
-	  fnd2 = 0;
+	  int nloc = 0, nge = 0;
+
 	  for (k = 0; k < ngef; k++) {
-	    if (loc_gfids[j] == gefaceids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
+	    if (loc_gfids[j] == loc_gfids[k]) nloc++;
+	    if (loc_gfids[j] == gefaceids[i][1+k]) nge++;
 	  }
 
-	  /* Did not find loc_gfid[j] in the list gefaceids[i] */
-
+	  fnd2 = (nloc == nge);
 	  if (!fnd2)
 	    break;
 	}
diff --git a/src/hilev/MESH_BuildVertexClassfn.c b/src/hilev/MESH_BuildVertexClassfn.c
index 4356acc..99c95ac 100644
--- a/src/hilev/MESH_BuildVertexClassfn.c
+++ b/src/hilev/MESH_BuildVertexClassfn.c
@@ -124,7 +124,9 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
       gvids[ngverts] = max_gvert_id;
       gvedgeids[ngverts] = malloc(1*sizeof(int *));
       gvedgeids[ngverts][0] = 0;
+      ngverts++;
 
+      if (vedges) List_Delete(vedges);
       continue; /* nothing else to do */
     }
 
@@ -281,22 +283,20 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 	if (ngve != gvedgeids[i][0]) 
 	  continue; /* number of connected model edges is different */
 	
-	/* see if all the model edges of the current vertex can be
-	   found in the i'th model vertex's edges */
+	/* see if every model edge of the current vertex occurs as many
+	   times among the i'th model vertex's edges as it does around
+	   the current vertex */
 
 	fnd2 = 0;
 	for (j = 0; j < ngve; j++) {
-	  
-	  fnd2 = 0;
+	  int nloc = 0, nge = 0;
+
 	  for (k = 0; k < ngve; k++) {
-	    if (loc_geids[j] == gvedgeids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
+	    if (loc_geids[j] == loc_geids[k]) nloc++;
+	    if (loc_geids[j] == gvedgeids[i][1+k]) nge++;
 	  }
 
-	  /* Did not find loc_gfid[j] in the list gvedgeids[i] */
-
+	  fnd2 = (nloc == nge);
 	  if (!fnd2)
 	    break;
 	}
-- 
2.43.0


From 3fba25c7454c4cf27ca04ce6d9a0899b18630237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 34/50] fix: MESH_CheckTopo: reject what it reports as errors,
 survive broken adjacencies, walk around boundary edges in both directions

---
 src/hilev/MESH_CheckTopo.c | 48 +++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..aae33c6 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -126,18 +126,19 @@ extern "C" {
 
 	found = 0;
 	idx2 = 0;
-	while ((vf = List_Next_Entry(vfaces,&idx2))) {
+	while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
 	  if (MF_GEntDim(vf) == 2) {
 	    found = 1;
 	    break;
 	  }
 	}
-        List_Delete(vfaces);
+        if (vfaces) List_Delete(vfaces);
 
 	if (!found) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
 	  valid = 0;
+	  continue;
 	}
 
 	fcur = vf;
@@ -155,14 +156,14 @@ extern "C" {
 	  efaces = ME_Faces(ecur);
 	  found = 0;
 	  idx3 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx3))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx3))) {
 	    if (ef != fcur && MF_GEntDim(ef) == 2 && MF_GEntID(ef) == gvid) {
 	      fcur = ef;
 	      found = 1;
 	      break;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (!found) {
 	    sprintf(mesg,"Could not find next boundary face connected to vertex %-d",vid);
@@ -183,6 +184,7 @@ extern "C" {
           else {
             sprintf(mesg,"Could not find next edge while traversing around vertex %-d on model face %-d",vid,gvid);
             MSTK_Report(funcname,mesg,MSTK_ERROR);
+            valid = 0;
           }
 
 	  List_Delete(fedges);
@@ -201,7 +203,7 @@ extern "C" {
 
         if (done && flipped) {
           List_ptr fregs = MF_Regions(fcur);
-          if (List_Num_Entries(fregs) < 2) {
+          if (!fregs || List_Num_Entries(fregs) < 2) {
             sprintf(mesg,"Inconsistent orientations of boundary faces around vertex %-d",vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
           }
@@ -240,6 +242,7 @@ extern "C" {
       if (ME_Vertex(me,0) == ME_Vertex(me,1)) {
         sprintf(mesg,"Edge %-d has repeated vertices",eid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       for (i = 0; i < 2; i++) {
@@ -263,12 +266,14 @@ extern "C" {
         }
 
 	vedges = MV_Edges(ev);
-	if (!List_Contains(vedges,me)) {
+	if (!vedges || !List_Contains(vedges,me)) {
 	  sprintf(mesg,"Edge %-d sees vertex %-d but not vice versa",eid,vid);
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(vedges);
+	if (vedges) List_Delete(vedges);
+
+      } /* for (i = 0; i < 2; i++) */
 
 	if (gedim == 2) {
 	  MFace_ptr ebf[2], fcur, fnxt;
@@ -284,7 +289,7 @@ extern "C" {
 	  nf = 0;
 	  efaces = ME_Faces(me);
 	  idx2 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx2))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
 	    fid = MF_ID(ef);
 
 	    if (MF_GEntDim(ef) == 2) {
@@ -301,12 +306,13 @@ extern "C" {
 		ebf[1] = ef;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (nf != 2) {
 	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 
@@ -326,11 +332,13 @@ extern "C" {
 	    sprintf(mesg,"Edge %-d connected to regions but face %-d is not",eid,fid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 	  nfr = List_Num_Entries(fregs);
 	  for (i = 0; i < nfr; i++) {
 	    rcur = List_Entry(fregs,i);
+	    fcur = ebf[0];
 	  
 	    rfaces = MR_Faces(rcur);
 	    idx3 = 0;
@@ -347,6 +355,9 @@ extern "C" {
 	    if (!found) {
 	      rid = MR_ID(rcur);
 	      sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	      valid = 0;
+	      continue;
 	    }
 	    
 	    
@@ -362,14 +373,15 @@ extern "C" {
 	      
 	      fregs1 = MF_Regions(fcur);
 	      idx3 = 0;
-	      while ((fr = List_Next_Entry(fregs1,&idx3))) {
+	      found = 0;
+	      while (fregs1 && (fr = List_Next_Entry(fregs1,&idx3))) {
 		if (fr != rcur) {
 		  rcur = fr;
 		  found = 1;
 		  break;
 		}
 	      }
-	      List_Delete(fregs1);
+	      if (fregs1) List_Delete(fregs1);
 
 	      if (!found) {
 		sprintf(mesg,"Could not find next region around edge %-d",eid);
@@ -394,6 +406,9 @@ extern "C" {
 	      if (!found) {
 		rid = MR_ID(rcur);
 		sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+		MSTK_Report(funcname,mesg,MSTK_ERROR);
+		valid = 0;
+		break;
 	      }
 	      
 	      if (++j > maxiter)
@@ -408,9 +423,7 @@ extern "C" {
 	  } /* for (i = 0; i < nfr; i++) */
           List_Delete(fregs);
 
-	} /* if (geid == 2) */
-
-      } /* for (i = 0; i < 2; i++) */
+	} /* if (gedim == 2) */
 
     } /* while ((me = MESH_Next_Edge(mesh,&idx1))) */
 
@@ -443,6 +456,7 @@ extern "C" {
       if (List_Num_Entries(fedges) < 3) {
         sprintf(mesg,"Face %-d has less than 3 edges",fid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       idx2 = 0;
@@ -464,12 +478,12 @@ extern "C" {
         }
 
 	efaces = ME_Faces(fe);
-	if (!List_Contains(efaces,mf)) {
+	if (!efaces || !List_Contains(efaces,mf)) {
 	  sprintf(mesg,"Face %-d refers to edge %-d but not vice versa",fid,ME_ID(fe));
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
       List_Delete(fedges);
       
@@ -521,6 +535,7 @@ extern "C" {
       if (nrf < 4) {
         sprintf(mesg,"Region %-d has less than 4 faces",rid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       /* Check that face to region and region to face links are consistent
@@ -570,6 +585,7 @@ extern "C" {
             sprintf(mesg,"Cannot find another face in region %-d sharing edge %-d (ID = %-d) of face with ID = %-d",MR_ID(mr),j,ME_ID(fe),MF_ID(rf));
             MSTK_Report(funcname,mesg,MSTK_ERROR);
             valid = 0;
+            continue;
           }
           
           int fedir_adj = MF_EdgeDir(rf2,fe);
-- 
2.43.0


From 1390e25b6c1ccabc783f41348850c860d445cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 35/50] fix: MESH_Copy: reduced representations, lists of ghost
 and overlap entities in the copy, memory of vector and tensor values

---
 src/base/MESH_Copy.c | 56 ++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 21aa2a3..4d644bd 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -38,6 +38,12 @@ extern "C" {
       MSTK_Report(funcname,"Destination mesh is NULL",MSTK_FATAL);
 
 
+    /* edges and implicit faces are not stored in reduced representations */
+    int srctype = MESH_RepType(srcmesh), dsttype = MESH_RepType(dstmesh);
+    int with_edges = (srctype < R1 && dsttype < R1);
+    int with_rfaces = (srctype != R1 && srctype != R2 && 
+                       dsttype != R1 && dsttype != R2);
+
     MAttrib_ptr copyatt = MAttrib_New(srcmesh,"copyatt",POINTER,MALLTYPE);
 
     idx = 0;
@@ -64,7 +70,7 @@ extern "C" {
     }
 
 
-    if (MESH_RepType(srcmesh) < R1) { /* only full representations have edges */
+    if (with_edges) { /* only full representations have edges */
 
       idx = 0;
       while ((me = MESH_Next_Edge(srcmesh,&idx))) {
@@ -98,7 +104,7 @@ extern "C" {
     }
 
 
-    if (MESH_RepType(srcmesh) < R1) { /* Faces in terms of edges */
+    if (with_edges) { /* Faces in terms of edges */
 
       idx = 0;
       while ((mf = MESH_Next_Face(srcmesh,&idx))) {
@@ -139,6 +145,14 @@ extern "C" {
 
       idx = 0;
       while ((mf = MESH_Next_Face(srcmesh,&idx))) {
+        if (!with_rfaces && srctype != R1 && srctype != R2) {
+          /* faces of regions are implicit in the copy */
+          List_ptr fregs = MF_Regions(mf);
+          if (fregs) {
+            List_Delete(fregs);
+            continue;
+          }
+        }
         mf_copy = MF_New(dstmesh);
                 
         int nfv = MF_Num_Vertices(mf);
@@ -173,7 +187,7 @@ extern "C" {
     }
 
     
-    if (MESH_RepType(srcmesh) != R1 || MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
+    if (with_rfaces) { /* Regions --> Faces */
 
       idx = 0;
       while ((mr = MESH_Next_Region(srcmesh,&idx))) {
@@ -216,7 +230,7 @@ extern "C" {
 
         List_ptr rverts = MR_Vertices(mr);
         int nrv = List_Num_Entries(rverts);
-        MFace_ptr rv_copy[MAXPV3];
+        MVertex_ptr rv_copy[MAXPV3];
         
         for (i = 0; i < nrv; i++) {
           MVertex_ptr rv = List_Entry(rverts,i);
@@ -243,6 +257,15 @@ extern "C" {
 
     
 
+#ifdef MSTK_HAVE_MPI
+    /* ghost and overlap entities must also be in the respective lists */
+    if (MESH_Num_GhostVertices(srcmesh) || MESH_Num_OverlapVertices(srcmesh) ||
+        MESH_Num_GhostEdges(srcmesh) || MESH_Num_OverlapEdges(srcmesh) ||
+        MESH_Num_GhostFaces(srcmesh) || MESH_Num_OverlapFaces(srcmesh) ||
+        MESH_Num_GhostRegions(srcmesh) || MESH_Num_OverlapRegions(srcmesh))
+      MESH_Build_GhostLists(dstmesh,MESH_Num_Regions(dstmesh) ? 3 : 2);
+#endif
+
     if (with_attr) {
 
       MAttrib_ptr att, att_copy;
@@ -278,9 +301,8 @@ extern "C" {
             else if (atttype == DOUBLE && rval)
               MEnt_Set_AttVal(mv_copy,att_copy,ival,rval,pval);
             else if ((atttype == VECTOR || atttype == TENSOR) && pval) {
-              double *vec = (double *) malloc(numcomps*sizeof(double));
-              memcpy(vec,pval,numcomps*sizeof(double));
-              MEnt_Set_AttVal(mv_copy,att_copy,ival,rval,vec);
+              /* MEnt_Set_AttVal makes its own copy of the data */
+              MEnt_Set_AttVal(mv_copy,att_copy,ival,rval,pval);
             }
             else {
 #ifdef DEBUG
@@ -294,6 +316,7 @@ extern "C" {
           idx2 = 0;
           while ((me = MESH_Next_Edge(srcmesh,&idx2))) {
             MEnt_Get_AttVal(me,copyatt,&ival,&rval,&me_copy);
+            if (!me_copy) continue; /* not stored in the copy */
             
             MEnt_Get_AttVal(me,att,&ival,&rval,&pval);
             
@@ -302,9 +325,8 @@ extern "C" {
             else if (atttype == DOUBLE && rval)
               MEnt_Set_AttVal(me_copy,att_copy,ival,rval,pval);
             else if ((atttype == VECTOR || atttype == TENSOR) && pval) {
-              double *vec = (double *) malloc(numcomps*sizeof(double));
-              memcpy(vec,pval,numcomps*sizeof(double));
-              MEnt_Set_AttVal(me_copy,att_copy,ival,rval,vec);
+              /* MEnt_Set_AttVal makes its own copy of the data */
+              MEnt_Set_AttVal(me_copy,att_copy,ival,rval,pval);
             }
             else {
 #ifdef DEBUG
@@ -318,6 +340,7 @@ extern "C" {
           idx2 = 0;
           while ((mf = MESH_Next_Face(srcmesh,&idx2))) {
             MEnt_Get_AttVal(mf,copyatt,&ival,&rval,&mf_copy);
+            if (!mf_copy) continue; /* not stored in the copy */
             
             MEnt_Get_AttVal(mf,att,&ival,&rval,&pval);
             
@@ -326,9 +349,8 @@ extern "C" {
             else if (atttype == DOUBLE && rval)
               MEnt_Set_AttVal(mf_copy,att_copy,ival,rval,pval);
             else if ((atttype == VECTOR || atttype == TENSOR) && pval) {
-              double *vec = (double *) malloc(numcomps*sizeof(double));
-              memcpy(vec,pval,numcomps*sizeof(double));
-              MEnt_Set_AttVal(mf_copy,att_copy,ival,rval,vec);
+              /* MEnt_Set_AttVal makes its own copy of the data */
+              MEnt_Set_AttVal(mf_copy,att_copy,ival,rval,pval);
             }
             else {
 #ifdef DEBUG
@@ -350,9 +372,8 @@ extern "C" {
             else if (atttype == DOUBLE && rval)
               MEnt_Set_AttVal(mr_copy,att_copy,ival,rval,pval);
             else if ((atttype == VECTOR || atttype == TENSOR) && pval) {
-              double *vec = (double *) malloc(numcomps*sizeof(double));
-              memcpy(vec,pval,numcomps*sizeof(double));
-              MEnt_Set_AttVal(mr_copy,att_copy,ival,rval,vec);
+              /* MEnt_Set_AttVal makes its own copy of the data */
+              MEnt_Set_AttVal(mr_copy,att_copy,ival,rval,pval);
             }
             else {
 #ifdef DEBUG
@@ -385,7 +406,8 @@ extern "C" {
         idx2 = 0;
         while ((ment = MSet_Next_Entry(set,&idx2))) {
           MEnt_Get_AttVal(ment,copyatt,&ival,&rval,&ment_copy);
-          MSet_Add(set_copy,ment_copy);
+          if (ment_copy)
+            MSet_Add(set_copy,ment_copy);
         }
 
       } /* while (set = MESH_Next_MSet...) */
-- 
2.43.0


From de072f3bae5d3896e15f3612aa67ee2712c9e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 36/50] fix: native file reader and writer: short files,
 missing sections, R2 regions, adjacency lists, attributes of absent entities,
 leaks

---
 src/base/MESH_InitFromFile.c | 72 +++++++++++++++++++++++-------------
 src/base/MESH_WriteToFile.c  | 37 ++++++++++--------
 2 files changed, 67 insertions(+), 42 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 9fad8e3..5fe4240 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -55,12 +55,12 @@ extern "C" {
   }
 
   status = fscanf(fp,"%s %lf",temp_str,&ver);
-  if (strcmp(temp_str,"MSTK") != 0) {
+  if (status == EOF || strcmp(temp_str,"MSTK") != 0) {
     MSTK_Report("MESH_InitFromFile","Not a MSTK file",MSTK_ERROR);
     fclose(fp);
     return 0;
   }
-  if (status == EOF)
+  if (status != 2)
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
 
@@ -70,13 +70,13 @@ extern "C" {
 
   status = fscanf(fp,"%s %d %d %d %d\n",inp_rtype,
 		  &(mesh->nv),&(mesh->ne),&(mesh->nf),&(mesh->nr));
-  if (status == EOF)
+  if (status != 5)
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
 
 
   found = 0;
-  for (i = 0; i < MSTK_MAXREP; i++) {
+  for (i = 0; i < sizeof(MESH_rtype)/sizeof(MESH_rtype[0]); i++) {
     if (strncmp(inp_rtype,MESH_rtype_str[i],2) == 0) {
       file_reptype = MESH_rtype[i];
       found = 1;
@@ -124,7 +124,7 @@ extern "C" {
       if (status == EOF)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading vertices",MSTK_FATAL);
-      else if (status == 0)
+      else if (status != 5)
 	MSTK_Report("MESH_InitFromFile",
 		    "Error in reading vertex data",MSTK_FATAL);
 
@@ -152,8 +152,10 @@ extern "C" {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file after vertex data",MSTK_FATAL);
-    else
-      return 0;
+    else {
+      fclose(fp);
+      return 1;
+    }
   }
 
 
@@ -213,8 +215,12 @@ extern "C" {
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading adjacent vertex data",MSTK_FATAL);
 	
-	for (j = 0; j < nav; j++)
+	for (j = 0; j < nav; j++) {
 	  status = fscanf(fp,"%d",&adjvid);
+	  if (status != 1)
+	    MSTK_Report("MESH_InitFromFile",
+			"Error in reading adjacent vertex data",MSTK_FATAL);
+	}
       }
     }
 
@@ -260,7 +266,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
-	else if (status == 0)
+	else if (status != 4)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
 
@@ -291,7 +297,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
-	else if (status == 0)
+	else if (status != 4)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
       }
@@ -300,8 +306,9 @@ extern "C" {
     processed_edges = 1;
   }
   else {
-    if (file_reptype >= F1 && file_reptype <= F4) {
+    if (file_reptype >= F1 && file_reptype <= F4 && mesh->ne) {
       MSTK_Report("MESH_InitFromFile","Expected edge information",MSTK_ERROR);
+      fclose(fp);
       return 0;
     }
   }
@@ -390,7 +397,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading face data",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status != 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading face data",MSTK_FATAL);
 	  
@@ -468,6 +475,8 @@ extern "C" {
 	  else {
 
 	    MSTK_Report("MESH_InitFromFile","Need to convert edge list to vertex list",MSTK_ERROR);
+	    free(fedges);
+	    free(fedirs);
 	    fclose(fp);
 	    return 0;
 
@@ -477,7 +486,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading faces",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status != 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading face data",MSTK_FATAL);
 	  
@@ -496,6 +505,7 @@ extern "C" {
       else {
 	MSTK_Report("MESH_InitFromFile",
 		    "Expect face description in terms of edges",MSTK_ERROR);
+	fclose(fp);
 	return 0;
       }
     }
@@ -591,7 +601,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading regions",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status != 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading region data",MSTK_FATAL);
 	  
@@ -668,6 +678,8 @@ extern "C" {
 	  else {
 
 	    MSTK_Report("MESH_InitFromFile","Need to convert face list to vertex list", MSTK_ERROR);
+	    free(rfaces);
+	    free(rfdirs);
 	    fclose(fp);
 	    return 0;
 
@@ -677,7 +689,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading region",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status != 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading region data",MSTK_FATAL);
 	  
@@ -788,13 +800,8 @@ extern "C" {
   if (processed_adjr) {
     status = fscanf(fp,"%s",temp_str);
     if (status == EOF) {
-      if (mesh->reptype == R2)
-	MSTK_Report("MESH_InitFromFile",
-		    "Premature end of file after reading regions",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      fclose(fp);
+      return 1;
     }
   }
 
@@ -899,7 +906,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading attributes",MSTK_FATAL);
-	else if (status == 0)
+	else if (status != 2)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading attribute data",MSTK_FATAL);
 	
@@ -909,7 +916,7 @@ extern "C" {
 	  if (atttype == INT)
 	    status = fscanf(fp,"%d",&ival);
 	  else
-	    for (j = 0; j < ncomp; j++)
+	    for (j = 0; j < ncomp && status > 0; j++)
 	      status = fscanf(fp,"%lf",&rval);
 	}
 	else {
@@ -921,11 +928,15 @@ extern "C" {
 	  else if (atttype == VECTOR || atttype == TENSOR) {
 	    ival = ncomp;
 	    rval_arr = (double *) malloc(ncomp*sizeof(double));
-	    for (j = 0; j < ncomp; j++) {
+	    for (j = 0; j < ncomp && status > 0; j++) {
 	      status = fscanf(fp,"%lf",&(rval_arr[j]));
 	    }
 	  }
 
+	  if (status < 1)
+	    MSTK_Report("MESH_InitFromFile",
+			"Error in reading attribute data",MSTK_FATAL);
+
 	  switch (dim) {
 	  case MVERTEX:
 	    ent = MESH_VertexFromID(mesh,id);
@@ -944,8 +955,17 @@ extern "C" {
 	    MSTK_Report("MESH_InitFromFile","Invalid entity type",MSTK_FATAL);
 	  }
 	  
+	  if (!ent)
+	    MSTK_Report("MESH_InitFromFile",
+			"Attribute value for nonexistent entity",MSTK_FATAL);
+
 	  MEnt_Set_AttVal(ent,attrib,ival,rval,(void *)rval_arr);
-	  
+
+	  /* MEnt_Set_AttVal makes its own copy of the data */
+	  if (rval_arr) {
+	    free(rval_arr);
+	    rval_arr = NULL;
+	  }
 	}
 
       } /* for (i = 0; i < nent; i++) */
diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..8604a5f 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -133,17 +133,17 @@ extern "C" {
     idx = 0;
     while ((mv = MESH_Next_Vertex(mesh,&idx))) {
 
-      nav = MV_Num_AdjVertices(mv);
+      adjverts = MV_AdjVertices(mv);
+      nav = adjverts ? List_Num_Entries(adjverts) : 0;
       fprintf(fp,"%d ",nav);
       
-      adjverts = MV_AdjVertices(mv);
       for (j = 0; j < nav; j++) {
 	mv2 = List_Entry(adjverts,j);
 	MEnt_Get_AttVal(mv2,vidatt,&mvid2,&rval,&pval);
 	fprintf(fp,"%d ",mvid2);
       }
       fprintf(fp,"\n");
-      List_Delete(adjverts);
+      if (adjverts) List_Delete(adjverts);
     }
   }
 
@@ -237,7 +237,7 @@ extern "C" {
 
 
   if (nr) {
-    if (reptype <= F4 || reptype >= R2) {
+    if (reptype <= F4 || reptype > R2) {
       fprintf(fp,"regions face\n");
 
       idx = 0;
@@ -292,10 +292,9 @@ extern "C" {
       idx = 0;
       while ((mr = MESH_Next_Region(mesh,&idx))) {
 
-	nar = MR_Num_Faces(mr);
-	fprintf(fp,"%d ",nar);
-
 	adjregs = MR_AdjRegions(mr);
+	nar = adjregs ? List_Num_Entries(adjregs) : 0;
+	fprintf(fp,"%d ",nar);
 
 	for (j = 0; j < nar; j++) {
 	  mr2 = List_Entry(adjregs,j);
@@ -307,7 +306,7 @@ extern "C" {
 	  }
 	}
 	fprintf(fp,"\n");
-	List_Delete(adjregs);
+	if (adjregs) List_Delete(adjregs);
       }
     }
   }
@@ -317,6 +316,12 @@ extern "C" {
     in this routine */
 
 
+  /* Edges and faces that are not written to the file cannot have
+     attributes in the file either */
+
+  int with_edges = (reptype <= F4);
+  int with_faces = !((reptype == R1 || reptype == R2) && nr);
+
   if ((natt = MESH_Num_Attribs(mesh)) > 4) {
 
     fprintf(fp,"attributes\n");
@@ -351,12 +356,12 @@ extern "C" {
 	break;
       case MEDGE:
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx)))
+	while (with_edges && (me = MESH_Next_Edge(mesh,&idx)))
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) nent++;
 	break;
       case MFACE:
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx)))
+	while (with_faces && (mf = MESH_Next_Face(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) nent++;	    
 	break;
       case MREGION: 
@@ -369,10 +374,10 @@ extern "C" {
 	while ((mv = MESH_Next_Vertex(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mv,attrib,&ival,&rval,&pval)) nent++;
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx)))
+	while (with_edges && (me = MESH_Next_Edge(mesh,&idx)))
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) nent++;
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx)))
+	while (with_faces && (mf = MESH_Next_Face(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) nent++;	    
 	idx = 0;
 	while ((mr = MESH_Next_Region(mesh,&idx)))
@@ -464,7 +469,7 @@ extern "C" {
 	break;
       case MEDGE:
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx))) {
+	while (with_edges && (me = MESH_Next_Edge(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(me,eidatt,&meid,&rdummy,&pdummy);
 	    fprintf(fp,"1 %-d ",meid);
@@ -489,7 +494,7 @@ extern "C" {
 	break;
       case MFACE:
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx))) {
+	while (with_faces && (mf = MESH_Next_Face(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(mf,fidatt,&mfid,&rdummy,&pdummy);
 	    fprintf(fp,"2 %-d ",mfid);
@@ -564,7 +569,7 @@ extern "C" {
 	  }
 	}
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx))) {
+	while (with_edges && (me = MESH_Next_Edge(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(me,eidatt,&meid,&rdummy,&pdummy);
 	    fprintf(fp,"1 %-d ",meid);
@@ -587,7 +592,7 @@ extern "C" {
 	  }
 	}
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx))) {
+	while (with_faces && (mf = MESH_Next_Face(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(mf,fidatt,&mfid,&rdummy,&pdummy);
 	    fprintf(fp,"2 %-d ",mfid);
-- 
2.43.0


From 1b0fa4c9d085ce030a76bac110150d5a7566adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 37/50] fix: partition graph numbers cells by position and
 frees its lists

---
 src/par/MESH_PartitionWithMetis.c | 46 ++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..0272b8e 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -35,6 +35,8 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
   idx_t *vsize, *idxpart;
   idx_t  *xadj, *adjncy, *vwgt, *adjwgt;
   real_t *tpwgts, *ubvec;
+  MAttrib_ptr posatt;
+  int pos;
   
 
   /* First build a nodal graph of the mesh in the format required by
@@ -55,9 +57,29 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
     }
 
     xadj = (idx_t *) malloc((nf+1)*sizeof(idx_t));
-    adjncy = (idx_t *) malloc(2*ne*sizeof(idx_t));
     ncells = nf;
 
+    /* An edge connected to n faces contributes n*(n-1) adjacencies */
+
+    i = 0;
+    idx = 0;
+    while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+      efaces = ME_Faces(fedge);
+      if (efaces) {
+        nef = List_Num_Entries(efaces);
+        i += nef*(nef-1);
+        List_Delete(efaces);
+      }
+    }
+    adjncy = (idx_t *) malloc((i ? i : 1)*sizeof(idx_t));
+
+    /* Number the faces by position since their IDs need not be contiguous */
+
+    posatt = MAttrib_New(mesh,"MESH_PartitionWithMetis_pos",INT,MFACE);
+    idx = 0; i = 0;
+    while ((mf = MESH_Next_Face(mesh,&idx)))
+      MEnt_Set_AttVal(mf,posatt,i++,0.0,NULL);
+
     /* Surface mesh */
 
     idx = 0; i = 0;
@@ -73,15 +95,15 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	efaces = ME_Faces(fedge);
 	nef = List_Num_Entries(efaces);
 	
-	if (nef == 1) {
-	  continue;          /* boundary edge; nothing to do */
-	}
-	else {
+	/* nothing to do for a boundary edge */
+
+	if (nef > 1) {
           int j;
           for (j = 0; j < nef; j++) {
             oppf = List_Entry(efaces,j);
             if (oppf != mf) {
-              adjncy[ipos] = MF_ID(oppf)-1;
+              MEnt_Get_AttVal(oppf,posatt,&pos,NULL,NULL);
+              adjncy[ipos] = pos;
               ipos++;
             }
           }
@@ -104,6 +126,13 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
     adjncy = (idx_t *) malloc(2*nf*sizeof(idx_t));
     ncells = nr;
 
+    /* Number the regions by position since their IDs need not be contiguous */
+
+    posatt = MAttrib_New(mesh,"MESH_PartitionWithMetis_pos",INT,MREGION);
+    idx = 0; i = 0;
+    while ((mr = MESH_Next_Region(mesh,&idx)))
+      MEnt_Set_AttVal(mr,posatt,i++,0.0,NULL);
+
     /* Volume mesh */
 
     idx = 0; i = 0;
@@ -124,7 +153,8 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	  if (oppr == mr)
 	    oppr = List_Entry(fregions,1);
 	  
-	  adjncy[ipos] = MR_ID(oppr)-1;
+	  MEnt_Get_AttVal(oppr,posatt,&pos,NULL,NULL);
+	  adjncy[ipos] = pos;
 	  ipos++;
 	}
         List_Delete(fregions);	
@@ -141,6 +171,8 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
   
 
 
+  MAttrib_Delete(posatt);
+
   /* Partition the graph */
   
   wtflag = 0;        /* No weights are specified */
-- 
2.43.0


From c00f085e7dceb0c8237d22acaeebdff24b8a722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 38/50] fix: ghost layers of partitions without cells,
 temporary attributes on their own mesh

---
 src/par/MESH_AddGhost.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_AddGhost.c b/src/par/MESH_AddGhost.c
index 9bc3a74..a1f48ac 100644
--- a/src/par/MESH_AddGhost.c
+++ b/src/par/MESH_AddGhost.c
@@ -54,8 +54,9 @@ int MESH_AddGhost(Mesh_ptr mesh, Mesh_ptr submesh, int part_no, int ring) {
 
 
   /* basic mesh information */
-  nf = MESH_Num_Faces(submesh);
-  nr = MESH_Num_Regions(submesh);
+  /* (of the global mesh since the partition may have no cells at all) */
+  nf = MESH_Num_Faces(mesh);
+  nr = MESH_Num_Regions(mesh);
   rtype = MESH_RepType(submesh);
 
   if (ring > 0) {
@@ -161,8 +162,8 @@ int MESH_Surf_AddGhost_FN(Mesh_ptr mesh, Mesh_ptr submesh, int part_no, int ring
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
 #else
-  MAttrib_ptr lvidatt = MAttrib_New(mesh, "temp_lv_id", INT, MVERTEX);
-  MAttrib_ptr gvidatt = MAttrib_New(submesh, "temp_gv_id", INT, MVERTEX);
+  MAttrib_ptr lvidatt = MAttrib_New(submesh, "temp_lv_id", INT, MVERTEX);
+  MAttrib_ptr gvidatt = MAttrib_New(mesh, "temp_gv_id", INT, MVERTEX);
 #endif
 
   bverts = List_New(10);
-- 
2.43.0


From aebba71bd9e901f3432c16fd1033fe3c7f424a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 39/50] fix: distribute meshes with empty partitions, and
 attributes and sets of every kind, to all ranks

---
 src/par/MESH_CopyAttr.c               | 50 ++++---------------
 src/par/MESH_CopySet.c                |  1 +
 src/par/MESH_Partition_and_Send.c     |  3 ++
 src/par/MESH_Recv_Attribute.c         | 72 ++++++++++++---------------
 src/par/MESH_Recv_NonVertexEntities.c |  8 +--
 src/par/MESH_Send_Attribute.c         | 64 ++++++++++--------------
 src/par/MESH_Send_MSet.c              | 30 ++++++-----
 src/par/MESH_Send_NonVertexEntities.c | 22 ++++----
 8 files changed, 103 insertions(+), 147 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..c75df99 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -36,8 +36,8 @@ extern "C" {
  */
 
 int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_name) {
-  int i, ncomp, ival, idx;
-  double rval, *pval_arr=NULL;
+  int i, ival, idx;
+  double rval;
   void *pval;
   MType mtype;
   MAttrib_ptr *local_attrib, global_attrib, g2latt;
@@ -58,13 +58,13 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
     /* if there is no such attribute */
     if(!local_attrib[i]) {
       MSTK_Report("MESH_CopyAttr","Submesh has no attribute of given name",MSTK_WARN);
+      free(local_attrib);
       return 0;
     }
   }
     
 
   /* get attribute properties */
-  ncomp = MAttrib_Get_NumComps(global_attrib);
   mtype = MAttrib_Get_EntDim(global_attrib);
   atttype = MAttrib_Get_Type(global_attrib);
 
@@ -89,7 +89,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -99,17 +99,10 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
-
         Mesh_ptr entmesh = MEnt_Mesh(lmv);
         for (i = 0; i < num; i++)
           if (entmesh == submeshes[i]) {
-            MEnt_Set_AttVal(lmv,local_attrib[i],ival,rval,(void *)pval_arr);
+            MEnt_Set_AttVal(lmv,local_attrib[i],ival,rval,pval);
             break;
           }
       }
@@ -129,7 +122,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -139,17 +132,10 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
-
         Mesh_ptr entmesh = MEnt_Mesh(lme);
         for (i = 0; i < num; i++)
           if (entmesh == submeshes[i]) {
-            MEnt_Set_AttVal(lme,local_attrib[i],ival,rval,(void *)pval_arr);
+            MEnt_Set_AttVal(lme,local_attrib[i],ival,rval,pval);
             break;
           }
       }
@@ -169,7 +155,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -179,17 +165,10 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
-
         Mesh_ptr entmesh = MEnt_Mesh(lmf);
         for (i = 0; i < num; i++)
           if (entmesh == submeshes[i]) {
-            MEnt_Set_AttVal(lmf,local_attrib[i],ival,rval,(void *)pval_arr);
+            MEnt_Set_AttVal(lmf,local_attrib[i],ival,rval,pval);
             break;
           }
       }
@@ -210,7 +189,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -220,17 +199,10 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
-
         Mesh_ptr entmesh = MEnt_Mesh(lmr);
         for (i = 0; i < num; i++)
           if (entmesh == submeshes[i]) {
-            MEnt_Set_AttVal(lmr,local_attrib[i],ival,rval,(void *)pval_arr);
+            MEnt_Set_AttVal(lmr,local_attrib[i],ival,rval,pval);
             break;
           }
       }
diff --git a/src/par/MESH_CopySet.c b/src/par/MESH_CopySet.c
index 55e127f..8b26a25 100644
--- a/src/par/MESH_CopySet.c
+++ b/src/par/MESH_CopySet.c
@@ -54,6 +54,7 @@ extern "C" {
   idx = 0;
   while ((gment = MSet_Next_Entry(gmset,&idx))) {
     MEnt_Get_AttVal(gment,g2latt,0,0,&lmentlist);
+    if (!lmentlist) continue; /* entity is in no submesh */
     
     idx2 = 0;
     while ((lment = List_Next_Entry(lmentlist,&idx2))) {
diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index 5c3151c..8c7e32d 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -337,6 +337,9 @@ extern "C" {
         }
           
       }
+
+      free(attnames);
+      free(msetnames);
     }
 
 
diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..7fc7d4a 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -55,30 +55,17 @@ extern "C" {
 
   /* attribute entity type */
 
-  switch (mtype) {
-  case MVERTEX:
-    num = MESH_Num_Vertices(mesh);
-    break;
-  case MEDGE:
-    num = MESH_Num_Edges(mesh);
-    break;
-  case MFACE:
-    num = MESH_Num_Faces(mesh);
-    break;
-  case MREGION:
-    num = MESH_Num_Regions(mesh);
-    break;
-  case MALLTYPE:
-    num = 0;
-#ifdef DEBUG2
-    MSTK_Report("MESH_RecvAttr()","Cannot receive attributes on entity type MALLTYPE",MSTK_WARN);
-#endif
-    return 0;
-  default:
-    num = 0;
-    MSTK_Report("MESH_RecvAttr()","Invalid entity type MALLTYPE",MSTK_WARN);
-    return 0;
-  }
+  /* number of entities of each dimension that can carry the attribute */
+  int nents[4] = {0,0,0,0};
+  if (mtype == MVERTEX || mtype == MALLTYPE)
+    nents[MVERTEX] = MESH_Num_Vertices(mesh);
+  if (mtype == MEDGE || mtype == MALLTYPE)
+    nents[MEDGE] = MESH_Num_Edges(mesh);
+  if (mtype == MFACE || mtype == MALLTYPE)
+    nents[MFACE] = MESH_Num_Faces(mesh);
+  if (mtype == MREGION || mtype == MALLTYPE)
+    nents[MREGION] = MESH_Num_Regions(mesh);
+  num = nents[MVERTEX] + nents[MEDGE] + nents[MFACE] + nents[MREGION];
 
   /* receive entity global IDs */
 
@@ -104,24 +91,22 @@ extern "C" {
   }
 
   /* associate attributes with entities */  
-  for(j = 0; j < num; j++) {
-    switch (mtype) {
-    case MVERTEX:
-      ment = MESH_Vertex(mesh,j);
-      break;
-    case MEDGE:
-      ment = MESH_Edge(mesh,j);
-      break;
-    case MFACE:
-      ment = MESH_Face(mesh,j);
-      break;
-    case MREGION:
-      ment = MESH_Region(mesh,j);
-      break;
-    default:
-      MSTK_Report("MESH_RecvAttr()","Invalid entity type",MSTK_FATAL);
+  int dim = MVERTEX, n = 0; /* dimension of entity, index in its dimension */
+  for(j = 0; j < num; j++, n++) {
+    while (n == nents[dim]) {
+      dim++;
+      n = 0;
     }
 
+    if (dim == MVERTEX)
+      ment = MESH_Vertex(mesh,n);
+    else if (dim == MEDGE)
+      ment = MESH_Edge(mesh,n);
+    else if (dim == MFACE)
+      ment = MESH_Face(mesh,n);
+    else
+      ment = MESH_Region(mesh,n);
+
     assert(MEnt_GlobalID(ment) == list_info[j]);
     
     int nullval = 1;
@@ -144,12 +129,17 @@ extern "C" {
     if (nullval) continue; /* Don't waste time initializing to zero */
 
     MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+
+    if (rval_arr) { /* values are copied by the attribute */
+      free(rval_arr);
+      rval_arr = NULL;
+    }
   }
   
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Recv_NonVertexEntities.c b/src/par/MESH_Recv_NonVertexEntities.c
index 7462964..c287eb6 100644
--- a/src/par/MESH_Recv_NonVertexEntities.c
+++ b/src/par/MESH_Recv_NonVertexEntities.c
@@ -72,14 +72,16 @@ extern "C" {
     int rank;
     MPI_Comm_rank(comm,&rank);
 
+    /* An empty partition has no entities to receive */
+
+    if (!ne && !nf && !nr)
+      return 1;
+
     /* Sanity check */
     
     if (!MESH_Num_Vertices(mesh))
       MSTK_Report(funcname,"Must receive mesh vertices first",MSTK_FATAL);
 
-    if (!ne & !nf & !nr)
-      MSTK_Report(funcname,"No entities to receive",MSTK_FATAL);
-
     
     maxnfe = MAXPV2;
     maxnrf = MAXPF3;
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..2fb57f2 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -65,26 +65,17 @@ extern "C" {
     mtype = MAttrib_Get_EntDim(attrib);
   
     /* attribute entity type, used before ghost list established, so no ghost */
-    switch (mtype) {
-    case MVERTEX:
-      num = MESH_Num_Vertices(mesh);
-      break;
-    case MEDGE:
-      num = MESH_Num_Edges(mesh);
-      break;
-    case MFACE:
-      num = MESH_Num_Faces(mesh);
-      break;
-    case MREGION:
-      num = MESH_Num_Regions(mesh);
-      break;
-    default:
-      num = 0;
-#ifdef DEBUG2
-      MSTK_Report("MESH_SendAttr()","Cannot send attributes on entity type MALLTYPE",MSTK_WARN);
-#endif
-      return 0;
-    }
+    /* number of entities of each dimension that can carry the attribute */
+    int nents[4] = {0,0,0,0};
+    if (mtype == MVERTEX || mtype == MALLTYPE)
+      nents[MVERTEX] = MESH_Num_Vertices(mesh);
+    if (mtype == MEDGE || mtype == MALLTYPE)
+      nents[MEDGE] = MESH_Num_Edges(mesh);
+    if (mtype == MFACE || mtype == MALLTYPE)
+      nents[MFACE] = MESH_Num_Faces(mesh);
+    if (mtype == MREGION || mtype == MALLTYPE)
+      nents[MREGION] = MESH_Num_Regions(mesh);
+    num = nents[MVERTEX] + nents[MEDGE] + nents[MFACE] + nents[MREGION];
     
     /* attribute index and global id */ 
 
@@ -100,24 +91,21 @@ extern "C" {
       list_value_double = (double *) malloc(num*ncomp*sizeof(double));
   
     /* collect data */
-    for(j = 0; j < num; j++) {
-      switch (mtype) {
-      case MVERTEX:
-        ment = MESH_Vertex(mesh,j);
-        break;
-      case MEDGE:
-        ment = MESH_Edge(mesh,j);
-        break;
-      case MFACE:
-        ment = MESH_Face(mesh,j);
-        break;
-      case MREGION:
-        ment = MESH_Region(mesh,j);
-        break;
-      default:
-        MSTK_Report("MESH_SendAttr()","Invalid entity type",MSTK_WARN);
-        return 0;
+    int dim = MVERTEX, n = 0; /* dimension of entity, index in its dimension */
+    for(j = 0; j < num; j++, n++) {
+      while (n == nents[dim]) {
+        dim++;
+        n = 0;
       }
+
+      if (dim == MVERTEX)
+        ment = MESH_Vertex(mesh,n);
+      else if (dim == MEDGE)
+        ment = MESH_Edge(mesh,n);
+      else if (dim == MFACE)
+        ment = MESH_Face(mesh,n);
+      else
+        ment = MESH_Region(mesh,n);
     
       MEnt_Get_AttVal(ment,attrib,&ival,&rval,&pval);
 
@@ -130,7 +118,7 @@ extern "C" {
         if(ncomp > 1) {
           rval_arr = (double *)pval;
           for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
+            list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
         }
       }
     }
diff --git a/src/par/MESH_Send_MSet.c b/src/par/MESH_Send_MSet.c
index c71f639..f2ce827 100644
--- a/src/par/MESH_Send_MSet.c
+++ b/src/par/MESH_Send_MSet.c
@@ -58,10 +58,21 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    if (!nent) {
-      free(list_info);
-      return 1;
+    /* track the buffers used for sending */
+
+    if (*maxptrs2free == 0) {
+      *maxptrs2free = 25;
+      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
+      *numptrs2free = 0;
     }
+    else if (*maxptrs2free < (*numptrs2free) + 2) {
+      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
+      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
+    }
+
+    (*ptrs2free)[(*numptrs2free)++] = list_info;
+
+    if (!nent) return 1;
 
     /* attribute index and global id */ 
     num = 2*nent;
@@ -79,19 +90,6 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    /* track the buffers used for sending */
-
-    if (*maxptrs2free == 0) {
-      *maxptrs2free = 25;
-      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
-      *numptrs2free = 0;
-    }
-    else if (*maxptrs2free < (*numptrs2free) + 2) {
-      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
-      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
-    }
-
-    (*ptrs2free)[(*numptrs2free)++] = list_info;
     (*ptrs2free)[(*numptrs2free)++] = list_value_int;  
   
     return 1;
diff --git a/src/par/MESH_Send_NonVertexEntities.c b/src/par/MESH_Send_NonVertexEntities.c
index 9af74d3..efce5e2 100644
--- a/src/par/MESH_Send_NonVertexEntities.c
+++ b/src/par/MESH_Send_NonVertexEntities.c
@@ -161,9 +161,11 @@ extern "C" {
 
     /* send detailed edge info */
 
-    MPI_Isend(list_edge,nevs,MPI_INT,torank,torank,comm,&mpirequest);
-    (*requests)[*numreq] = mpirequest;
-    (*numreq)++;
+    if (ne) {
+      MPI_Isend(list_edge,nevs,MPI_INT,torank,torank,comm,&mpirequest);
+      (*requests)[*numreq] = mpirequest;
+      (*numreq)++;
+    }
   
 
     /* Reserve nfes spots for each face */
@@ -193,9 +195,11 @@ extern "C" {
 
     /* send detailed face info */
 
-    MPI_Isend(list_face,nfes,MPI_INT,torank,torank,comm,&mpirequest);
-    (*requests)[*numreq] = mpirequest;
-    (*numreq)++;
+    if (nf) {
+      MPI_Isend(list_face,nfes,MPI_INT,torank,torank,comm,&mpirequest);
+      (*requests)[*numreq] = mpirequest;
+      (*numreq)++;
+    }
 
     
     if (nr) {
@@ -250,10 +254,8 @@ extern "C" {
       *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
     }
 
-    if (ne)
-      (*ptrs2free)[(*numptrs2free)++] = list_edge;
-    if (nf)
-      (*ptrs2free)[(*numptrs2free)++] = list_face;
+    (*ptrs2free)[(*numptrs2free)++] = list_edge;
+    (*ptrs2free)[(*numptrs2free)++] = list_face;
     if (nr)
       (*ptrs2free)[(*numptrs2free)++] = list_region;
 
-- 
2.43.0


From f6a9824d719328239ab59ea0f002263e60c5fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 40/50] fix: renumber global IDs when a partition has no
 entities of a kind

---
 src/par/MESH_Renumber_GlobalIDs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index ea8c365..0888b8d 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -43,13 +43,15 @@ extern "C" {
                   "Renumbering according to pre-assigned numbering not yet implemented",
                   MSTK_ERROR);
     } else {
-      if (MESH_Num_Vertices(mesh) && (mtype == MVERTEX || mtype == MALLTYPE))
+      /* these are collective calls - partitions without such entities
+         must take part too */
+      if (mtype == MVERTEX || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MVERTEX, method, NULL, comm);
-      if (MESH_Num_Edges(mesh) && (mtype == MEDGE || mtype == MALLTYPE))
+      if (mtype == MEDGE || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MEDGE, method, NULL, comm);
-      if (MESH_Num_Faces(mesh) && (mtype == MFACE || mtype == MALLTYPE))
+      if (mtype == MFACE || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MFACE, method, NULL, comm);
-      if (MESH_Num_Regions(mesh) && (mtype == MREGION || mtype == MALLTYPE))
+      if (mtype == MREGION || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MREGION, method, NULL, comm);
 
       // Ghost entity management in the mesh relies on ghost lists
@@ -216,6 +218,7 @@ extern "C" {
       default: {}
     }
 
+    free(new_index);
     free(nowned_all);
     free(offset_all);
 
-- 
2.43.0


From 445ba4bc37bc86307b455478e5ff32f961be010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 41/50] fix: exchange null and vector attribute values between
 partitions

---
 src/par/MESH_GathScat1Attribute.c  | 86 ++++++++++++++----------------
 src/par/MESH_Update1Attribute.c    | 15 ++----
 src/par/MESH_UpdateVertexCoords.c  |  1 +
 src/par/MESH_XchngEdgeFaceAttrib.c | 15 ++----
 4 files changed, 52 insertions(+), 65 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..e1da191 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -278,7 +278,7 @@ extern "C" {
 	      if (ncomp > 1) {
 		rval_arr = (double *)pval;
 		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
+		  list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	      }
 	    }
             n++;
@@ -420,10 +420,11 @@ extern "C" {
       int nfound = 0;
       int final_ival;
       double final_rval;
-      double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
+      double *final_rval_arr = (double *) calloc(ncomp,sizeof(double));
 
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      if (pval && ncomp > 1)
+        memcpy(final_rval_arr,pval,ncomp*sizeof(double));
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -481,45 +482,30 @@ extern "C" {
             }
           }
           if(ncomp > 1) {
-            int allzero = 1;
+            rval_arr = &(list_value_double_recv[ind*ncomp]);
+            double final_norm = 0.0, norm = 0.0;
             for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+              final_norm += final_rval_arr[k]*final_rval_arr[k];
+            for (k = 0; k < ncomp; k++)
+              norm += rval_arr[k]*rval_arr[k];
+            switch (optype) {
+              case ATTOP_MAX:
+                if (norm > final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_MIN:
+                if (norm < final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
                 break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+              case ATTOP_SUM: case ATTOP_AVG:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] += rval_arr[k];
+                break;
+              default:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] = rval_arr[k];
+                break;
+            }
           }
         }
 
@@ -535,16 +521,26 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
       
-      if ((att_type == INT && final_ival) ||
-          (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
+      int nonnull = 0;
+      if (att_type == INT)
+        nonnull = (final_ival != 0);
+      else if (ncomp == 1)
+        nonnull = (final_rval != 0.0);
+      else
+        for (k = 0; k < ncomp; k++)
+          if (final_rval_arr[k] != 0.0) nonnull = 1;
+
+      if (nonnull)
         MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
+      else
+        MEnt_Rem_AttVal(ment,attrib);
 
+      free(final_rval_arr);
     }
     
         
diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..1c73c19 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -136,7 +136,7 @@ extern "C" {
 	if (ncomp > 1) {
 	  rval_arr = (double *)pval;
 	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
+	    list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
 	}
       }
     }
@@ -316,25 +316,20 @@ extern "C" {
 	  rval = list_value_double_recv[i];
 	if(ncomp > 1)
 	  {
-            int allzero = 1;
+            rval_arr = NULL;
             for (k = 0; k < ncomp; k++)
               if (list_value_double_recv[i*ncomp+k] != 0.0) {
-                allzero = 0;
+                rval_arr = &(list_value_double_recv[i*ncomp]);
                 break;
               }
-            if (!allzero) {
-              rval_arr = (double *) malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[i*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
           }
       }
       if ((att_type == INT && ival) ||
           (att_type == DOUBLE && rval) ||
           ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
         MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+      else
+        MEnt_Rem_AttVal(ment,attrib); /* a null value, same as on the master */
     }
 
     /* release the send buffer */
diff --git a/src/par/MESH_UpdateVertexCoords.c b/src/par/MESH_UpdateVertexCoords.c
index 4d0c6d7..1334e11 100644
--- a/src/par/MESH_UpdateVertexCoords.c
+++ b/src/par/MESH_UpdateVertexCoords.c
@@ -207,6 +207,7 @@ extern "C" {
     free(coords_send);
     free(gid_list_recv);
     free(coords_recv);
+    free(recv_procs);
     free(recv_pos);    
     free(rank_g2l);    
     return 1;
diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..0f021a9 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -271,7 +271,7 @@ extern "C" {
                 if (ncomp > 1) {
                   rval_arr = (double *)pval;
                   for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
+                    list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
                 }
               }
               n++;
@@ -433,19 +433,12 @@ extern "C" {
           if(ncomp == 1) 
             rval = list_value_double_recv[ind];
           else {
-            int allzero = 1;
+            rval_arr = NULL;
             for (k = 0; k < ncomp; k++)
               if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+                rval_arr = &(list_value_double_recv[ind*ncomp]);
                 break;
               }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
           }
         }
         
@@ -453,6 +446,8 @@ extern "C" {
             (att_type == DOUBLE && rval) ||
             ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
           MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+        else
+          MEnt_Rem_AttVal(ment,attrib); /* a null value, same as on the ghost */
        
         break;
       } /* for (i = 0; i < num_recv_procs; i++) */
-- 
2.43.0


From 175e510e2e9b9d1a3ec3632d3deb86f1704be95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 42/50] fix: parallel checker: take part in all collective
 checks, size receive buffers for the largest mesh, no endless loop on unknown
 entities, compare bounding entities of faces and regions

---
 src/par/MESH_Parallel_Check.c | 86 +++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 14 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..46db862 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -40,8 +40,10 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
   fprintf(stderr,"Begin checking parallel information on submesh %d\n",rank);
 #endif
   valid = MESH_Parallel_Check_Ghost(mesh,rank);
-  if(valid)
-    valid = MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
+
+  /* collective - must be done even if this submesh is already known to
+     be invalid */
+  valid &= MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
 #ifdef DEBUG
   if (valid) fprintf(stderr,"Passed parallel checking on submesh %d\n",rank);
   else fprintf(stderr,"Failed parallel checking on submesh %d\n",rank);
@@ -62,8 +64,8 @@ int MESH_Parallel_Check_GlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm com
   valid = MESH_Parallel_Check_VertexGlobalID(mesh,rank,num,comm);
   valid &= MESH_Parallel_Check_EdgeGlobalID(mesh,rank,num,comm);
   valid &= MESH_Parallel_Check_FaceGlobalID(mesh,rank,num,comm);
-  if(MESH_Num_Regions(mesh))
-    valid &= MESH_Parallel_Check_RegionGlobalID(mesh,rank,num,comm);
+  /* collective - even submeshes without regions must take part */
+  valid &= MESH_Parallel_Check_RegionGlobalID(mesh,rank,num,comm);
   return valid;
 
 }
@@ -135,10 +137,10 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d verts from rank %d\n", rank,count/3, i);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -237,9 +239,9 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -374,7 +376,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne?
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -466,7 +468,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Send(list_edge,5*index_me,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -538,6 +540,21 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 }
 
 
+/* Check if the entities bounding a face or region are the ones whose
+   (signed) global IDs are in the given array */
+
+static int MESH_Parallel_Check_Bndry(List_ptr ents, int *gids, int n) {
+  int i, j;
+  if (List_Num_Entries(ents) != n) return 0;
+  for (i = 0; i < n; i++) {
+    for (j = 0; j < n; j++)
+      if (MEnt_GlobalID(List_Entry(ents,i)) == abs(gids[j])) break;
+    if (j == n) return 0;
+  }
+  return 1;
+}
+
+
 int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm) {
   int i, j, idx, nf, nof, nfe, max_nf, index_mf, global_id, *loc, iloc, valid = 1;
   char mesg[256], funcname[32] = "MESH_Parallel_Check";
@@ -581,6 +598,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
           if (ptype == POVERLAP || ptype == PINTERIOR)
             nrowned++;
         }
+        List_Delete(fregs);
         if (!nrowned) {
           sprintf(mesg,
                   "OWNED face %d (GID %d) on proc %d not connected to any OWNED regions. Potential problem\n", MF_ID(mf), MF_GlobalID(mf), rank);
@@ -623,7 +641,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -638,6 +656,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	    sprintf(mesg,"Global face %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mf += (nfe + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -646,6 +665,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
               valid = 0;
               sprintf(mesg,"Could not find overlap face with local ID %d on processor %d", ov_list[nof + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mf += (nfe + 4);
               continue;
             }
 	    gdim = (recv_list_face[index_mf+nfe+1] & 7);
@@ -675,6 +695,14 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      sprintf(mesg,"Global face %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mfedges = MF_Edges(mf,1,0);
+	    if(!MESH_Parallel_Check_Bndry(mfedges, &recv_list_face[index_mf+1], nfe)) {
+	      valid = 0;
+	      sprintf(mesg,"Global face %-d from processor %d and on processor %d edges mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mfedges);
 	  }
 	  index_mf += (nfe + 4);
 	}
@@ -725,7 +753,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
       }
 
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -740,6 +768,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	    sprintf(mesg,"Global face %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mf += (nfe + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -748,6 +777,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
               valid = 0;
               sprintf(mesg,"Could not find overlap face with local ID %d on processor %d", ov_list[nof + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mf += (nfe + 4);
               continue;
             }
 	    gdim = (recv_list_face[index_mf+nfe+1] & 7);
@@ -777,6 +807,14 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      sprintf(mesg,"Global face %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mfedges = MF_Edges(mf,1,0);
+	    if(!MESH_Parallel_Check_Bndry(mfedges, &recv_list_face[index_mf+1], nfe)) {
+	      valid = 0;
+	      sprintf(mesg,"Global face %-d from processor %d and on processor %d edges mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mfedges);
 	  }
 	  index_mf += (nfe + 4);
 	}
@@ -853,7 +891,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//	printf("rank %d receives %d regions from rank %d\n", rank,count, i);
 	for(index_mr = 0; index_mr < count;) {
@@ -868,6 +906,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	    sprintf(mesg,"Global region %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mr += (nrf + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -876,6 +915,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
               valid = 0;
               sprintf(mesg,"Could not find overlap region with local ID %d on processor %d", ov_list[nor + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mr += (nrf + 4);
               continue;
             }
 	    gdim = (recv_list_region[index_mr+nrf+1] & 7);
@@ -904,6 +944,14 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      sprintf(mesg,"Global region %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mrfaces = MR_Faces(mr);
+	    if(!MESH_Parallel_Check_Bndry(mrfaces, &recv_list_region[index_mr+1], nrf)) {
+	      valid = 0;
+	      sprintf(mesg,"Global region %-d from processor %d and on processor %d faces mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mrfaces);
 	  }
 	  index_mr += (nrf + 4);
 	}
@@ -952,7 +1000,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	MPI_Send(list_region,index_mr,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(index_mr = 0; index_mr < count;) {
 	  nrf = recv_list_region[index_mr];
@@ -966,6 +1014,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	    sprintf(mesg,"Global region %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mr += (nrf + 4);
             continue;
 	  }
 	  else {
@@ -975,6 +1024,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
               valid = 0;
               sprintf(mesg,"Could not find overlap region with local ID %d on processor %d", ov_list[nor + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mr += (nrf + 4);
               continue;
             }
 	    gdim = (recv_list_region[index_mr+nrf+1] & 7);
@@ -1003,6 +1053,14 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      sprintf(mesg,"Global region %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mrfaces = MR_Faces(mr);
+	    if(!MESH_Parallel_Check_Bndry(mrfaces, &recv_list_region[index_mr+1], nrf)) {
+	      valid = 0;
+	      sprintf(mesg,"Global region %-d from processor %d and on processor %d faces mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mrfaces);
 	  }
 	  index_mr += (nrf + 4);
 	}
-- 
2.43.0


From 8dc3324984fd9af87ca461ad92f860affcb9bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 43/50] fix: buffers leaked when adding ghosts with nothing to
 send

---
 src/par/MESH_Parallel_AddGhost.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Parallel_AddGhost.c b/src/par/MESH_Parallel_AddGhost.c
index f951b78..1027fc1 100644
--- a/src/par/MESH_Parallel_AddGhost.c
+++ b/src/par/MESH_Parallel_AddGhost.c
@@ -128,12 +128,12 @@ extern "C" {
 
     if (MPI_Waitall(numreq,requests,MPI_STATUSES_IGNORE) != MPI_SUCCESS)
       MSTK_Report("MSTK_Mesh_Distribute","Problem distributing mesh",MSTK_FATAL);
-    if (numreq) free(requests);
+    free(requests);
   
     /* free all the memory allocated in sendmesh routines */
     int p;
     for (p = 0; p < numptrs2free; ++p) free(ptrs2free[p]);
-    if (numptrs2free) free(ptrs2free);
+    free(ptrs2free);
   
 
     /* install the recv_meshes */
@@ -222,12 +222,12 @@ extern "C" {
 
     if (MPI_Waitall(numreq,requests,MPI_STATUSES_IGNORE) != MPI_SUCCESS)
       MSTK_Report("MSTK_Mesh_Distribute","Problem distributing mesh",MSTK_FATAL);
-    if (numreq) free(requests);
+    free(requests);
   
     /* free all the memory allocated in sendmesh routines */
     int p;
     for (p = 0; p < numptrs2free; ++p) free(ptrs2free[p]);
-    if (numptrs2free) free(ptrs2free);
+    free(ptrs2free);
 
   
     /* concatenate the recv_meshes */
-- 
2.43.0


From 837dc5d355ed1c6e3b1b49081638d6eda7118722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 44/50] fix: weaving three or more pieces gave shared entities
 two masters

---
 src/par/MESH_AssignGlobalIDs_point.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index c84f1d7..d87d1f3 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -279,6 +279,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
         }
       }
       if (MESH_Has_Ghosts_From_Prtn(submesh,i,MVERTEX) ) {
+        for (j = 0; j < max_nbv; j++) vertex_ov_label[j] = 0;
         /* Get ALL boundary vertices from rank 'i' */
         MPI_Recv(recv_list_coor,3*max_nbv,MPI_DOUBLE,i,rank,comm,&status);
         MPI_Get_count(&status,MPI_DOUBLE,&count);
@@ -294,9 +295,11 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
                                   compareCoorDouble);
           if (loc) {  // new match
             iloc = (int)(loc - recv_list_coor)/3;
-            MV_Set_PType(mv,PGHOST);
-            MV_Set_MasterParID(mv,i);
-            MV_Flag_OnParBoundary(mv);
+            if (MV_PType(mv) != PGHOST) {
+              MV_Set_PType(mv,PGHOST);
+              MV_Set_MasterParID(mv,i);
+              MV_Flag_OnParBoundary(mv);
+            }
 
             if (MV_MasterParID(mv) == i) {
               /* Whether the master partition ID was set above or
@@ -329,7 +332,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
 
   mesh_info[9] = ngv;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost vertex */
@@ -495,6 +497,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	for(j = 0; j < nbe; j++) {
 	  me = List_Entry(boundary_edges,j);
 	  if (ME_PType(me) == POVERLAP) continue;  /* already labeled overlap edge */
+	  if (ME_PType(me) == PGHOST) continue;  /* master is on a lower rank */
 	  edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
 	  edge_id[1] = MV_GlobalID(ME_Vertex(me,1));
 	  loc = (int *)bsearch(&edge_id,
@@ -532,7 +535,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
   
   mesh_info[9] = nge;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost edge */
@@ -681,6 +683,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
       if (!MV_OnParBoundary(mv))
         is_boundary = 0;
     }
+    List_Delete(mfverts);
     if(is_boundary) {
       MF_Flag_OnParBoundary(mf);
       List_Add(boundary_faces,mf);
@@ -778,7 +781,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
   
   mesh_info[9] = ngf;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost vertex */
-- 
2.43.0


From 6595c321c4a924edc475d0ee3109693d4452b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 45/50] fix: OFF export referenced vertices by ID and left the
 file open

---
 src/io/MESH_ExportToOFF.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index aad997f..9910208 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -44,10 +44,16 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   /* Write vertex info */
   
-  int idx = 0;
+  /* OFF files refer to vertices by their position in the file, starting
+     from 0; vertex IDs may have gaps or be in a different order */
+
+  MAttrib_ptr posatt = MAttrib_New(mesh, "offvpos", INT, MVERTEX);
+
+  int idx = 0, pos = 0;
   MVertex_ptr mv;
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     double xyz[3];
+    MEnt_Set_AttVal(mv, posatt, pos++, 0.0, NULL);
     MV_Coords(mv, xyz);
     fprintf(fp,"%20.12lf %20.12lf %20.12lf\n",xyz[0],xyz[1],xyz[2]);
   }
@@ -59,12 +65,19 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
   while ((mf = MESH_Next_Face(mesh, &idx))) {
     List_ptr fverts = MF_Vertices(mf,1,0);
     fprintf(fp,"%d ",List_Num_Entries(fverts));
-    for (int i = 0; i < List_Num_Entries(fverts); i++)
-      fprintf(fp," %d",MV_ID(List_Entry(fverts,i)));
+    for (int i = 0; i < List_Num_Entries(fverts); i++) {
+      double rval;
+      void *pval;
+      MEnt_Get_AttVal(List_Entry(fverts,i), posatt, &pos, &rval, &pval);
+      fprintf(fp," %d",pos);
+    }
     fprintf(fp,"\n");
     List_Delete(fverts);
   }
 
+  MAttrib_Delete(posatt);
+  fclose(fp);
+
   return 1;
 }
 
-- 
2.43.0


From 83ec88f85dc9cbf357dec9bf51e281733cc222d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 46/50] fix: STL export ran facets together on one line

---
 src/io/MESH_ExportToSTL.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..3317007 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -29,12 +29,6 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
   FILE		        *fp;
 
   
-  if (!(fp = fopen(filename,"w"))) {
-    sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
-    return 0;
-  }
-
   if (MESH_Num_Regions(mesh)) {
     MSTK_Report("MESH_ExportToSTL","Cannot export solid meshes\n",MSTK_ERROR);
     return 0;
@@ -50,7 +44,12 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
       return 0;
     }
   }
-  
+
+  if (!(fp = fopen(filename,"w"))) {
+    sprintf(mesg,"Couldn't open output file %s\n",filename);
+    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    return 0;
+  }
 
   /* Opening line for STL file */
   fprintf(fp,"solid\n");
@@ -63,6 +62,8 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
 
     for (i = 0; i < nfv; i++)
       MV_Coords(List_Entry(fverts,i),fxyz[i]);
+
+    List_Delete(fverts);
       
     {
       vec1[0] = fxyz[1][0]-fxyz[0][0];
@@ -86,11 +87,11 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
     fprintf(fp,"  outer loop\n");
     for (j = 0; j < 3; j++) 
       fprintf(fp,"    vertex %20.10lf %20.10lf %20.10lf\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
-    fprintf(fp,"endloop");
-    fprintf(fp,"endfacet");
+    fprintf(fp,"  endloop\n");
+    fprintf(fp,"endfacet\n");
   }
 
-  fprintf(fp,"endsolid");
+  fprintf(fp,"endsolid\n");
 
   fclose(fp);
 
-- 
2.43.0


From 7a74bf7a7aeae8e13b80ff529185a751f3a77348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 47/50] fix: GMV export and import of pyramids and of cells
 given by faces

---
 src/io/MESH_ExportToGMV.c   |  9 +++++++--
 src/io/MESH_ImportFromGMV.c | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..5546a09 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -77,7 +77,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
@@ -541,7 +541,10 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
             MEnt_Get_AttVal(face,fidatt,&fid,&rval,&pval);
             fprintf(fp,"% d ",fid);
           }
+          if (fregs)
+            List_Delete(fregs);
         }
+        List_Delete(rfaces);
         fprintf(fp,"\n");
 
         gentid = MR_GEntID(region);
@@ -685,8 +688,10 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
               List_Delete(fverts);      
             }  
           }
-          List_Delete(fregs);
+          if (fregs)
+            List_Delete(fregs);
         }
+        List_Delete(rfaces);
 
       }
 
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..71b543a 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -37,7 +37,7 @@ extern "C" {
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
@@ -584,7 +584,7 @@ extern "C" {
 	}
 
 	if (vface2d) {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Edge must have already been defined for adjacent face */
 
@@ -609,7 +609,7 @@ extern "C" {
 	  }
 	}
 	else {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Face must have already been defined for adjacent region */
 
@@ -656,6 +656,8 @@ extern "C" {
 	}
 
 	free(vface2d_data);
+	free(vedge);
+	free(vedir);
       }
       else if (vface3d) {
 	for (ic = 0; ic < ncells; ic++) {
@@ -674,6 +676,8 @@ extern "C" {
 	}
 
 	free(vface3d_data);
+	free(vface);
+	free(vfdir);
       }
     }
     else if (strcmp(temp_str,"faces") == 0) {
-- 
2.43.0


From e8c0bd6d973603c333ae0f63935cdc92452eab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 48/50] fix: X3D export overwrote the file name and left data
 behind

---
 src/io/MESH_ExportToFLAGX3D.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 0043f02..523602c 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -77,7 +77,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     exit(2);
   }
   
-  char *basefilename = strtok(filename, ".");
+  char basefilename[256];
+  strcpy(basefilename, filename);
+  strtok(basefilename, ".");
   
   nv = MESH_Num_Vertices(mesh);
   ne = MESH_Num_Edges(mesh);
@@ -1020,6 +1022,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
           MEnt_Get_AttVal(edge,eidatt_tmp,&eid,&rval,&pval);
           fprintf(fp,"% 10d",eid);
         }
+        if (efaces)
+          List_Delete(efaces);
 
         k++;
         if (k%14 == 0 && je != nfe-1)
@@ -1096,9 +1100,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     idx = 0;
     while ((region = MESH_Next_Region(mesh,&idx))) {
       if (MR_PType(region) == PGHOST) continue;
+      /* refer to the material by the name given to it in matnames */
       gentid = MR_GEntID(region);
-      if (!gentid) gentid = 1;
-      fprintf(fp,"% 10d",gentid);
+      for (i = 0; i < ngent-1; i++)
+        if (gentities[i] == gentid) break;
+      fprintf(fp,"% 10d",i+1);
       k++;
       if (k%10 == 0)
         fprintf(fp,"\n");
@@ -1109,9 +1115,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     idx = 0;
     while ((face = MESH_Next_Face(mesh,&idx))) {
       if (MF_PType(face) == PGHOST) continue;
+      /* refer to the material by the name given to it in matnames */
       gentid = MF_GEntID(face);
-      if (!gentid) gentid = 1;
-      fprintf(fp,"% 10d",gentid);
+      for (i = 0; i < ngent-1; i++)
+        if (gentities[i] == gentid) break;
+      fprintf(fp,"% 10d",i+1);
       k++;
       if (k%10 == 0)
         fprintf(fp,"\n");
@@ -1164,8 +1172,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1219,8 +1225,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int ncomps = MAttrib_Get_NumComps(attrib);
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1228,11 +1232,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     while ((vertex = MESH_Next_Vertex(mesh,&idx))) {
       if (MV_PType(vertex) == PGHOST && !MV_OnParBoundary(vertex)) continue;
 
-      double *vval;
+      double *vval = NULL;
       MEnt_Get_AttVal(vertex,attrib,&ival,&rval,(void **) &vval);
       
       for (k = 0; k < ncomps; k++)
-        fprintf(fp,"% 20.12E", vval[k]);
+        fprintf(fp,"% 20.12E", vval ? vval[k] : 0.0);
       for (k = ncomps; k < 3; k++)
         fprintf(fp,"% 20.12E", 0.0);  /* expects 3 components for nodal vecs */
       fprintf(fp,"\n");
@@ -1377,6 +1381,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   /* Clean up */
   
   free(gentities);
+#ifdef MSTK_HAVE_MPI
+  free(allgentities);
+#endif
+  List_Delete(prtn_bndry_verts);
   
   idx = 0;
   while ((vertex = MESH_Next_Vertex(mesh,&idx)))
@@ -1394,6 +1402,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   while ((region = MESH_Next_Region(mesh,&idx)))
     MEnt_Rem_AttVal(region,ridatt_tmp);
 
+  MAttrib_Delete(vmasteratt);
   MAttrib_Delete(vidatt_tmp);
   MAttrib_Delete(eidatt_tmp);
   MAttrib_Delete(fidatt_tmp);
-- 
2.43.0


From a041e0fdc9d1720d6951d378007d9182a75cee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 49/50] fix: X3D import leaked its tables and the file

---
 src/io/MESH_ImportFromFLAGX3D.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ImportFromFLAGX3D.c b/src/io/MESH_ImportFromFLAGX3D.c
index e1a3300..0159968 100644
--- a/src/io/MESH_ImportFromFLAGX3D.c
+++ b/src/io/MESH_ImportFromFLAGX3D.c
@@ -792,6 +792,8 @@ extern "C" {
 
   }
 
+  fclose(fp);
+
   /* Some codes don't respect (and write out) appropriate matid
    * data. Instead they rely on .Reg (Material Region) files to
    * specify membership of cells in materials. This allows more than
@@ -805,7 +807,7 @@ extern "C" {
    * membership of cells in materials, we will overwrite the
    * classification from the material ID fields */
 
-  char (*regfilenames)[256], (*regnames)[256];
+  char (*regfilenames)[256]=NULL, (*regnames)[256]=NULL;
   int nfiles = getRegFileNames(filename, numprocs, rank, &regfilenames, &regnames);
   sprintf(temp_str,"Found %d Reg files on rank %d. \n NOTE:Region file reading ignores multiple materials per cells and volume fraction data", nfiles, rank);
   MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_MESG);
@@ -867,7 +869,7 @@ extern "C" {
 
   /* Read node sets from .Bdy files */
   
-  char (*nodeset_filenames)[256], (*nodeset_names)[256];
+  char (*nodeset_filenames)[256]=NULL, (*nodeset_names)[256]=NULL;
   nfiles = getBdyFileNames(filename, numprocs, rank, &nodeset_filenames, &nodeset_names);
   sprintf(temp_str,"Found %d Bdy files on rank %d.", nfiles, rank);
   MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_MESG);
@@ -909,6 +911,15 @@ extern "C" {
   else if (ndim == 3)
     free(mfdir);
 
+  free(mv);
+  free(me);
+  free(mf);
+
+  free(regfilenames);
+  free(regnames);
+  free(nodeset_filenames);
+  free(nodeset_names);
+
   free(matnames);
   free(mateos);
   free(matopc);
-- 
2.43.0


From 7ff17bc808242e46b98e4dcbc8a62bea73fedee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 50/50] fix: MESH_BuildEdgeClassfn crashed on an edge without
 faces that is already classified on a model edge

---
 src/hilev/MESH_BuildEdgeClassfn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 1147a13..14322c6 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -87,7 +87,7 @@ extern "C" {
 	geids[ngedges] = geid;
 
 	efaces = ME_Faces(edge);
-	nef = List_Num_Entries(efaces);
+	nef = efaces ? List_Num_Entries(efaces) : 0;
 
 	gefaceids[ngedges] = (int *) malloc((1+nef)*sizeof(int));
         ngef = 0;
@@ -102,7 +102,7 @@ extern "C" {
 
 	ngedges++;
 
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
 
     }
-- 
2.43.0

