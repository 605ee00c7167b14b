From c856f94db0261ca9f73fcd475d81b3d29c418429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 001/126] fix: upward adjacency counts of a vertex without such
 entities crashed (F1, F4, R1, R2, R4)

---
 src/base/MVertex_F1.c | 1 +
 src/base/MVertex_F4.c | 2 ++
 src/base/MVertex_R1.c | 2 ++
 src/base/MVertex_R2.c | 1 +
 src/base/MVertex_R4.c | 1 +
 5 files changed, 7 insertions(+)

diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..206c495 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,6 +94,7 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
+    if (!vregions) return 0;
     nr = List_Num_Entries(vregions);
     List_Delete(vregions);
 
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index 1b3c1d5..dc74034 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -75,6 +75,7 @@ extern "C" {
 #endif
     
     vfaces = MV_Faces_F4(v);
+    if (!vfaces) return 0;
     nf = List_Num_Entries(vfaces);
     List_Delete(vfaces);
     return nf;
@@ -91,6 +92,7 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F4(v);
+    if (!vregions) return 0;
     nr = List_Num_Entries(vregions);
     List_Delete(vregions);
     return nr;
diff --git a/src/base/MVertex_R1.c b/src/base/MVertex_R1.c
index a7febee..1371a5d 100644
--- a/src/base/MVertex_R1.c
+++ b/src/base/MVertex_R1.c
@@ -73,6 +73,7 @@ extern "C" {
 #endif
     
     vedges = MV_Edges_R1(v);
+    if (!vedges) return 0;
     ne = List_Num_Entries(vedges);
     List_Delete(vedges);
     return ne;
@@ -89,6 +90,7 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R1(v);
+    if (!vfaces) return 0;
     nf = List_Num_Entries(vfaces);
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
diff --git a/src/base/MVertex_R2.c b/src/base/MVertex_R2.c
index d134e90..7dc7712 100644
--- a/src/base/MVertex_R2.c
+++ b/src/base/MVertex_R2.c
@@ -102,6 +102,7 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R2(v);
+    if (!vfaces) return 0;
     nf = List_Num_Entries(vfaces);
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
diff --git a/src/base/MVertex_R4.c b/src/base/MVertex_R4.c
index 6e43e62..aca6828 100644
--- a/src/base/MVertex_R4.c
+++ b/src/base/MVertex_R4.c
@@ -105,6 +105,7 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vregions = MV_Regions_R4(v);
+    if (!vregions) return 0;
     nr = List_Num_Entries(vregions);
     List_Delete(vregions);
 
-- 
2.43.0


From 2ca228275b806d0d3d0235b063922b7e2425cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 002/126] fix: MF_RegionID and MF_RegionIDs crashed on the free
 side of a face

---
 src/base/MF_Region_Funcs_F1F3.c | 3 ++-
 src/base/MF_Region_Funcs_F2F4.c | 2 ++
 src/base/MF_Region_Funcs_R1.c   | 2 ++
 src/base/MF_Region_Funcs_R2.c   | 2 ++
 src/base/MF_Region_Funcs_R4.c   | 3 ++-
 5 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..8be5400 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,8 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 08bec49..e031ab7 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -57,6 +57,8 @@ extern "C" {
   void MF_RegionIDs_F2F4(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_F2F4(f);
+    *nfr = 0;
+    if (!fregs) return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R1.c b/src/base/MF_Region_Funcs_R1.c
index ebca8a3..cb5f294 100644
--- a/src/base/MF_Region_Funcs_R1.c
+++ b/src/base/MF_Region_Funcs_R1.c
@@ -68,6 +68,8 @@ extern "C" {
   void MF_RegionIDs_R1(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_R1(f);
+    *nfr = 0;
+    if (!fregs) return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R2.c b/src/base/MF_Region_Funcs_R2.c
index c4a2571..f47f7d9 100644
--- a/src/base/MF_Region_Funcs_R2.c
+++ b/src/base/MF_Region_Funcs_R2.c
@@ -68,6 +68,8 @@ extern "C" {
   void MF_RegionIDs_R2(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_R2(f);
+    *nfr = 0;
+    if (!fregs) return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 963a717..903b5e0 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -48,7 +48,8 @@ extern "C" {
   }
 
   int MF_RegionID_R4(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_R4 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_R4 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_R4(MFace_ptr f, MRegion_ptr r, int side) {
-- 
2.43.0


From 18bdf9dc69d31982dbf012413240e1cb26e030e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 003/126] fix: MF_Region returned the region of the other side
 in representation F4

---
 src/base/MF_Region_Funcs_F2F4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index e031ab7..f2affd4 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -89,7 +89,7 @@ extern "C" {
       for (i = 0; i < nr; i++) {
 	r = List_Entry(eregs,i);
 	fdir = MR_FaceDir(r,f);
-	if (fdir == !dir) {
+	if (fdir == dir) {
 	  r1 = r;
 	  break;
 	}
-- 
2.43.0


From e283be987d274eb9e0da5a91588d3da40ea40ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 004/126] fix: representation F4 never connected edges to
 regions, so all upward region queries were empty

---
 src/base/MR_Face_Funcs_FNR3R4.c | 38 +++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..be36271 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -68,6 +68,29 @@ extern "C" {
 
 
 
+  /* In representation F4, regions are known to their edges and not to
+     their faces. Connect the edges of a face to the region, or
+     disconnect those that the region no longer uses */
+
+  static void MR_Connect_Face_F4(MRegion_ptr r, MFace_ptr f) {
+    MEdge_ptr e;
+    List_ptr fedges = MF_Edges(f,1,0);
+    int idx = 0;
+    while ((e = List_Next_Entry(fedges,&idx)))
+      ME_Add_Region(e,r);
+    List_Delete(fedges);
+  }
+
+  static void MR_Disconnect_Face_F4(MRegion_ptr r, MFace_ptr f) {
+    MEdge_ptr e;
+    List_ptr fedges = MF_Edges(f,1,0);
+    int idx = 0;
+    while ((e = List_Next_Entry(fedges,&idx)))
+      if (!MR_UsesEntity(r,(MEntity_ptr)e,MEDGE))
+	ME_Rem_Region(e,r);
+    List_Delete(fedges);
+  }
+
   void MR_Set_Faces_FNR3R4(MRegion_ptr r, int nf, MFace_ptr *rfaces,int *dirs){
     int i, j, k;
     MRegion_Adj_FN *adj;
@@ -96,6 +119,8 @@ extern "C" {
 
       if (MEnt_RepType((MEntity_ptr) r) != F4) 
 	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      else
+	MR_Connect_Face_F4(r,rfaces[i]);
     }
 
     MR_Update_ElementType_FNR3R4(r);
@@ -650,6 +675,8 @@ extern "C" {
     /* Tell face that it is no longer bounding this region */
 
     MF_Rem_Region(remface,r);
+    if (MEnt_RepType((MEntity_ptr) r) == F4)
+      MR_Disconnect_Face_F4(r,remface);
 
   }
 
@@ -728,6 +755,13 @@ extern "C" {
       }
     }
 
+    if (MEnt_RepType((MEntity_ptr) r) == F4) {
+      for (jf = 0; jf < nnew; jf++)
+	MR_Connect_Face_F4(r,nuf[jf]);
+      for (jf = 0; jf < nold; jf++)
+	MR_Disconnect_Face_F4(r,oldf[jf]);
+    }
+
     MR_Update_ElementType_FNR3R4(r);
 
   }
@@ -758,6 +792,10 @@ extern "C" {
 
     MF_Rem_Region(f,r);
     MF_Add_Region(nuf,r,!nudir);
+    if (MEnt_RepType((MEntity_ptr) r) == F4) {
+      MR_Connect_Face_F4(r,nuf);
+      MR_Disconnect_Face_F4(r,f);
+    }
 
     MR_Update_ElementType_FNR3R4(r);
   }
-- 
2.43.0


From 2a722ef37b55e8d6401e9dbd5b1b36f2ad25408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 005/126] fix: MF_Num_AdjFaces crashed for a face without
 neighbours

---
 src/base/MFace_F1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..1ce1a61 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -169,6 +169,7 @@ extern "C" {
 #endif
 
     adjfaces = MF_AdjFaces_F1(f);
+    if (!adjfaces) return 0;
     nf = List_Num_Entries(adjfaces);
     List_Delete(adjfaces);
     return nf;
-- 
2.43.0


From e1cfbfe04cae04b98724df22e378e479fbf8143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 006/126] fix: ID-returning queries of R2 and R4 left the count
 unset or read the wrong structure

---
 src/base/MF_Region_Funcs_R4.c | 2 +-
 src/base/MVertex_R2.c         | 2 +-
 src/base/MVertex_R4.c         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 903b5e0..d516402 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -32,7 +32,7 @@ extern "C" {
   }
 
   void MF_RegionIDs_R4(MFace_ptr f, int *nfr, int *fregids) {
-    MFace_Adj_F1F3 *adj = (MFace_Adj_F1F3 *) f->adj;
+    MFace_Adj_R4 *adj = (MFace_Adj_R4 *) f->adj;
 
     *nfr = 0;
     if (adj->fregions[0])
diff --git a/src/base/MVertex_R2.c b/src/base/MVertex_R2.c
index 7dc7712..034c16a 100644
--- a/src/base/MVertex_R2.c
+++ b/src/base/MVertex_R2.c
@@ -261,7 +261,7 @@ extern "C" {
   }
 
   void MV_FaceIDs_R2(MVertex_ptr v, int *nvf, int *vfaceids) {
-    List_ptr vfaces = MV_Faces_R1(v);
+    List_ptr vfaces = MV_Faces_R2(v);
     if (vfaces) {
       int i;
       *nvf = List_Num_Entries(vfaces);
diff --git a/src/base/MVertex_R4.c b/src/base/MVertex_R4.c
index aca6828..1bf675c 100644
--- a/src/base/MVertex_R4.c
+++ b/src/base/MVertex_R4.c
@@ -179,7 +179,7 @@ extern "C" {
     
     *nvf = List_Num_Entries(adj->vfaces);
     for (i = 0; i < *nvf; i++)
-      vfaceids[i] = MEnt_ID(List_Entry(vfaceids,i));
+      vfaceids[i] = MEnt_ID(List_Entry(adj->vfaces,i));
   }
 
   List_ptr MV_Regions_R4(MVertex_ptr v) {
-- 
2.43.0


From a22a8f2e933c7f262c05765de1c1ac905d70af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 007/126] fix: edges created for a vertex in R1 were not marked
 volatile

---
 src/base/MVertex_R1.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/MVertex_R1.c b/src/base/MVertex_R1.c
index 1371a5d..aaff906 100644
--- a/src/base/MVertex_R1.c
+++ b/src/base/MVertex_R1.c
@@ -209,7 +209,7 @@ extern "C" {
 	}
 
 	if (!found) {
-#ifdef HASTABLE
+#ifdef HASHTABLE
 	  if (ev[0]>ev[1]) {
 	    vtmp = ev[0];
 	    ev[0] = ev[1];
@@ -219,6 +219,7 @@ extern "C" {
 	  edge = Hash_Entry(MESH_Hash_Edges(mesh), 2, (void**)ev);
 	  if (edge == NULL) {
 	    edge = ME_New(mesh);
+	    MEnt_Set_Volatile(edge);
 	    ME_Set_Vertex(edge,0,ev[0]);
 	    ME_Set_Vertex(edge,1,ev[1]);
 	    ME_Set_GInfo_Auto(edge);
@@ -226,6 +227,7 @@ extern "C" {
 	  }
 #else
 	  edge = ME_New(mesh);
+	  MEnt_Set_Volatile(edge);
 	  ME_Set_Vertex(edge,0,ev[0]);
 	  ME_Set_Vertex(edge,1,ev[1]);
 	  ME_Set_GInfo_Auto(edge);
@@ -257,6 +259,7 @@ extern "C" {
 	  edge = Hash_Entry(MESH_Hash_Edges(mesh), 2, (void**)ev);
 	  if (edge == NULL) {
 	    edge = ME_New(mesh);
+	    MEnt_Set_Volatile(edge);
 	    ME_Set_Vertex(edge,0,ev[0]);
 	    ME_Set_Vertex(edge,1,ev[1]);
 	    ME_Set_GInfo_Auto(edge);
@@ -264,6 +267,7 @@ extern "C" {
 	  }
 #else
 	  edge = ME_New(mesh);
+	  MEnt_Set_Volatile(edge);
 	  ME_Set_Vertex(edge,0,ev[0]);
 	  ME_Set_Vertex(edge,1,ev[1]);
 	  ME_Set_GInfo_Auto(edge);
-- 
2.43.0


From 9469ce8419e241768f0d2533de17715c1fb6febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 008/126] fix: edge to region and edge to face queries of
 reduced representations crashed without regions and leaked

---
 src/base/ME_Face_Funcs_R1R2.c |  8 ++++++--
 src/base/ME_Face_Funcs_R3R4.c |  3 ++-
 src/base/ME_Region_Funcs_RN.c | 11 +++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/base/ME_Face_Funcs_R1R2.c b/src/base/ME_Face_Funcs_R1R2.c
index 2417788..6da84f5 100644
--- a/src/base/ME_Face_Funcs_R1R2.c
+++ b/src/base/ME_Face_Funcs_R1R2.c
@@ -55,8 +55,10 @@ extern "C" {
       if (vregs1)
 	List_Delete(vregs1);
       
-      if (!List_Num_Entries(cmnregs)) {
-	List_Delete(cmnregs);
+      if (!cmnregs || !List_Num_Entries(cmnregs)) {
+	if (cmnregs)
+	  List_Delete(cmnregs);
+	List_Delete(efaces);
 	return NULL;
       }
 
@@ -95,6 +97,7 @@ extern "C" {
 	  if (MF_UsesEntity(face,e->vertex[1],MVERTEX))
 	    List_Add(efaces,face);
 	}
+	List_Delete(vfaces1);
       }
       
     }
@@ -114,6 +117,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++) 
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/ME_Face_Funcs_R3R4.c b/src/base/ME_Face_Funcs_R3R4.c
index 7fd739c..6c6dc7f 100644
--- a/src/base/ME_Face_Funcs_R3R4.c
+++ b/src/base/ME_Face_Funcs_R3R4.c
@@ -89,12 +89,13 @@ extern "C" {
   }
 
   void ME_FaceIDs_R3R4(MEdge_ptr e, int *nef, int *efaceids) {
-    List_ptr efaces = ME_Faces_R1R2(e);
+    List_ptr efaces = ME_Faces_R3R4(e);
     if (efaces) {
       int i;
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++) 
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/ME_Region_Funcs_RN.c b/src/base/ME_Region_Funcs_RN.c
index 49279ed..f7653ad 100644
--- a/src/base/ME_Region_Funcs_RN.c
+++ b/src/base/ME_Region_Funcs_RN.c
@@ -24,11 +24,14 @@ extern "C" {
     ne = 0;
 
     vregs = MV_Regions(e->vertex[0]);
+    if (!vregs)
+      return 0;
     idx = 0;
     while ((reg = List_Next_Entry(vregs,&idx))) {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	ne++;
     }
+    List_Delete(vregs);
 
     return ne;
   }
@@ -38,14 +41,17 @@ extern "C" {
     MRegion_ptr reg;
     List_ptr eregs, vregs;
 
-    eregs = List_New(0);
-
     vregs = MV_Regions(e->vertex[0]);
+    if (!vregs)
+      return NULL;
+
+    eregs = List_New(0);
     idx = 0;
     while ((reg = List_Next_Entry(vregs,&idx))) {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	List_Add(eregs,reg);
     }
+    List_Delete(vregs);
 
     if (List_Num_Entries(eregs))
       return eregs;    
@@ -62,6 +68,7 @@ extern "C" {
       *ner = List_Num_Entries(eregs);
       for (i = 0; i < *ner; i++)
         eregids[i] = MEnt_ID(List_Entry(eregs,i));
+      List_Delete(eregs);
     }
     else
       *ner = 0;
-- 
2.43.0


From 877e3631ce2b1589545bce33aead932059e785e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 009/126] fix: edges and prism vertices of a region were wrong
 in R4

---
 src/base/MR_Edge_Funcs_R3R4.c     |  4 ++--
 src/base/MR_Vertex_Funcs_FNR3R4.c | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_R3R4.c b/src/base/MR_Edge_Funcs_R3R4.c
index a202165..e70dc8d 100644
--- a/src/base/MR_Edge_Funcs_R3R4.c
+++ b/src/base/MR_Edge_Funcs_R3R4.c
@@ -162,7 +162,7 @@ extern "C" {
       for (i = 1; i < nf-1 && n < 12; i++) {
 	face = List_Entry(adj->rfaces,i);
 
-	fverts = MF_Edges(face,1,0);
+	fverts = MF_Vertices(face,1,0);
 
 	for (j = 0; j < 4 && n < 12; j++) {
 	  v[0] = List_Entry(fverts,j);
@@ -229,7 +229,7 @@ extern "C" {
     for (i = 1; i < nf-1; i++) {
       face = List_Entry(adj->rfaces,i);
 
-      fverts = MF_Edges(face,1,0);
+      fverts = MF_Vertices(face,1,0);
       nfv = List_Num_Entries(fverts);
 
       for (j = 0; j < nfv; j++) {
diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 0cb77cb..97cf711 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -17,6 +17,25 @@ extern "C" {
 #endif
 
 
+  /* Are two vertices consecutive in one of the given faces? Unlike
+     MVs_CommonEdge this does not depend on edges being available at
+     the vertices (they are not in R4) */
+
+  static int MR_Vertices_Joined(List_ptr rfaces, MVertex_ptr v0, MVertex_ptr v1) {
+    int idx = 0, joined = 0, n;
+    MFace_ptr face;
+    List_ptr fverts;
+
+    while (!joined && (face = List_Next_Entry(rfaces,&idx))) {
+      if (!MF_UsesEntity(face,v0,MVERTEX)) continue;
+      fverts = MF_Vertices(face,1,v0);
+      n = List_Num_Entries(fverts);
+      joined = (List_Entry(fverts,1) == v1 || List_Entry(fverts,n-1) == v1);
+      List_Delete(fverts);
+    }
+    return joined;
+  }
+
   List_ptr MR_Vertices_FNR3R4(MRegion_ptr r) {
     int i, j, n, ne, nf, found, idx, mkr;
     int diradj0=0, diropp=0, fdir, fdir0, fdir1, allquad, alltri;
@@ -89,7 +108,7 @@ extern "C" {
       for (i = 0; i < 3; i++) {
         vert = List_Entry(fverts,i);
         
-        if (MVs_CommonEdge(rv0,vert)) {
+        if (MR_Vertices_Joined(adj->rfaces,rv0,vert)) {
           List_Add(rvertices,vert);
           List_Add(rvertices,List_Entry(fverts,(i+1)%3));
           List_Add(rvertices,List_Entry(fverts,(i+2)%3));
-- 
2.43.0


From 3401fb7ea348955cf9223e853f582fc9f7d251dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 010/126] fix: faces of a mesh were not registered at their
 vertices in R1, R2 and R4, and face vertex IDs lacked the count in R2 and R4

---
 src/base/MF_Vertex_Funcs_R1.c |  6 ++++++
 src/base/MF_Vertex_Funcs_R2.c | 12 ++++++++++--
 src/base/MF_Vertex_Funcs_R4.c | 16 ++++++++++++----
 src/base/MFace.c              |  2 +-
 src/base/MFace_R1.c           | 10 +++++++++-
 src/base/MFace_R2.c           | 10 +++++++++-
 6 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/base/MF_Vertex_Funcs_R1.c b/src/base/MF_Vertex_Funcs_R1.c
index 86704f4..4bec684 100644
--- a/src/base/MF_Vertex_Funcs_R1.c
+++ b/src/base/MF_Vertex_Funcs_R1.c
@@ -186,6 +186,12 @@ extern "C" {
 
       List_Add(adj->fvertices,v[i]);
     }
+
+    /* Faces of the mesh (as opposed to temporary ones created on
+       demand) are known to their vertices */
+    if (!MEnt_IsVolatile((MEntity_ptr) f))
+      for (i = 0; i < n; i++)
+        MV_Add_Face(v[i],f);
   }
 
   void MF_Replace_Vertex_i_R1(MFace_ptr f, int i, MVertex_ptr v) {
diff --git a/src/base/MF_Vertex_Funcs_R2.c b/src/base/MF_Vertex_Funcs_R2.c
index af718c8..8492d1e 100644
--- a/src/base/MF_Vertex_Funcs_R2.c
+++ b/src/base/MF_Vertex_Funcs_R2.c
@@ -186,6 +186,12 @@ extern "C" {
 
       List_Add(adj->fvertices,v[i]);
     }
+
+    /* Faces of the mesh (as opposed to temporary ones created on
+       demand) are known to their vertices */
+    if (!MEnt_IsVolatile((MEntity_ptr) f))
+      for (i = 0; i < n; i++)
+        MV_Add_Face(v[i],f);
   }
 
 
@@ -337,14 +343,16 @@ extern "C" {
     adj = (MFace_Adj_R2 *) f->adj;
     nv = List_Num_Entries(adj->fvertices);
 
+    *nfv = nv;
+
     if (!startvertid) {
       if (dir) {
         for (i = 0; i < nv; i++)
           fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
       else {
-	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+	for (i = 0; i < nv; i++)
+          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,nv-1-i));
       }
     }
     else {
diff --git a/src/base/MF_Vertex_Funcs_R4.c b/src/base/MF_Vertex_Funcs_R4.c
index 6af1153..5785bb4 100644
--- a/src/base/MF_Vertex_Funcs_R4.c
+++ b/src/base/MF_Vertex_Funcs_R4.c
@@ -123,6 +123,12 @@ extern "C" {
 
       List_Add(adj->fvertices,v[i]);
     }
+
+    /* Faces of the mesh (as opposed to temporary ones created on
+       demand) are known to their vertices */
+    if (!MEnt_IsVolatile((MEntity_ptr) f))
+      for (i = 0; i < n; i++)
+        MV_Add_Face(v[i],f);
   }
 
 
@@ -268,21 +274,23 @@ extern "C" {
 	
   void MF_VertexIDs_R4(MFace_ptr f, int dir, int startvertid, int *nfv,
                        int *fvertids) {
-    MFace_Adj_R2 *adj;
+    MFace_Adj_R4 *adj;
     List_ptr fverts;
     int i, k=0, nv, fnd=0;
 
-    adj = (MFace_Adj_R2 *) f->adj;
+    adj = (MFace_Adj_R4 *) f->adj;
     nv = List_Num_Entries(adj->fvertices);
 
+    *nfv = nv;
+
     if (!startvertid) {
       if (dir) {
         for (i = 0; i < nv; i++)
           fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
       else {
-	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+	for (i = 0; i < nv; i++)
+          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,nv-1-i));
       }
     }
     else {
diff --git a/src/base/MFace.c b/src/base/MFace.c
index 757c30e..1782da4 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -49,7 +49,7 @@ extern "C" {
     if (MEnt_Dim((MEntity_ptr) f) != MDELETED) {
       mesh = MEnt_Mesh((MEntity_ptr) f);
 
-      if (mesh) {
+      if (mesh && !MEnt_IsVolatile((MEntity_ptr) f)) {
 #ifdef MSTK_HAVE_MPI
         if (MF_PType(f) == PGHOST) 
           MESH_Rem_GhostFace(mesh,f);
diff --git a/src/base/MFace_R1.c b/src/base/MFace_R1.c
index 5c1b2ea..25f8c21 100644
--- a/src/base/MFace_R1.c
+++ b/src/base/MFace_R1.c
@@ -33,7 +33,15 @@ extern "C" {
     adj = (MFace_Adj_R1 *) f->adj;
 
     if (adj) {
-      if (adj->fvertices) List_Delete(adj->fvertices);
+      if (adj->fvertices) {
+        if (!MEnt_IsVolatile((MEntity_ptr) f)) {
+          int idx = 0;
+          MVertex_ptr v;
+          while ((v = List_Next_Entry(adj->fvertices,&idx)))
+            MV_Rem_Face(v,f);
+        }
+        List_Delete(adj->fvertices);
+      }
       free(adj);
     }
 
diff --git a/src/base/MFace_R2.c b/src/base/MFace_R2.c
index 7d673dc..3df47e6 100644
--- a/src/base/MFace_R2.c
+++ b/src/base/MFace_R2.c
@@ -30,7 +30,15 @@ extern "C" {
     adj = (MFace_Adj_R2 *) f->adj;
 
     if (adj) {
-      if (adj->fvertices) List_Delete(adj->fvertices);
+      if (adj->fvertices) {
+        if (!MEnt_IsVolatile((MEntity_ptr) f)) {
+          int idx = 0;
+          MVertex_ptr v;
+          while ((v = List_Next_Entry(adj->fvertices,&idx)))
+            MV_Rem_Face(v,f);
+        }
+        List_Delete(adj->fvertices);
+      }
       free(adj);
     }
 
-- 
2.43.0


From 69e3b5e63d55bd1236b4426fec43a409659d3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 011/126] fix: List_Insert inserted before the first entry
 other than the given one

---
 src/util/List.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..67a1615 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
-- 
2.43.0


From cf010783398c1cd71e1ab273c9f854aae8ec897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 012/126] fix: List_Cat lost track of the first gap when only
 the appended list has gaps

---
 src/util/List.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 67a1615..3f5f994 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -968,10 +968,10 @@ extern "C" {
     }
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
+    if (!nrem_d && nrem_s)
+      rem1_d = ntot_d + rem1_s;
     nent_d += nent_s;
     nrem_d += nrem_s;
-    if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From 5c2f1534e47d02482c19f2a604cd734b1fc5a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 013/126] fix: out of range positions made list functions
 access memory outside the list

---
 src/util/List.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 3f5f994..7cc926f 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -187,7 +187,7 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
-    if (i >= nent)
+    if (i < 0 || i >= nent)
       return (void *) NULL;
 
     ntot = nent + nrem;   /* total number of list entries */
@@ -256,7 +256,7 @@ extern "C" {
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;   /* total number of list entries */
 
-    if (i >= ntot)
+    if (i < 0 || i >= ntot)
       return (void *) NULL;
     else
       return l->entry[i];
@@ -420,6 +420,11 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
+    if (i < 0 || i > nent) {
+      MSTK_Report("List_Inserti","Not that many entries in list",MSTK_ERROR);
+      return 0;
+    }
+
     ntot = nent + nrem;
 
     nalloc = (1<<p)-1;
@@ -610,7 +615,7 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
-    if (i >= nent) {
+    if (i < 0 || i >= nent) {
 #ifdef DEBUG
       MSTK_Report("List_Remi","Not that many entries in set",MSTK_ERROR);
 #endif
@@ -675,7 +680,7 @@ extern "C" {
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
-    if (i >= ntot) {
+    if (i < 0 || i >= ntot) {
 #ifdef DEBUG
       MSTK_Report("List_Remi_Raw","Not that many raw entries in list",MSTK_ERROR);
 #endif
@@ -831,6 +836,11 @@ extern "C" {
 
     ntot = nent + nrem;
 
+    if (i < 0 || i >= nent) {
+      MSTK_Report("List_Replacei","Not that many entries in list",MSTK_ERROR);
+      return 0;
+    }
+
     ic = -1; /* (valid entry count)-1 (1st entry may be invalid)*/
     ip = 0; /* Position */
     if (!nrem || (rem1 > i)) {
-- 
2.43.0


From b8035ec80651a8be8b8a4ee742698d1d45feded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 014/126] fix: List_RemSorted could remove another entry, read
 outside the list or report success without removing anything

---
 src/util/List.c | 118 +++++++++++++-----------------------------------
 1 file changed, 31 insertions(+), 87 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 7cc926f..c924b6e 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -716,106 +716,50 @@ extern "C" {
 
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
-    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
-    int nent, p, nrem, rem1, ntot, i, id;
+    int imin, imax, imid, imid1;
+    int nent, p, nrem, rem1, ntot, id;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
-    imin = 0; imax = ntot-1;
-    if (!(l->entry[imin])) {
+    /* Find the first position such that all valid entries before it
+       have a smaller integer value than the given entry */
 
-      /* Search for the first valid entry */      
-      fnd1 = 0;
-      while (!fnd1 && imin <= imax)
-	if (l->entry[++imin]) fnd1 = 1;
-      if (!fnd1) 
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
+    id = (*entry2int)(entry);
+    imin = 0; imax = ntot;
+    while (imin < imax) {
+      imid = imin + (imax-imin)/2;
 
-    }
+      /* Search for next valid entry */
+      imid1 = imid;
+      while (imid1 < imax && !(l->entry[imid1])) imid1++;
 
-    if (!(l->entry[imax])) {
+      if (imid1 == imax)   /* no valid entries from imid to imax */
+	imax = imid;
+      else if ((*entry2int)(l->entry[imid1]) < id)
+	imin = imid1+1;
+      else
+	imax = imid;
+    }
 
-      /* Search for the the last valid entry */
-      fnd1 = 0;
-      while (!fnd1 && imax >= imin)
-	if (l->entry[--imax]) fnd1 = 1;
-      if (!fnd1)
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
+    /* More than one entry may have the same integer value */
 
-    }
-      
-    idmin = (*entry2int)(l->entry[imin]);
-    idmax = (*entry2int)(l->entry[imax]);
+    for (; imin < ntot; imin++) {
+      if (!(l->entry[imin])) continue;
 
-    done = 0;
-    i = 0;
-    id = (*entry2int)(entry);
-    while (!done) { 
-      imid = (int)(0.5+(imin+imax)/2.0);
-
-      if (!(l->entry[imid])) {
-
-	/* Search for next valid entry */
-	fnd1 = 0;
-	imid1 = imid;
-	while (!fnd1 && imid1 <= imax)
-	  if (l->entry[++imid1]) fnd1 = 1;
-	if (!fnd1)
-	  MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	else
-	  imid = imid1;
-      
-	if (imid1 == imax) {
-	  /* there were no valid entries from imid to imax */
-	  /* Search back from imid to imin */
-	  
-	  fnd1 = 0;
-	  imid1 = imid;
-	  while (!fnd1 && imid1 >= imin)
-	    if (l->entry[--imid1]) fnd1 = 1;
-	  if (!fnd1)
-	    MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	  else
-	    imid = imid1;
-	}
-      }
+      if (l->entry[imin] == entry) {
+	l->entry[imin] = (void *) NULL;
+	nent--;
+	nrem++;
+	if (rem1 == -1 || rem1 > imin)
+	  rem1 = imin;
 
-      idmid = (*entry2int)(l->entry[imid]);
-      
-      if (id <= idmid) {
-	imax = imid;
-	idmax = idmid;
-      }
-      else {
-	imin = imid;
-	idmin = idmid;
-      }      
-
-      if (id == idmin) {
-	i = imin;
-	fnd = 1;
-	done = 1;
-      }
-      else if (id == idmax) {
-	i = imax;
-	fnd = 1;
-	done = 1;
-      }
-      else if (imax-imin <= 1) {
-	done = 1;
+	pvtList_Set_Pars(l,nent,p,nrem,rem1);
+	return 1;
       }
-    }
 
-    if (fnd) {
-      l->entry[i] = (void *) NULL;
-      nent--;
-      nrem++;
-      if (rem1 == -1 || rem1 > i)
-	rem1 = i;
-
-      pvtList_Set_Pars(l,nent,p,nrem,rem1);
-      return 1;
+      if ((*entry2int)(l->entry[imin]) != id)
+	break;
     }
 
     return 0;
-- 
2.43.0


From 3c14410417981fdb48d327be25cc97e218ef13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 015/126] fix: setting a vector or tensor attribute again
 leaked its storage and clearing it read from a null pointer

---
 src/base/MAttrib.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..e33abac 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -149,26 +149,21 @@ extern "C" {
       case DOUBLE:
         attins->att_val.lval = lval;
         break;
-      case VECTOR: {
-        /* vectors are stored as pointers to data which needs to be
-         * persistent - so copy the data into newly allocated space
-         * before storing */
+      case VECTOR: case TENSOR: {
+        /* vectors and tensors are stored as pointers to data which needs
+         * to be persistent - so copy the data into space owned by the
+         * attribute instance */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
-        attins->att_val.pval = vval_copy;
-        break;
-      }
-      case TENSOR: {
-        /* tensors are stored as pointers to data which needs to be
-         * persistent - so copy the data into newly allocated space before
-         * storing */
-        
-        int ncomp = MAttrib_Get_NumComps(attrib);
-        double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
-        attins->att_val.pval = tval_copy;
+        if (!pval) {
+          if (attins->att_val.pval) free(attins->att_val.pval);
+          attins->att_val.pval = NULL;
+        }
+        else {
+          if (!attins->att_val.pval)
+            attins->att_val.pval = malloc(ncomp*sizeof(double));
+          memmove(attins->att_val.pval, pval, ncomp*sizeof(double));
+        }
         break;
       }
       case POINTER:
-- 
2.43.0


From 2a5fb242a3a9bc07da02ea47564d88953be4284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 016/126] fix: MAttrib_New left the mesh of an attribute
 without mesh undefined and ended its argument list twice

---
 src/base/MAttrib.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index e33abac..812f124 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -71,11 +71,9 @@ extern "C" {
       attrib->ncomp = 1;
     else
       attrib->ncomp = ncomponents;
-    if(mesh) {
-      attrib->mesh = mesh;
+    attrib->mesh = mesh;
+    if(mesh)
       MESH_Add_Attrib(mesh,attrib);
-    }
-    va_end(ap);
 
     return attrib;
   }
-- 
2.43.0


From 0ea2243464b20cab1dbcf63a355b975bc3e72ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 017/126] fix: mesh set copy, union and intersection leaked a
 list or the new name

---
 src/base/MSet.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..4d0e4be 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -136,6 +136,7 @@ extern "C" {
 
     newset = MSet_New(MSet_Mesh(src),MSet_Name(src,name),MSet_EntDim(src));
 
+    List_Delete(newset->entlist);
     newset->entlist = List_Copy(src->entlist);
 
     return newset;
@@ -193,6 +194,7 @@ extern "C" {
       newset = MSet_New(MSet_Mesh(s1),newname,MSet_EntDim(s1));
 
     
+    List_Delete(newset->entlist);
     newset->entlist = List_Copy(s1->entlist);
     
 #ifdef MSTK_USE_MARKERS
@@ -221,6 +223,8 @@ extern "C" {
     MSet_Unmark(newset,mkid);
     MSTK_FreeMarker(mkid);
 #endif
+
+    free(newname);
     return newset;
   }
 
@@ -303,6 +307,7 @@ extern "C" {
       newset = NULL;
     }
 
+    free(newname);
     return newset;
   }
 
-- 
2.43.0


From 830a3cc6920cc56aa47073166758994269ba91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 018/126] fix: renaming a mesh set to a longer name overflowed,
 concatenating sets did not compare their dimensions

---
 src/base/MSet.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index 4d0e4be..f4f592f 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -58,7 +58,10 @@ extern "C" {
   }
 
   void MSet_Rename(MSet_ptr set, char *newname) {
-    strcpy(set->name,newname);
+    char *name = (char *) malloc((strlen(newname)+1)*sizeof(char));
+    strcpy(name,newname);
+    free(set->name);
+    set->name = name;
   }
 
   MType MSet_EntDim(MSet_ptr set) {
@@ -145,7 +148,7 @@ extern "C" {
 
   MSet_ptr    MSets_Cat(MSet_ptr dest, MSet_ptr src) {    
     if (MSet_Mesh(dest) != MSet_Mesh(src) ||
-	MSet_EntDim(dest) != MSet_EntDim(dest)) {
+	MSet_EntDim(dest) != MSet_EntDim(src)) {
       MSTK_Report("MSets_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
     }
 
-- 
2.43.0


From 29d96ee71aef963d1c621d4fa48e0b44698ad4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 019/126] fix: adding to a mesh set returned its internal list
 instead of the set, and the public MSet_Cat did not exist

---
 src/base/MSet.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index f4f592f..fc13be2 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -80,20 +80,23 @@ extern "C" {
   }
 
   MSet_ptr    MSet_Add(MSet_ptr set, void *entry) {
-    return List_Add(set->entlist,entry);
+    List_Add(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_ChknAdd(MSet_ptr set, void *entry) {
-    return List_ChknAdd(set->entlist,entry);
+    List_ChknAdd(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_Insert(MSet_ptr set, void *nuentry, void *b4entry) {
-    return List_Insert(set->entlist,nuentry,b4entry);
+    List_Insert(set->entlist,nuentry,b4entry);
+    return set;
   }
 
 
   MSet_ptr    MSet_Inserti(MSet_ptr set, void *nuentry, int i) {
-    return List_Inserti(set->entlist,nuentry,i);
+    return List_Inserti(set->entlist,nuentry,i) ? set : NULL;
   }
 
   int         MSet_Rem(MSet_ptr set, void *entry) {
@@ -146,10 +149,10 @@ extern "C" {
   }
 
 
-  MSet_ptr    MSets_Cat(MSet_ptr dest, MSet_ptr src) {    
+  MSet_ptr    MSet_Cat(MSet_ptr dest, MSet_ptr src) {    
     if (MSet_Mesh(dest) != MSet_Mesh(src) ||
 	MSet_EntDim(dest) != MSet_EntDim(src)) {
-      MSTK_Report("MSets_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
+      MSTK_Report("MSet_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
     }
 
     dest->entlist = List_Cat(dest->entlist, src->entlist);
-- 
2.43.0


From 869b133bd868684ed88b2c36539c61aa202eb8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 020/126] fix: setting the ID of an entity or restoring one
 broke lookups by ID and later deletions

---
 include/MSTK_private.h |  1 +
 include/Mesh.h         |  1 +
 src/base/MEntity.c     |  4 ++-
 src/base/Mesh.c        | 61 ++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/include/MSTK_private.h b/include/MSTK_private.h
index 4cc3b9c..15d1b56 100644
--- a/include/MSTK_private.h
+++ b/include/MSTK_private.h
@@ -60,6 +60,7 @@ typedef enum MDelType {MDELREGION=-40, MDELFACE=-30, MDELEDGE=-20, MDELVERTEX=-1
   void       MESH_Clear_Attrib(Mesh_ptr mesh, MAttrib_ptr attrib);
 
   void       MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh);
+  void       MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id);
 
 /*
   void MV_Set_RepType(MVertex_ptr v, RepType rtype);
diff --git a/include/Mesh.h b/include/Mesh.h
index c369416..953ee48 100644
--- a/include/Mesh.h
+++ b/include/Mesh.h
@@ -100,6 +100,7 @@ extern "C" {
   void       MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r);
 
   void       MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh);
+  void       MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id);
 
 #ifdef MSTK_HAVE_MPI
   void         MESH_Set_Prtn(Mesh_ptr mesh, unsigned int partition, 
diff --git a/src/base/MEntity.c b/src/base/MEntity.c
index 94c7d90..939fcd3 100644
--- a/src/base/MEntity.c
+++ b/src/base/MEntity.c
@@ -131,8 +131,10 @@ extern "C" {
      * have entries with ascending IDs */
     if (orig_id) {
       Mesh_ptr mesh = ent->entdat.mesh;
-      if (mesh)
+      if (mesh) {
         MESH_Flag_EntLists_As_Unsorted(mesh);
+        MESH_Update_Cached_MaxID(mesh,ent->entdat.dim,id);
+      }
     }
   }
 
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..e996cf2 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -661,6 +661,27 @@ void MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh) {
   mesh->lidlists_sorted = 0;
 }
 
+/* Make sure that the maximum entity ID cached in the mesh is not
+   smaller than an ID that an entity of the mesh has been given */
+void MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id) {
+  switch (mtype) {
+  case MVERTEX:
+    if (id > mesh->max_vid) mesh->max_vid = id;
+    break;
+  case MEDGE:
+    if (id > mesh->max_eid) mesh->max_eid = id;
+    break;
+  case MFACE:
+    if (id > mesh->max_fid) mesh->max_fid = id;
+    break;
+  case MREGION:
+    if (id > mesh->max_rid) mesh->max_rid = id;
+    break;
+  default:
+    break;
+  }
+}
+
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
@@ -853,6 +874,10 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else { /* Restored vertex - goes to the end of the list with its old ID */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+    MESH_Update_Cached_MaxID(mesh,MVERTEX,MV_ID(v));
+  }
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -869,6 +894,10 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else { /* Restored edge - goes to the end of the list with its old ID */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+    MESH_Update_Cached_MaxID(mesh,MEDGE,ME_ID(e));
+  }
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -893,6 +922,10 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else { /* Restored face - goes to the end of the list with its old ID */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+    MESH_Update_Cached_MaxID(mesh,MFACE,MF_ID(f));
+  }
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -906,6 +939,10 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else { /* Restored region - goes to the end of the list with its old ID */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
+    MESH_Update_Cached_MaxID(mesh,MREGION,MR_ID(r));
+  }
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
@@ -939,6 +976,9 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->mvertex,v);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Vertex","Vertex not found in list",MSTK_FATAL);
 
@@ -988,6 +1028,9 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->medge,e);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Edge","Edge not found in list",MSTK_FATAL);
 
@@ -1038,6 +1081,9 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->mface,f);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Face","Face not found in list",MSTK_FATAL);
 
@@ -1087,6 +1133,9 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->mregion,r);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Region","Region not found in list",MSTK_FATAL);
 
@@ -2153,6 +2202,9 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->mvertex,v);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in mesh vertex list",MSTK_FATAL);
 
@@ -2190,6 +2242,9 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->medge,e);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in mesh edge list",MSTK_FATAL);
 
@@ -2227,6 +2282,9 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->mface,f);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in mesh face list",MSTK_FATAL);
 
@@ -2263,6 +2321,9 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
 
+  if (!fnd)  /* not sorted because IDs were set or entities restored */
+    fnd = List_Rem(mesh->mregion,r);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in mesh region list",MSTK_FATAL);
 
-- 
2.43.0


From 9602a91120bdaf28eea3979eca5b9f62ede7c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 021/126] fix: deleted faces stayed in the edge to face answers
 of representation F4 and restoring did not add them

---
 src/base/MFace_F4.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..c48d777 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,9 +28,22 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      if (adj && adj->fedges) {
+	ne = List_Num_Entries(adj->fedges);
+	for (i = 0; i < ne; i++) {
+	  e = List_Entry(adj->fedges,i);
+	  ME_Rem_Face(e,f);
+	}
+      }
+    }
 
     if (!keep) {
-      adj = (MFace_Adj_F2F4 *) f->adj;
       if (adj) {
 	if (adj->fedges)
 	  List_Delete(adj->fedges);
@@ -40,7 +53,19 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    ne = List_Num_Entries(adj->fedges);
+    for (i = 0; i < ne; i++) {
+      e = List_Entry(adj->fedges,i);
+      ME_Add_Face(e,f);
+    }
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
-- 
2.43.0


From 188217e09fbe3318ff66278a4304bf1924c2ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 022/126] fix: restoring a vertex asked for its status as an
 edge

---
 src/base/MVertex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 5de6bd2..e6771ac 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -84,7 +84,7 @@ extern "C" {
     MEnt_Rem_DelFlag((MEntity_ptr) v);
 
 #ifdef MSTK_HAVE_MPI
-    if (ME_PType(v) == PGHOST)
+    if (MV_PType(v) == PGHOST)
       MESH_Add_GhostVertex(mesh,v);
     else
 #endif
-- 
2.43.0


From 904c13362bc8136c05bc602140137e3efd126454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 023/126] fix: deleting regions and edges in representation F4
 leaked or read missing vertices, ME_FaceIDs leaked

---
 src/base/MEdge_F4.c   | 5 +++--
 src/base/MRegion_F4.c | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/base/MEdge_F4.c b/src/base/MEdge_F4.c
index 85b02a6..68ec831 100644
--- a/src/base/MEdge_F4.c
+++ b/src/base/MEdge_F4.c
@@ -28,8 +28,8 @@ extern "C" {
     MEdge_Adj_F4 *adj;
 
     if (MEnt_Dim((MEntity_ptr) e) != MDELETED) { /* if edge hasnt been temporarily deleted */
-      MV_Rem_Edge(e->vertex[0],e);
-      MV_Rem_Edge(e->vertex[1],e);
+      if (e->vertex[0]) MV_Rem_Edge(e->vertex[0],e);
+      if (e->vertex[1]) MV_Rem_Edge(e->vertex[1],e);
     }
 
     if (!keep) {
@@ -156,6 +156,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++)
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..7fafdc9 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -32,7 +32,7 @@ extern "C" {
     adj = (MRegion_Adj_FN *) r->adj;
 
     if (MEnt_Dim((MEntity_ptr) r) != MDELETED) { /* if regn hasnt been temporarily deleted */
-      if (adj) {
+      if (adj && adj->rfaces) {
 	idx = 0;
 	while ((f = List_Next_Entry(adj->rfaces,&idx))) {	  
 	  fedges = MF_Edges(f,1,0);
@@ -48,8 +48,10 @@ extern "C" {
 
     if (!keep) {
       if (adj) {
-	if (adj->rfaces)
+	if (adj->rfaces) {
+	  free(adj->fdirs);
 	  List_Delete(adj->rfaces);
+	}
 	free(adj);
       }
     }
-- 
2.43.0


From 93834968718dac03480784f13570770ed32434e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 024/126] fix: polyhedral regions of R1 and R2 got their face
 templates one slot off, overran them and were never recognised as prisms or
 pyramids

---
 src/base/MR_Vertex_Funcs_R1.c | 9 +++++----
 src/base/MR_Vertex_Funcs_R2.c | 9 +++++----
 src/base/MRegion_R1.c         | 6 ++----
 src/base/MRegion_R2.c         | 4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index 1166f00..ccf99ee 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -89,13 +89,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -118,7 +119,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index cb3dab0..0cde9b2 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -88,13 +88,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -117,7 +118,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index eec17c3..28faed3 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -49,14 +49,12 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
 	free(adj);
       }
-
-      free(r);
     }
   }
 
@@ -80,7 +78,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
diff --git a/src/base/MRegion_R2.c b/src/base/MRegion_R2.c
index b210bb9..f5c4bd4 100644
--- a/src/base/MRegion_R2.c
+++ b/src/base/MRegion_R2.c
@@ -55,7 +55,7 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
@@ -95,7 +95,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
-- 
2.43.0


From b5a92fadee18332036ff8a51fd35449610dd807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 025/126] fix: deleting an explicit face of R1 or R2 left it in
 the mesh

---
 src/base/MFace_R1.c | 4 +---
 src/base/MFace_R2.c | 1 +
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/base/MFace_R1.c b/src/base/MFace_R1.c
index 25f8c21..c4b02cf 100644
--- a/src/base/MFace_R1.c
+++ b/src/base/MFace_R1.c
@@ -43,11 +43,9 @@ extern "C" {
         List_Delete(adj->fvertices);
       }
       free(adj);
+      f->adj = NULL;
     }
 
-    if (!keep) {
-      MEnt_Set_DelFlag((MEntity_ptr) f);
-    }
     if (keep) 
       MSTK_Report("MF_Delete_R1","Deletion of faces is permanent in this representation",MSTK_ERROR);
   }
diff --git a/src/base/MFace_R2.c b/src/base/MFace_R2.c
index 3df47e6..1421723 100644
--- a/src/base/MFace_R2.c
+++ b/src/base/MFace_R2.c
@@ -40,6 +40,7 @@ extern "C" {
         List_Delete(adj->fvertices);
       }
       free(adj);
+      f->adj = NULL;
     }
 
     if (keep) 
-- 
2.43.0


From 0bd060e641fc1e878fab03329e5d8d0dff1c06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:51 +0000
Subject: [PATCH 026/126] fix: faces left without regions were missing from the
 faces of a vertex in F4

---
 src/base/MVertex_F4.c | 57 +++++++++----------------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index dc74034..317bd09 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -170,11 +170,10 @@ extern "C" {
 
   List_ptr MV_Faces_F4(MVertex_ptr v) {
     MVertex_Adj_F1F4 *adj;
-    int i, j, k, ne, nf, nr, n;
-    List_ptr vedges, eregions, rfaces, efaces, vfaces;
+    int i, k, ne, nf, n;
+    List_ptr vedges, efaces, vfaces;
     MEdge_ptr edge;
     MFace_ptr face;
-    MRegion_ptr region;
 
     adj = (MVertex_Adj_F1F4 *) v->adj;
     vedges = adj->vedges;
@@ -185,50 +184,18 @@ extern "C" {
 
     for (i = 0; i < ne; i++) {
       edge = List_Entry(vedges,i);
-      eregions = ME_Regions(edge);
-      if (eregions) {
-	nr = List_Num_Entries(eregions);
-	
-	for (j = 0; j < nr; j++) {
-	  region = List_Entry(eregions,j);
-	  
-	  rfaces = MR_Faces(region);
-	  nf = List_Num_Entries(rfaces);
-	  
-	  for (k = 0; k < nf; k++) {
-	    face = List_Entry(rfaces,k);
-            int fmarked;
-            fmarked = List_Contains(vfaces,face);
-	    if (!fmarked) {
-	      if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {		
-		List_Add(vfaces,face);
-		n++;
-	      }
-	    }
-	  }
-	  List_Delete(rfaces);
-	}
-	List_Delete(eregions);
-      }
-      else {
-	/* perhaps the edge has boundary faces (not connected to regions) */
-	efaces = ME_Faces(edge);
-	if (efaces) {
-	  nf = List_Num_Entries(efaces);
-	  
-	  for (k = 0; k < nf; k++) {
-	    face = List_Entry(efaces,k);
-            int fmarked;
-            fmarked = List_Contains(vfaces,face);
-            if (!fmarked) {
-	      if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {
-		List_Add(vfaces,face);
-		n++;
-	      }
-	    }
+      efaces = ME_Faces(edge); /* faces of regions and free faces */
+      if (efaces) {
+	nf = List_Num_Entries(efaces);
+
+	for (k = 0; k < nf; k++) {
+	  face = List_Entry(efaces,k);
+          if (!List_Contains(vfaces,face)) {
+	    List_Add(vfaces,face);
+	    n++;
 	  }
-	  List_Delete(efaces);
 	}
+	List_Delete(efaces);
       }
     }
     if (n > 0)
-- 
2.43.0


From d76151afe88b32bca079d0fc2ab646b843e688ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:51 +0000
Subject: [PATCH 027/126] fix: lookup by ID read gaps of an emptied and
 refilled entity list

---
 src/base/Mesh.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index e996cf2..e268991 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -685,24 +685,24 @@ void MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id) {
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
-  if (mesh->nv) {
+  if (mesh->mvertex)
     List_Compress(mesh->mvertex);  // can't sort list with gaps
+  if (mesh->nv)
     List_Sort(mesh->mvertex, mesh->nv, sizeof(MVertex_ptr), compareID);
-  }
-  if (mesh->ne) {
+  if (mesh->medge)
     List_Compress(mesh->medge);  // can't sort list with gaps
+  if (mesh->ne)
     List_Sort(mesh->medge, mesh->ne, sizeof(MEdge_ptr), compareID);
-  }
 
-  if (mesh->nf) {
+  if (mesh->mface)
     List_Compress(mesh->mface);  // can't sort list with gaps
+  if (mesh->nf)
     List_Sort(mesh->mface, mesh->nf, sizeof(MFace_ptr), compareID);
-  }
 
-  if (mesh->nr) {
+  if (mesh->mregion)
     List_Compress(mesh->mregion);  // can't sort list with gaps
+  if (mesh->nr)
     List_Sort(mesh->mregion, mesh->nr, sizeof(MRegion_ptr), compareID);
-  }
 
   mesh->lidlists_sorted = 1;
 }
-- 
2.43.0


From 846aee6ff1afa7ed855abd3282969234614e3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 028/126] fix: splitting an edge or face of a tetrahedral mesh
 gave the new regions undefined model region IDs

---
 src/mod/ME_Split_SimplexMesh.c | 1 +
 src/mod/MF_Split_SimplexMesh.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mod/ME_Split_SimplexMesh.c b/src/mod/ME_Split_SimplexMesh.c
index 9b0a5dd..0b1b97c 100644
--- a/src/mod/ME_Split_SimplexMesh.c
+++ b/src/mod/ME_Split_SimplexMesh.c
@@ -35,6 +35,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(etets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
diff --git a/src/mod/MF_Split_SimplexMesh.c b/src/mod/MF_Split_SimplexMesh.c
index bbb6b97..fc9edb9 100644
--- a/src/mod/MF_Split_SimplexMesh.c
+++ b/src/mod/MF_Split_SimplexMesh.c
@@ -41,6 +41,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(ftets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
-- 
2.43.0


From bdb2e8f680cc27eb76b3b4f04ab5bfbeed3fc82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 029/126] fix: joining faces of opposite orientation made a
 broken face, faces of different model faces were joined

---
 src/mod/MFs_Join.c | 57 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/mod/MFs_Join.c b/src/mod/MFs_Join.c
index 4de0580..7871f37 100644
--- a/src/mod/MFs_Join.c
+++ b/src/mod/MFs_Join.c
@@ -12,12 +12,12 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 
 MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
-  int i, k0, k1, nfe0, nfe1, *fedir0, *fedir1, *fedir3, gdim, gid;
+  int i, k0, k1, opp, nfe0, nfe1, *fedir0, *fedir1, *fedir3, gdim, gid;
   MEdge_ptr *fe0, *fe1, *fe3;
   MFace_ptr  nuface;
   MRegion_ptr fr00=NULL, fr01=NULL, fr10=NULL, fr11=NULL;
   Mesh_ptr   mesh;
-  List_ptr   fedges, fregs;
+  List_ptr   fedges;
 
   mesh = MF_Mesh(f0);
   gid = MF_GEntID(f0);
@@ -27,34 +27,11 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     MSTK_Report("MFs_Join","Faces not from same mesh",MSTK_ERROR);
     return 0;
   }
-  else if (gid != MF_GEntID(f0) || gdim != MF_GEntDim(f0)) {
+  else if (gid != MF_GEntID(f1) || gdim != MF_GEntDim(f1)) {
     MSTK_Report("MFs_Join","Faces not from same geometric entity",MSTK_ERROR);
     return 0;
   }
 
-  fregs = MF_Regions(f0);
-  if (fregs) {
-    int nfr = List_Num_Entries(fregs);
-    fr00 = (nfr > 0) ? List_Entry(fregs,0) : NULL;
-    fr01 = (nfr > 1) ? List_Entry(fregs,1) : NULL;
-    List_Delete(fregs);
-  }
-
-  fregs = MF_Regions(f1);
-  if (fregs) {
-    int nfr = List_Num_Entries(fregs);
-    fr10 = (nfr > 0) ? List_Entry(fregs,0) : NULL;
-    fr11 = (nfr > 1) ? List_Entry(fregs,1) : NULL;
-    List_Delete(fregs);
-  }
-
-  if (fr00 != fr10 || fr01 != fr11) {
-    MSTK_Report("MFs_Join","Faces have incompatible regions connected to them",
-                MSTK_ERROR);
-    return 0;
-  }
-
-
   nfe0 = MF_Num_Edges(f0);
   nfe1 = MF_Num_Edges(f1);
 
@@ -85,6 +62,29 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
 
   if (k0 == -1 || k1 == -1) {
     MSTK_Report("MFs_Join","Cannot find edge in face",MSTK_ERROR);
+    free(fe0); free(fedir0);
+    free(fe1); free(fedir1);
+    free(fe3); free(fedir3);
+    return 0;
+  }
+
+  /* Faces that use the common edge in the same direction have opposite
+     orientations - then go around the second face the other way so that
+     the new face has the orientation of the first */
+
+  opp = (fedir0[k0] == fedir1[k1]);
+
+  fr00 = MF_Region(f0,0);
+  fr01 = MF_Region(f0,1);
+  fr10 = MF_Region(f1,opp ? 1 : 0);
+  fr11 = MF_Region(f1,opp ? 0 : 1);
+
+  if (fr00 != fr10 || fr01 != fr11) {
+    MSTK_Report("MFs_Join","Faces have incompatible regions connected to them",
+                MSTK_ERROR);
+    free(fe0); free(fedir0);
+    free(fe1); free(fedir1);
+    free(fe3); free(fedir3);
     return 0;
   }
 
@@ -94,8 +94,9 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
   }
 
   for (i = 0; i < nfe1-1; i++) {
-    fe3[(nfe0-1)+i] = fe1[(k1+1+i)%nfe1];
-    fedir3[(nfe0-1)+i] = fedir1[(k1+1+i)%nfe1];
+    int k = opp ? (k1-1-i+nfe1)%nfe1 : (k1+1+i)%nfe1;
+    fe3[(nfe0-1)+i] = fe1[k];
+    fedir3[(nfe0-1)+i] = opp ? !fedir1[k] : fedir1[k];
   }
 
   
-- 
2.43.0


From c64ed17b44ca05074d18dfabb85f963b72752256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 030/126] fix: regions whose faces merely have the sizes of a
 prism's or hex's faces were taken for one, their vertices and edges were
 wrong

---
 src/base/MR_Edge_Funcs_FN.c     |  8 ++--
 src/base/MR_Face_Funcs_FNR3R4.c | 65 +++++++++++++++++++++++++++++++++
 2 files changed, 69 insertions(+), 4 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 987a3b6..217b565 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -55,7 +55,7 @@ extern "C" {
 	}
       }
       
-      if (alltri) { /* Tet */
+      if (alltri && r->mrtype == TET) { /* Tet */
 	
 	botface = List_Entry(adj->rfaces,0); /* first face */
 	botfdir = adj->fdirs[0] & 1; /* Sense in which face is used in region */
@@ -129,7 +129,7 @@ extern "C" {
 	}
       }
       
-      if (nquads == 3 && ntris == 2) {
+      if (nquads == 3 && ntris == 2 && r->mrtype == PRISM) {
 
 	botfdir = MR_FaceDir_i(r,itri0); /* Sense in which face is used in region */
 	redges = MF_Edges(tri0,!botfdir,0);
@@ -196,7 +196,7 @@ extern "C" {
 	List_Delete(fverts);
 	return redges;
       }
-      else if (nquads == 1 && ntris == 4) {
+      else if (nquads == 1 && ntris == 4 && r->mrtype == PYRAMID) {
 
 	botfdir = MR_FaceDir_i(r,iquad0);  /* Sense in which face is used in region */
 	redges = MF_Edges(quad0,!botfdir,0);
@@ -245,7 +245,7 @@ extern "C" {
 	}
       }
 
-      if (allquad) { /* Hex */
+      if (allquad && r->mrtype == HEX) { /* Hex */
 
 	n = 0;
 	
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index be36271..7841da6 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -801,6 +801,68 @@ extern "C" {
   }
 
 
+  /* The faces of a region may have the sizes of a standard element's
+     faces without being connected like them, e.g. splitting a lateral
+     edge of a pyramid leaves two triangles and three quads but not a
+     prism. Check that the faces also share as many vertices */
+
+  static int MR_FacesFitType(List_ptr rfaces, MRType type) {
+    int i, j, k, l, n, ni, nj, nopp, nfv[6], nf = List_Num_Entries(rfaces);
+    MVertex_ptr fv[6][4];
+
+    for (i = 0; i < nf; i++) {
+      List_ptr fverts = MF_Vertices(List_Entry(rfaces,i),1,0);
+      nfv[i] = List_Num_Entries(fverts);
+      for (k = 0; k < nfv[i]; k++)
+        fv[i][k] = List_Entry(fverts,k);
+      List_Delete(fverts);
+    }
+
+    for (i = 0; i < nf; i++) {
+      ni = nfv[i];
+      nopp = 0;
+      for (j = 0; j < nf; j++) {
+        if (j == i) continue;
+        nj = nfv[j];
+        for (k = 0, n = 0; k < ni; k++) /* number of common vertices */
+          for (l = 0; l < nj; l++)
+            if (fv[i][k] == fv[j][l]) n++;
+        switch (type) {
+        case TET:
+          if (n != 2) return 0;
+          break;
+        case PYRAMID: /* opposite triangles meet only at the apex */
+          if (ni == 4 || nj == 4) {
+            if (n != 2) return 0;
+          }
+          else if (n == 1)
+            nopp++;
+          else if (n != 2)
+            return 0;
+          break;
+        case PRISM:
+          if (ni == 3 && nj == 3) {
+            if (n != 0) return 0;
+          }
+          else if (n != 2)
+            return 0;
+          break;
+        case HEX:
+          if (n == 0)
+            nopp++;
+          else if (n != 2)
+            return 0;
+          break;
+        default:
+          break;
+        }
+      }
+      if (type == HEX && nopp != 1) return 0;
+      if (type == PYRAMID && ni == 3 && nopp != 1) return 0;
+    }
+    return 1;
+  }
+
   void MR_Update_ElementType_FNR3R4(MRegion_ptr r) {
 
     int nf;
@@ -868,6 +930,9 @@ extern "C" {
         r->mrtype = POLYHED;
     }
 
+    if (r->mrtype != RUNKNOWN && r->mrtype != POLYHED &&
+        !MR_FacesFitType(adj->rfaces,r->mrtype))
+      r->mrtype = POLYHED;
   }
 
 
-- 
2.43.0


From 3006295bb1ca0d6daffbf39dba89205275c379e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 031/126] fix: replacing faces of a region by fewer ones
 detached the region from the sides of other faces

---
 src/base/MR_Face_Funcs_FNR3R4.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 7841da6..a034ed4 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -735,13 +735,19 @@ extern "C" {
                it from the list (this shifts all the subsequent faces up)
                Similarly shift all the face dirs up */
 
-            for (ii = i; ii < nf-1; ii++)
-              if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
-                MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
+            for (ii = i; ii < nf-1; ii++) {
+              int nxtdir = MR_FaceDir_i(r,ii+1);
+              j = (int) ii/(8*sizeof(unsigned int));
+              k = ii%(8*sizeof(unsigned int));
+              adj->fdirs[j] = (adj->fdirs[j] & ~(1u<<k)); /* set bit ii to 0 */
+              adj->fdirs[j] = (adj->fdirs[j] | ((unsigned int) nxtdir<<k));
+            }
             List_Remi(adj->rfaces,i);
+            nf--;
           }
           
           MF_Rem_Region(f,r);
+          break;
         }
       }
     }
-- 
2.43.0


From de8bd0e44a4320a8e5ef988ad576d452ad3ba3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 032/126] fix: edges of prisms and hexes could be taken for a
 mesh edge across the element

---
 src/base/MR_Edge_Funcs_FN.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 217b565..828918c 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -149,7 +149,8 @@ extern "C" {
 	for (i = 0; i < 3; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MVs_CommonEdge(botvert,topvert)) &&
+              MR_UsesEdge_FN(r,latedge)) {
 	    found = 1;
 	    break;
 	  }
@@ -294,7 +295,8 @@ extern "C" {
 	for (i = 0; i < 4; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MVs_CommonEdge(botvert,topvert)) &&
+              MR_UsesEdge_FN(r,latedge)) {
 	    found = 1;
 	    break;
 	  }
-- 
2.43.0


From 4a0b1048eac958a6f597600f28f49867ff93a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 033/126] fix: collapsing an edge with topological conformity
 ignored which vertex to keep

---
 src/mod/ME_Collapse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..6171f02 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -78,7 +78,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
       if (MV_GEntID(vkeep) != MV_GEntID(vdel))
         status = 0;                 /* cannot allow since it will cause 
                                        a dimensional reduction in mesh */
-      else {
+      else if (vkeep_in == NULL) {
         /* No restriction because of topology - pick the one with the
          * lower global ID to delete - important for parallel
          * operation consistency */
-- 
2.43.0


From 440615236245fa37a55fec0021ef4d160487c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 034/126] fix: collapsing an edge of an unclassified mesh
 crashed on edges left without faces and did not prefer external vertices and
 edges

---
 src/mod/ME_Collapse.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index 6171f02..31b46c6 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -124,8 +124,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
     idx1 = 0;
     while ((edge = (MEdge_ptr) List_Next_Entry(vedges,&idx1))) {
       List_ptr efaces = ME_Faces(edge);
-      int nef = List_Num_Entries(efaces);
-      List_Delete(efaces);
+      int nef = efaces ? List_Num_Entries(efaces) : 0;
+      if (efaces) List_Delete(efaces);
       if (nef < 2) {
         vdel_external = 1;
         break;
@@ -147,7 +147,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
         if (fregs) List_Delete(fregs);
 
         if (nfr == 1) {
-          vdel_external = 0;
+          vdel_external = 1;
           break;
         }
       }
@@ -397,8 +397,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              edge */
           
           efaces = ME_Faces(edge);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
+          if (nef == 0) { /* the degenerate face it had is deleted */
             edge_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -415,7 +415,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         edge2_on_boundary = 0;
@@ -429,8 +429,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              boundary of a ghost layer can mimic an external edge */
           
           efaces = ME_Faces(edge2);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
+          if (nef == 0) { /* the degenerate face it had is deleted */
             edge2_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -447,7 +447,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge2_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         if (edge_on_boundary == edge2_on_boundary) {
-- 
2.43.0


From c43b673b1e257875dcd874d087d11ca4cf77294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 035/126] fix: writing R2 and R4 files crashed at boundary
 regions or wrote what the reader does not accept

---
 src/base/MESH_InitFromFile.c |  9 ++-------
 src/base/MESH_WriteToFile.c  | 15 +++++++--------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 9fad8e3..953134c 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -788,13 +788,8 @@ extern "C" {
   if (processed_adjr) {
     status = fscanf(fp,"%s",temp_str);
     if (status == EOF) {
-      if (mesh->reptype == R2)
-	MSTK_Report("MESH_InitFromFile",
-		    "Premature end of file after reading regions",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      fclose(fp);
+      return 1;
     }
   }
 
diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..b707227 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -133,17 +133,17 @@ extern "C" {
     idx = 0;
     while ((mv = MESH_Next_Vertex(mesh,&idx))) {
 
-      nav = MV_Num_AdjVertices(mv);
+      adjverts = MV_AdjVertices(mv);
+      nav = adjverts ? List_Num_Entries(adjverts) : 0;
       fprintf(fp,"%d ",nav);
       
-      adjverts = MV_AdjVertices(mv);
       for (j = 0; j < nav; j++) {
 	mv2 = List_Entry(adjverts,j);
 	MEnt_Get_AttVal(mv2,vidatt,&mvid2,&rval,&pval);
 	fprintf(fp,"%d ",mvid2);
       }
       fprintf(fp,"\n");
-      List_Delete(adjverts);
+      if (adjverts) List_Delete(adjverts);
     }
   }
 
@@ -237,7 +237,7 @@ extern "C" {
 
 
   if (nr) {
-    if (reptype <= F4 || reptype >= R2) {
+    if (reptype <= F4 || reptype == R4) {
       fprintf(fp,"regions face\n");
 
       idx = 0;
@@ -292,10 +292,9 @@ extern "C" {
       idx = 0;
       while ((mr = MESH_Next_Region(mesh,&idx))) {
 
-	nar = MR_Num_Faces(mr);
-	fprintf(fp,"%d ",nar);
-
 	adjregs = MR_AdjRegions(mr);
+	nar = adjregs ? List_Num_Entries(adjregs) : 0;
+	fprintf(fp,"%d ",nar);
 
 	for (j = 0; j < nar; j++) {
 	  mr2 = List_Entry(adjregs,j);
@@ -307,7 +306,7 @@ extern "C" {
 	  }
 	}
 	fprintf(fp,"\n");
-	List_Delete(adjregs);
+	if (adjregs) List_Delete(adjregs);
       }
     }
   }
-- 
2.43.0


From a949c60c5921cb3e5aead913f60e80926debd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 036/126] fix: vector attribute values read from a file leaked

---
 src/base/MESH_InitFromFile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 953134c..72e056b 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -940,6 +940,10 @@ extern "C" {
 	  }
 	  
 	  MEnt_Set_AttVal(ent,attrib,ival,rval,(void *)rval_arr);
+	  if (rval_arr) {
+	    free(rval_arr);
+	    rval_arr = NULL;
+	  }
 	  
 	}
 
-- 
2.43.0


From c3b41e3c48a2ac7d6d5577d2f3add4b85e62230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 037/126] fix: writing an Exodus II file with MSTK IDs that
 have gaps overran arrays and could not be asked for

---
 src/io/MESH_ExportToExodusII.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 44d4f76..adf8503 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -193,7 +193,7 @@ extern "C" {
 
     verbose = opts ? opts[0] : 0;  // default is 0
     enable_geometry_sets = opts ? opts[1] : 0;  // default is 0
-    enforce_contiguous_ids = opts ? opts[1] : 1; // default is 1
+    enforce_contiguous_ids = opts ? opts[2] : 1; // default is 1
 
     if (verbose)
       fprintf(stdout,"\nMesh representation type is %s\n", 
@@ -423,6 +423,27 @@ extern "C" {
       exit(-1);
     }
     
+    /* MSTK IDs can serve as Exodus II node numbers only if the owned
+       vertices are numbered contiguously starting from 1 */
+
+    if (!enforce_contiguous_ids) {
+      int maxvid = 0;
+      idx = 0;
+      while ((mv = MESH_Next_Vertex(mesh,&idx))) {
+        MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
+        if (maxvid < vid) maxvid = vid;
+      }
+      if (maxvid > nvowned) {
+        int newvid = 0;
+        idx = 0;
+        while ((mv = MESH_Next_Vertex(mesh,&idx))) {
+          MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
+          if (vid) MEnt_Set_AttVal(mv,vidatt,++newvid,0.0,NULL);
+        }
+      }
+    }
+
+
     /* decide if it is 2d planar mesh or 3D surface mesh */
 
     if (element_dim == 2) {
-- 
2.43.0


From 4fea043ec610592a92e11a4012818091093cd98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 038/126] fix: Exodus II export overran the names of attributes
 with many components and crashed on entities without a value

---
 src/io/MESH_ExportToExodusII.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index adf8503..e5dffac 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1319,8 +1319,15 @@ extern "C" {
          components has to be written out separately by suffixing the
          attribute name with a keyword and component index */
 
-      int num_node_atts_out = 0;      
-      char **node_att_names_out =  malloc(num_node_atts_glob*6*sizeof(char *));
+      int num_node_atts_out = 0;
+      for (j = 0; j < num_node_atts_glob; j++) {
+        MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
+        MAttType atype = MAttrib_Get_Type(att);
+        num_node_atts_out += (atype == VECTOR || atype == TENSOR) ?
+          MAttrib_Get_NumComps(att) : 1;
+      }
+      char **node_att_names_out = malloc(num_node_atts_out*sizeof(char *));
+      num_node_atts_out = 0;
 
       for (j = 0; j < num_node_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
@@ -1387,7 +1394,7 @@ extern "C" {
 
               MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
               MEnt_Get_AttVal(mv,att,&ival,&rval,&pval);
-              node_vars[vid-1] = ((double *) pval)[n];
+              node_vars[vid-1] = pval ? ((double *) pval)[n] : 0.0;
             }
     
 #ifdef EXODUS_6_DEPRECATED         
@@ -1450,9 +1457,15 @@ extern "C" {
          components has to be written out separately by suffixing the
          attribute name with a keyword and component index */
 
-      int num_element_atts_out = 0;      
-      char **element_att_names_out = 
-          malloc(num_element_atts_glob*6*sizeof(char *));
+      int num_element_atts_out = 0;
+      for (j = 0; j < num_element_atts_glob; j++) {
+        MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
+        MAttType atype = MAttrib_Get_Type(att);
+        num_element_atts_out += (atype == VECTOR || atype == TENSOR) ?
+          MAttrib_Get_NumComps(att) : 1;
+      }
+      char **element_att_names_out = malloc(num_element_atts_out*sizeof(char *));
+      num_element_atts_out = 0;
 
       for (j = 0; j < num_element_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
@@ -1532,7 +1545,7 @@ extern "C" {
               idx = 0; k = 0;
               while ((ment = MSet_Next_Entry(element_blocks_glob[i],&idx))) {
                 MEnt_Get_AttVal(ment,att,&ival,&rval,&pval);
-                elem_vars[k++] = ((double *) pval)[n];
+                elem_vars[k++] = pval ? ((double *) pval)[n] : 0.0;
               }
               
 #ifdef EXODUS_6_DEPRECATED
-- 
2.43.0


From 958da1527f88a8d419eed052ae7b397e4be7e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 039/126] fix: attributes made for writing an Exodus II file
 stayed on the mesh

---
 src/io/MESH_ExportToExodusII.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index e5dffac..5242163 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1716,12 +1716,14 @@ extern "C" {
         MEnt_Unmark(mv,ownedmk);
       
       MSTK_FreeMarker(ownedmk);
-#else
-      MAttrib_Delete(ownedatt);
 #endif
     }
 #endif
 
+#ifndef MSTK_USE_MARKERS
+    MAttrib_Delete(ownedatt);
+#endif
+    MAttrib_Delete(block_type_att);
 
     idx = 0;
     while ((mv = MESH_Next_Vertex(mesh,&idx)))
-- 
2.43.0


From bf493d8cb0573d053a6ccb8daf923e2d0db80a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 040/126] fix: only the first geometric side set of a surface
 mesh was written to Exodus II files

---
 src/io/MESH_ExportToExodusII.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 5242163..f7faaa7 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -2314,6 +2314,7 @@ extern "C" {
         /* create sidesets from sets of edges classified on the same
            geometric model edge */
 
+        idx = 0;
         while ((me = MESH_Next_Edge(mesh,&idx))) {
           if (ME_GEntDim(me) != 1) continue;
           
-- 
2.43.0


From 11c71928487022f07d16aea75bd29bff4104592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 041/126] fix: writing an Exodus II file with geometric sets
 changed the sets of the user

---
 src/io/MESH_ExportToExodusII.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index f7faaa7..b06fbb6 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -59,6 +59,7 @@ extern "C" {
   /* this function get the local side number */
   int MF_LocalID_in_Region(MFace_ptr mf, MRegion_ptr mr);
   int ME_LocalID_in_Face(MEdge_ptr me, MFace_ptr mf);
+  static MSet_ptr MSet_Temporary(MSet_ptr mset);
   void itoa(int n, char s[]);
   void reverse(char s[]);
 
@@ -1742,6 +1743,28 @@ extern "C" {
 
 
 
+  /* Sets to which entities are added for the purpose of writing the
+     file must not be those of the user. Return the set itself if it is
+     a temporary set or a temporary copy of it */
+
+  static MSet_ptr MSet_Temporary(MSet_ptr mset) {
+    char mset_name[256], temp_name[300];
+
+    MSet_Name(mset,mset_name);
+    if (strncmp(mset_name,"TEMPORARY_",10) == 0) return mset;
+
+    sprintf(temp_name,"TEMPORARY_%s",mset_name);
+    MSet_ptr tempset = MSet_New(MSet_Mesh(mset),temp_name,MSet_EntDim(mset));
+
+    MEntity_ptr ment;
+    int idx = 0;
+    while ((ment = MSet_Next_Entry(mset,&idx)))
+      MSet_Add(tempset,ment);
+
+    return tempset;
+  }
+
+
   /* Categorize the elements into blocks based on their geometric
      entity ID and the element type */
 
@@ -2250,6 +2273,7 @@ extern "C" {
           while (!found && i < nsideset) {
             if (side_set_ids[i] == sid) {
               found = 1;
+              side_sets[i] = MSet_Temporary(side_sets[i]);
               MSet_Add(side_sets[i],mf);
               break;
             }
@@ -2336,6 +2360,7 @@ extern "C" {
           while (!found && i < nsideset) {
             if (side_set_ids[i] == sid) {
               found = 1;
+              side_sets[i] = MSet_Temporary(side_sets[i]);
               MSet_Add(side_sets[i],me);
               break;
             }
@@ -2577,6 +2602,7 @@ extern "C" {
         while (!found && i < nnodeset) {
           if (node_set_ids[i] == nid) {
             found = 1;
+            node_sets[i] = MSet_Temporary(node_sets[i]);
             MSet_Add(node_sets[i],mv);
             break;
           }
-- 
2.43.0


From 40b790cca1b5e81c13eaf0cbce96fbbd558e0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 042/126] fix: base of pyramids read from Exodus II files used
 the wrong way by the pyramid

---
 src/io/MESH_ReadExodusII_Serial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8faa650..77bad1e 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -77,7 +77,7 @@ extern "C" {
     int exo_rfdirs[4][6] =
         {{1,1,1,1,-99,-99},
          {1,1,1,1,1,-99},
-         {1,1,1,1,-99,-99},
+         {1,1,1,1,1,-99},
          {1,1,1,1,1,1}};
 
     List_ptr fedges, rfaces;
-- 
2.43.0


From c060341368a5790e1eece966a8c9c00f30d306bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 043/126] fix: faces read from Exodus II files were classified
 on entity 2 instead of the entity of their block

---
 src/io/MESH_ReadExodusII_Partial.c | 2 +-
 src/io/MESH_ReadExodusII_Serial.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 8b9553a..e11cff4 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -748,7 +748,7 @@ extern "C" {
 	MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	MF_Set_GEntID(mf, b);
-	MF_Set_GEntID(mf, 2);
+	MF_Set_GEntDim(mf, 2);
 
 	MSet_Add(matset[ib], mf);
 	MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);  /* necessary? */
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 77bad1e..3701c95 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1100,7 +1100,7 @@ extern "C" {
             MF_Set_Vertices(mf,nnpe[j],fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1150,7 +1150,7 @@ extern "C" {
             MF_Set_Vertices(mf,nelnodes,fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
-- 
2.43.0


From ac78b374d1d81b95f7adec1f01b3943a0591e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 044/126] fix: element sets of surface meshes read from Exodus
 II files were made sets of regions

---
 src/io/MESH_ReadExodusII_Serial.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 3701c95..5678e25 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1785,7 +1785,8 @@ extern "C" {
           char elemsetname[256];
           sprintf(elemsetname,"elemset_%-d",elemset_ids[i]);
 	
-          MSet_ptr elemset = MSet_New(mesh,elemsetname,MREGION);
+          MSet_ptr elemset = MSet_New(mesh,elemsetname,
+                                    mesh_type == 1 ? MFACE : MREGION);
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
-- 
2.43.0


From b82cb1cbd3710e2983728f95102850ae0224c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 045/126] fix: faces of non-convex polyhedra read from Exodus
 II files could get inconsistent directions

---
 src/io/MESH_ReadExodusII_Serial.c | 178 +++++++++++++++---------------
 1 file changed, 92 insertions(+), 86 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 5678e25..0f58129 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -25,6 +25,60 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 extern "C" {
 #endif
 
+  /* Given the direction in which a region uses one of its faces, make it
+     use all its other faces consistently with that */
+
+  static void MR_Propagate_FaceDir(MRegion_ptr mr, MFace_ptr fstart) {
+    List_ptr rfaces = MR_Faces(mr);
+    int nrf = List_Num_Entries(rfaces);
+
+    List_ptr rfaces2 = List_New(nrf);
+    List_Add(rfaces2, fstart);
+
+    int idx = 0;
+    MFace_ptr curface;
+    while ((curface = List_Next_Entry(rfaces2, &idx))) {
+      int curdir = MR_FaceDir(mr, curface);
+
+      List_ptr fedges = MF_Edges(curface, 1, 0);
+      int nfe = List_Num_Entries(fedges);
+
+      /* For each of the edges, find an adjacent face of the region
+       * sharing that edge and set its direction based on directional
+       * consistency rules for a 2-manifold object (if two faces of a
+       * region sharing an edge use the edge in opposite senses, then
+       * the two faces are used by the region in the same sense) */
+
+      int i, j;
+      for (i = 0; i < nfe; ++i) {
+        MEdge_ptr cmnedge = List_Entry(fedges, i);
+        int fedir = MF_EdgeDir_i(curface, i);
+
+        /* Find another face in this region that uses this edge and
+         * whose direction of use by the region is not known */
+
+        for (j = 0; j < nrf; ++j) {
+          MFace_ptr adjface = List_Entry(rfaces, j);
+          if (adjface == curface) continue;
+          if (MF_UsesEntity(adjface, cmnedge, MEDGE)) {
+            /* Found adjacent face in region */
+            if (!List_Contains(rfaces2, adjface)) { /* small list - no need of marking */
+              int adjfedir = MF_EdgeDir(adjface, cmnedge);
+              int adjdir = (fedir != adjfedir) ? curdir : !curdir;
+              if (adjdir != MR_FaceDir_i(mr, j))
+                MR_Rev_FaceDir_i(mr, j);
+              List_Add(rfaces2, adjface);
+            }
+            break;
+          }
+        }
+      }
+      List_Delete(fedges);
+    }
+    List_Delete(rfaces2);
+    List_Delete(rfaces);
+  }
+
 
   /* Read a single Exodus II (or Nemesis) file on one processor into MSTK */
   /* Nemesis files are the distributed versions of Exodus II files
@@ -1289,9 +1343,6 @@ extern "C" {
               double (*fxyz)[3] =
                   (double (*)[3]) malloc(MAXPV2*sizeof(double [3]));
             
-              /* Geometric center of region */
-              /* Average normal and geometric center of faces */
-            
               List_ptr rfaces = MR_Faces(mr);
               int nrf = List_Num_Entries(rfaces);
             
@@ -1300,7 +1351,6 @@ extern "C" {
             
               double rcen[3];
               rcen[0] = rcen[1] = rcen[2] = 0.0;
-              double fcen[MAXPF3][3], fnormal[MAXPF3][3];
             
               for (k = 0; k < nrf; k++) {
                 MFace_ptr rf = List_Entry(rfaces, k);
@@ -1308,7 +1358,6 @@ extern "C" {
                 List_ptr fverts = MF_Vertices(rf, 1, 0);
                 int nfv = List_Num_Entries(fverts);
               
-                fcen[k][0] = fcen[k][1] = fcen[k][2] = 0.0;
                 int k1;
                 for (k1 = 0; k1 < nfv; k1++) {
                   int k2;
@@ -1320,45 +1369,49 @@ extern "C" {
                     for (k2 = 0; k2 < 3; k2++) rcen[k2] += fxyz[k1][k2];
                     nrv++;
                   }
-                
-                  for (k2 = 0; k2 < 3; k2++) fcen[k][k2] += fxyz[k1][k2];
                 }
-                for (k1 = 0; k1 < 3; k1++) fcen[k][k1] /= nfv;
                 List_Delete(fverts);
-              
-                fnormal[k][0] = fnormal[k][1] = fnormal[k][2] = 0.0;
+              }
+              for (k = 0; k < 3; k++) rcen[k] /= nrv;
+              List_Delete(rverts);
+
+              /* Make the directions of the faces of the region consistent
+                 with each other and decide by the sign of the volume they
+                 enclose if they all have to be reversed. Looking at each
+                 face by itself does not work if the region is not convex */
+
+              MR_Propagate_FaceDir(mr, List_Entry(rfaces, 0));
+
+              double rvol = 0.0, rvolabs = 0.0;
+              for (k = 0; k < nrf; k++) {
+                MFace_ptr rf = List_Entry(rfaces, k);
+                List_ptr fverts = MF_Vertices(rf, MR_FaceDir_i(mr, k), 0);
+                int nfv = List_Num_Entries(fverts);
+
+                double fcen[3] = {0.0, 0.0, 0.0};
+                int k1, k2;
+                for (k1 = 0; k1 < nfv; k1++) {
+                  MV_Coords(List_Entry(fverts, k1), fxyz[k1]);
+                  for (k2 = 0; k2 < 3; k2++) fcen[k2] += fxyz[k1][k2]/nfv;
+                }
+                List_Delete(fverts);
+
                 for (k1 = 0; k1 < nfv; k1++) {
-                  double vec1[3], vec2[3], normal[3];
-                  MSTK_VDiff3(fxyz[(k1+1)%nfv], fxyz[k1], vec1);
-                  MSTK_VDiff3(fxyz[(k1+nfv-1)%nfv], fxyz[k1], vec2);
+                  double vec0[3], vec1[3], vec2[3], normal[3];
+                  MSTK_VDiff3(fcen, rcen, vec0);
+                  MSTK_VDiff3(fxyz[k1], rcen, vec1);
+                  MSTK_VDiff3(fxyz[(k1+1)%nfv], rcen, vec2);
                   MSTK_VCross3(vec1, vec2, normal);
-                  double len2 = MSTK_VLenSqr3(normal);
-                  if (len2 > 0.0) MSTK_VNormalize3(normal);
-                  MSTK_VSum3(fnormal[k], normal, fnormal[k]);
+                  double tvol = MSTK_VDot3(vec0, normal)/6.0;
+                  rvol += tvol;
+                  rvolabs += fabs(tvol);
                 }
               }
-              for (k = 0; k < 3; k++) rcen[k] /= nrv;
-            
-              int nfgood = 0;
-              for (k = 0; k < nrf; k++) {
-                /* @todo: do checks to make sure face is not too warped */
-              
-                if (MSTK_VLenSqr3(fnormal[k]) < 1.0e-20) continue;  /* zero area face */
-              
-                double outvec[3];              
-                MSTK_VDiff3(fcen[k], rcen, outvec);
-                if (MSTK_VLenSqr3(outvec) < 1.0e-20) continue;  /* zero vol element */
-              
-                MSTK_VNormalize3(outvec);
-                MSTK_VNormalize3(fnormal[k]);
-                double dp = MSTK_VDot3(outvec, fnormal[k]);
-                int dir = (dp > 0) ? 1 : 0;
-                if (dir != MR_FaceDir_i(mr, k))
-                  MR_Rev_FaceDir_i(mr, k);
-                nfgood++;
-              }            
-            
-              if (nfgood == nrf) {
+
+              if (rvol < 0.0)
+                for (k = 0; k < nrf; k++) MR_Rev_FaceDir_i(mr, k);
+
+              if (fabs(rvol) > 1.0e-10*rvolabs) {  /* not a zero volume region */
                 /* Found a region where we could reliably orient all the faces. */
                 /* Take note of this region and mark an adjacent region as the 
                    start region for fixing process */
@@ -1443,54 +1496,7 @@ extern "C" {
             /* Using the known face direction in this region, find the
              * direction of use of all the other faces in the region */
 
-            List_ptr rfaces2 = List_New(nrf);
-            List_Add(rfaces2, fstart);
-
-            int idx2 = 0;
-            MFace_ptr curface;
-            while ((curface = List_Next_Entry(rfaces2, &idx2))) {
-              int curdir = MR_FaceDir(mr, curface);
-                
-              List_ptr fedges = MF_Edges(curface, 1, 0);
-              int nfe = List_Num_Entries(fedges);
-                
-              /* For each of the edges, find an adjacent face of the
-               * region sharing that edge and set its direction
-               * based on directional consistency rules for a
-               * 2-manifold object (if two faces of a region sharing
-               * an edge use the edge in opposite senses, then the
-               * two faces are used by the region in the same
-               * sense) */
-            
-              int i2;
-              for (i2 = 0; i2 < nfe; ++i2) {
-                MEdge_ptr cmnedge = List_Entry(fedges, i2);
-                int fedir = MF_EdgeDir_i(curface, i2);
-              
-                /* Find another face in this region that uses this edge
-                 * and whose direction of use by the region is not
-                 * known */
-              
-                int j2;
-                for (j2 = 0; j2 < nrf; ++j2) {
-                  MFace_ptr adjface = List_Entry(rfaces, j2);
-                  if (adjface == curface) continue;
-                  if (MF_UsesEntity(adjface, cmnedge, MEDGE)) {
-                    /* Found adjacent face in region */
-                    if (!List_Contains(rfaces2, adjface)) { /* small list - no need of marking */
-                      int adjfedir = MF_EdgeDir(adjface, cmnedge);
-                      int adjdir = (fedir != adjfedir) ? curdir : !curdir;
-                      if (adjdir != MR_FaceDir_i(mr, j2))
-                        MR_Rev_FaceDir_i(mr, j2);
-                      List_Add(rfaces2, adjface);
-                    }
-                    break;
-                  }
-                }  /* for j2 = 0, nrf-1 */
-              }  /* for i2 = 0, nfe-1 */
-              List_Delete(fedges);
-            }  /* while (curface = List_Next_Entry(rfaces2, &idx2)) */
-            List_Delete(rfaces2);
+            MR_Propagate_FaceDir(mr, fstart);
 
             /* This region's face directions are fixed */
 #ifdef MSTK_USE_MARKERS
-- 
2.43.0


From 94708a0ce415b1220adea38fe74655c2b9c792ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 046/126] fix: GMV reader leaked its face tables and could free
 the template twice

---
 src/io/MESH_ImportFromGMV.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..e18a2c7 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -530,6 +530,7 @@ extern "C" {
 	for (i = 0; i < MAXPF3; i++)
 	  free(rfv_template[i]);
 	free(rfv_template);
+	rfv_template = NULL;
       }
 
       /* END READING CELLS (EXCEPT VFACES FOR VFACE2D and VFACE3D) */
@@ -656,6 +657,8 @@ extern "C" {
 	}
 
 	free(vface2d_data);
+	free(vedge);
+	free(vedir);
       }
       else if (vface3d) {
 	for (ic = 0; ic < ncells; ic++) {
@@ -674,6 +677,8 @@ extern "C" {
 	}
 
 	free(vface3d_data);
+	free(vface);
+	free(vfdir);
       }
     }
     else if (strcmp(temp_str,"faces") == 0) {
-- 
2.43.0


From b9db1a77db80ffd094bcb7d59d64b7e339ea831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 047/126] fix: GMV reader took the second face of a vface pair
 for a new face

---
 src/io/MESH_ImportFromGMV.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index e18a2c7..0a92193 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -585,7 +585,7 @@ extern "C" {
 	}
 
 	if (vface2d) {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Edge must have already been defined for adjacent face */
 
@@ -610,7 +610,7 @@ extern "C" {
 	  }
 	}
 	else {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Face must have already been defined for adjacent region */
 
-- 
2.43.0


From a181adb25d385e18101bff9ce3fb32e3e6fd21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 048/126] fix: GMV reader set both ends of a line element on
 its first vertex

---
 src/io/MESH_ImportFromGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 0a92193..99502b7 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -272,7 +272,7 @@ extern "C" {
 	  
 	  me = ME_New(mesh);
 	  for (j = 0; j < 2; j++)
-	    ME_Set_Vertex(me,0,vtx[j]);
+	    ME_Set_Vertex(me,j,vtx[j]);
 
 	  non_vface_cells = 1;
 	}
-- 
2.43.0


From 4e87c418b146d50040bc19b3eaff6e7802f49ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 049/126] fix: GMV file without endgmv was read in an endless
 loop

---
 src/io/MESH_ImportFromGMV.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 99502b7..569dfd4 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -135,9 +135,11 @@ extern "C" {
   done = 0; 
   while (!done) {
     status = fscanf(fp,"%s",temp_str);
-    if (status == EOF)
+    if (status == EOF) {
       MSTK_Report("MESH_ImportFromGMV","End of file but 'endgmv' not found?",
 		  MSTK_WARN);
+      break;
+    }
 
 
     /* READ COMMENTS IF THEY EXIST */
-- 
2.43.0


From 3e8ceda80f09c3b8d0f822649ce7fa8057aed826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 050/126] fix: GMV reader looked for other parallel file names
 than the exporter writes

---
 src/io/MESH_ImportFromGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 569dfd4..4f6260a 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -60,7 +60,7 @@ extern "C" {
   if (numprocs > 1) {
     distributed = 1;
 
-    sprintf(modfilename,"%s.%5d",filename,rank);
+    sprintf(modfilename,"%s.%05d",filename,rank);
     if (!(fp = fopen(modfilename,"r"))) {
       
       sprintf(modfilename,"%s.%d",filename,rank);      
-- 
2.43.0


From bdde1206ed103de8736a01efeffe007585517e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 051/126] fix: base and apex of pyramids mixed up in GMV files

---
 src/io/MESH_ExportToGMV.c   | 2 +-
 src/io/MESH_ImportFromGMV.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..3043753 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -77,7 +77,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 4f6260a..d0689a7 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -37,7 +37,7 @@ extern "C" {
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
-- 
2.43.0


From 0e7bb2e08a56e2eebb30ebd9f13bae0bc8e4fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 052/126] fix: face colours missing in GMV files

---
 src/io/MESH_ExportToGMV.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 3043753..79a86d7 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -943,6 +943,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     if (ncells2) {
+      idx = 0;
       while ((face = List_Next_Entry(flist,&idx))) {
         int fmarked;
 #ifdef MSTK_USE_MARKERS
-- 
2.43.0


From e97f05bac373522e9596c63876629b9b8f91ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 053/126] fix: GMV exporter wrote attributes although asked for
 none

---
 src/io/MESH_ExportToGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 79a86d7..9a86cd5 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -1004,7 +1004,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   /* Must write out other attributes that exist on mesh entities */ 
   /* If natt is 0, all attributes are to be written out */
   
-  if (nmeshatt) {
+  if (nmeshatt && natt >= 0) {
 
     /* Collect the attributes */
     
-- 
2.43.0


From 57eceaab5c954ef494987929b4605e041d729979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 054/126] fix: GMV exporter wrote its own marker attribute

---
 src/io/MESH_ExportToGMV.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 9a86cd5..c520105 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -1012,6 +1012,9 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     
     for (i = 0, noutatt = 0; i < nmeshatt; i++) {
       attrib = MESH_Attrib(mesh,i);
+#ifndef MSTK_USE_MARKERS
+      if (attrib == cellmkatt) continue; /* created in this routine */
+#endif
       
       attentdim = MAttrib_Get_EntDim(attrib);
       if ((attentdim == MVERTEX)  || (attentdim == MREGION) || 
-- 
2.43.0


From 5445af9543f4571aee3619403c8ecd9a04e6ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 055/126] fix: STL keywords run together, empty file left after
 a refusal

---
 src/io/MESH_ExportToSTL.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..bacfc24 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -29,12 +29,6 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
   FILE		        *fp;
 
   
-  if (!(fp = fopen(filename,"w"))) {
-    sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
-    return 0;
-  }
-
   if (MESH_Num_Regions(mesh)) {
     MSTK_Report("MESH_ExportToSTL","Cannot export solid meshes\n",MSTK_ERROR);
     return 0;
@@ -52,6 +46,12 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
   }
   
 
+  if (!(fp = fopen(filename,"w"))) {
+    sprintf(mesg,"Couldn't open output file %s\n",filename);
+    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    return 0;
+  }
+
   /* Opening line for STL file */
   fprintf(fp,"solid\n");
 
@@ -63,6 +63,7 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
 
     for (i = 0; i < nfv; i++)
       MV_Coords(List_Entry(fverts,i),fxyz[i]);
+    List_Delete(fverts);
       
     {
       vec1[0] = fxyz[1][0]-fxyz[0][0];
@@ -86,11 +87,11 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
     fprintf(fp,"  outer loop\n");
     for (j = 0; j < 3; j++) 
       fprintf(fp,"    vertex %20.10lf %20.10lf %20.10lf\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
-    fprintf(fp,"endloop");
-    fprintf(fp,"endfacet");
+    fprintf(fp,"  endloop\n");
+    fprintf(fp,"endfacet\n");
   }
 
-  fprintf(fp,"endsolid");
+  fprintf(fp,"endsolid\n");
 
   fclose(fp);
 
-- 
2.43.0


From 7ae3ebd16f4bfc4756216abdc9ae436130d35124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 056/126] fix: OFF faces numbered vertices by position plus
 one, file not closed

---
 src/io/MESH_ExportToOFF.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index aad997f..5438c05 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -32,7 +32,7 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   if (!(fp = fopen(filename,"w"))) {
     sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    MSTK_Report("MESH_ExportToOFF",mesg,MSTK_ERROR);
     return 0;
   }
 
@@ -44,12 +44,20 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   /* Write vertex info */
   
-  int idx = 0;
+  /* Faces refer to vertices by their position (from 0) in the file */
+  int idx = 0, maxid = 0;
   MVertex_ptr mv;
+  while ((mv = MESH_Next_Vertex(mesh, &idx)))
+    if (MV_ID(mv) > maxid) maxid = MV_ID(mv);
+  int *vtxidx = (int *) malloc((maxid+1)*sizeof(int));
+
+  int nv = 0;
+  idx = 0;
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     double xyz[3];
     MV_Coords(mv, xyz);
     fprintf(fp,"%20.12lf %20.12lf %20.12lf\n",xyz[0],xyz[1],xyz[2]);
+    vtxidx[MV_ID(mv)] = nv++;
   }
 
 
@@ -60,11 +68,14 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
     List_ptr fverts = MF_Vertices(mf,1,0);
     fprintf(fp,"%d ",List_Num_Entries(fverts));
     for (int i = 0; i < List_Num_Entries(fverts); i++)
-      fprintf(fp," %d",MV_ID(List_Entry(fverts,i)));
+      fprintf(fp," %d",vtxidx[MV_ID(List_Entry(fverts,i))]);
     fprintf(fp,"\n");
     List_Delete(fverts);
   }
 
+  free(vtxidx);
+  fclose(fp);
+
   return 1;
 }
 
-- 
2.43.0


From 132187d741462a60d6840d8398322fdd3f133f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 057/126] fix: regions, buffer sizes and vertex numbering of
 binary DX files

---
 src/io/MESH_ExportToDXBin.c | 270 ++++++++++++++----------------------
 1 file changed, 102 insertions(+), 168 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 173992f..ec45877 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -11,38 +11,57 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <string.h>
 #include "MSTK.h"
 
-void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
+int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   int i, k, k1, bt, bq, bgf, bpy, bpr, bh, nreg, np, offset;
-  int nvf, nrf, objnum, fed0, fed1, fed2, rfd0, flip;
+  int nvf, objnum;
   int nbtris=0, nbquads=0, ngenf=0, ntets=0, npyrs=0, nprisms=0, nhexes=0;
   int *idbtri=0, *idbquad=0, *idbtet=0, *idbprm=0, *idbpyr=0, *idbhex=0;
-  int *edgarr, *loopstartarr, *facearr, *polcenidx;
+  int *edgarr=0, *loopstartarr=0, *facearr=0, *polcenidx, *vtxidx;
   int nfaces, nedges=0, index, maxvf, maxtri=0;
-  int genpoly2, id, nfv;
+  int id, nfv, maxid;
   FILE *fout, *fdat;
-  MVertex_ptr vertex, evert0, evert1, lvert[8];
-  List_ptr verts, elist, rfaces, fedges;
+  MVertex_ptr vertex;
+  List_ptr verts;
   MRegion_ptr reg;
-  MFace_ptr face, rface, rface0, rface1, rface2;
-  MEdge_ptr edge, ecmn;
+  MFace_ptr face;
   float  flxyz[3];
   float *dattri=0, *datquad=0, *datgenf=0, *dattet=0, *datprm=0, *datpyr=0, *dathex=0;
   double xyz[3], fxyz[MAXPV2][3];
   double (*polcen2)[3];
   char   basename[256], datfname[256];
-  char   xsb[4];
+  char   xsb[4], mesg[512];
+  int one = 1;
+
+  /* Pyramids and prisms are written as degenerate cubes */
   int rvtmpl[4][8]={{0,1,2,3,-1,-1,-1,-1},
-		    {0,1,2,3,4,-1,-1,-1},
-		    {0,1,2,3,4,5,-1,-1},
+		    {0,1,3,2,4,4,4,4},
+		    {0,1,2,2,3,4,5,5},
 		    {0,1,3,2,4,5,7,6}};
   int haveModel = 1;
+  size_t len = strlen(fname);
  
+  if (len+5 > sizeof(basename)) {
+    MSTK_Report("MESH_ExportToDXBin","File name too long",MSTK_ERROR);
+    return 0;
+  }
   strcpy(basename,fname);
-  basename[strlen(fname)-3] = '\0'; 
+  if (len > 3 && strcmp(basename+len-3,".dx") == 0)
+    basename[len-3] = '\0'; 
 
   strcpy(datfname,basename);
   strcat(datfname,".dat");
-  fdat = fopen(datfname,"wb");
+  if (!(fdat = fopen(datfname,"wb"))) {
+    sprintf(mesg,"Couldn't open output file %s\n",datfname);
+    MSTK_Report("MESH_ExportToDXBin",mesg,MSTK_ERROR);
+    return 0;
+  }
+
+  /* Connectivity refers to the positions in the order they are written */
+
+  index = 0; maxid = 0;
+  while ((vertex = MESH_Next_Vertex(mesh,&index)))
+    if (MV_ID(vertex) > maxid) maxid = MV_ID(vertex);
+  vtxidx = (int *) malloc((maxid+1)*sizeof(int));
 
 
   /* Write out vertex coordinates */
@@ -53,6 +72,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
     MV_Coords(vertex,xyz);
     for (i = 0; i < 3; i++) flxyz[i] = (float) xyz[i];
     fwrite((void *)flxyz,sizeof(float),3,fdat);
+    vtxidx[MV_ID(vertex)] = np;
     np++;
   }
 
@@ -69,8 +89,11 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   /* We are still not checking for the center point being inside the
      polygon which may be non-convex */
   
-  polcenidx = (int *) malloc((nfaces+1)*sizeof(int));
-  polcen2 = (double (*)[3]) malloc((nfaces+1)*sizeof(double [3]));
+  index = 0; maxid = 0;
+  while ((face = MESH_Next_Face(mesh,&index)))
+    if (MF_ID(face) > maxid) maxid = MF_ID(face);
+  polcenidx = (int *) malloc((maxid+1)*sizeof(int));
+  polcen2 = (double (*)[3]) malloc((maxid+1)*sizeof(double [3]));
   
   index = 0; bgf = 0; maxvf = 0;
   while ((face = MESH_Next_Face(mesh,&index))) {
@@ -81,8 +104,6 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	maxvf = nvf;
       
       if (nvf > 3) {
-	genpoly2 = 1;
-	
 	id = MF_ID(face);
 	
 	MF_Coords(face,&nfv,fxyz);
@@ -119,8 +140,13 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  dattri = (float *)malloc(maxtri*sizeof(float));
 	}
 	nbtris++;
+	if (nbtris > maxtri) {
+	  maxtri = 2*nbtris;
+	  idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
+	  dattri = (float *) realloc(dattri,maxtri*sizeof(float));
+	}
 	for (k = 0; k < nvf; k++)
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;	
+	  idbtri[bt++] = vtxidx[MV_ID(List_Entry(verts,k))];	
 	dattri[nbtris-1] = MF_GEntID(face);
       }
       /* We have to disallow direct writing of quads since 
@@ -134,9 +160,9 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	}
 	nbquads++;
 	for (k = 0; k < 2; k++)
-	  idbquad[bq++] = MV_ID(List_Entry(verts,k))-1;
-	idbquad[bq++] = MV_ID(List_Entry(verts,3))-1;
-	idbquad[bq++] = MV_ID(List_Entry(verts,2))-1;	
+	  idbquad[bq++] = vtxidx[MV_ID(List_Entry(verts,k))];
+	idbquad[bq++] = vtxidx[MV_ID(List_Entry(verts,3))];
+	idbquad[bq++] = vtxidx[MV_ID(List_Entry(verts,2))];	
 	datquad[nbquads-1] = MF_GEntID(face);
       }
       */
@@ -154,8 +180,8 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	    idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
 	    dattri = (float *) realloc(dattri,maxtri*sizeof(float));
 	  }
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;
-	  idbtri[bt++] = MV_ID(List_Entry(verts,(k+1)%nvf))-1;
+	  idbtri[bt++] = vtxidx[MV_ID(List_Entry(verts,k))];
+	  idbtri[bt++] = vtxidx[MV_ID(List_Entry(verts,(k+1)%nvf))];
 	  idbtri[bt++] = polcenidx[MF_ID(face)];
 	  dattri[nbtris-1] = MF_GEntID(face);
 	}
@@ -205,7 +231,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	nvf = List_Num_Entries(verts);
 
 	for (i = 0; i < nvf; i++)
-	  edgarr[bgf++] = MV_ID(List_Entry(verts,i))-1;
+	  edgarr[bgf++] = vtxidx[MV_ID(List_Entry(verts,i))];
 
 	List_Delete(verts);
       }
@@ -213,11 +239,11 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
     
     if (ngenf) {
       fwrite((void *)edgarr,sizeof(int),nedges,fdat);
-      fwrite((void *)loopstartarr,sizeof(int),nfaces,fdat);
-      fwrite((void *)facearr,sizeof(int),nfaces,fdat);
+      fwrite((void *)loopstartarr,sizeof(int),ngenf,fdat);
+      fwrite((void *)facearr,sizeof(int),ngenf,fdat);
       /**/
       if (haveModel)
-	fwrite((void *)datgenf,sizeof(float),nfaces,fdat);
+	fwrite((void *)datgenf,sizeof(float),ngenf,fdat);
       /**/
     } 
   }
@@ -231,11 +257,8 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
     index = 0; i = 0; ntets = nprisms = npyrs = nhexes = 0;
     while ((reg = MESH_Next_Region(mesh,&index))) {
 
-      for (k = 0; k < 8; k++) lvert[k]=0;
-
-      nrf = MR_Num_Faces(reg);
-      switch(nrf) {
-      case 4:
+      switch(MR_ElementType(reg)) {
+      case TET:
 	if (!idbtet) {
 	  idbtet = (int *)malloc(4*nreg*sizeof(int));
 	  dattet = (float *)malloc(nreg*sizeof(float));
@@ -243,7 +266,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	verts = MR_Vertices(reg);
         for (k = 0; k < 4; k++) {
 	  k1 = rvtmpl[0][k];
-	  idbtet[bt++] = MV_ID(List_Entry(verts,k))-1;
+	  idbtet[bt++] = vtxidx[MV_ID(List_Entry(verts,k1))];
 	}
 	List_Delete(verts);
 	ntets++;
@@ -252,147 +275,49 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
 	break;
 
-      case 5:
-	rfaces = MR_Faces(reg);
-	rface0 = List_Entry(rfaces,0);
-	rfd0 = MR_FaceDir_i(reg,0);
+      case PYRAMID:
+	if (!idbpyr) {
+	  idbpyr = (int *)malloc(8*nreg*sizeof(int));
+	  datpyr = (float *)malloc(nreg*sizeof(float));
+	}
+	verts = MR_Vertices(reg);
+        for (k = 0; k < 8; k++) {
+	  k1 = rvtmpl[1][k];
+	  idbpyr[bpy++] = vtxidx[MV_ID(List_Entry(verts,k1))];
+	}
+	List_Delete(verts);
+	npyrs++;
 
-	switch (MF_Num_Edges(rface0)) {
+	datpyr[npyrs-1] = MR_GEntID(reg);
 
-	case 3: /****** TRIANGULAR PRISM *******/
-	  if (!idbprm) {
-	    idbprm = (int *)malloc(6*nreg*sizeof(int));
-	    datprm = (float *)malloc(nreg*sizeof(float));
-	  }
+	break;
 
-	  verts =  MF_Vertices(rface0,!rfd0,0);
-	  for (k = 0; k < 3; k++) 
-	    lvert[k] = List_Entry(verts,k);
-	  List_Delete(verts);
-
-	  elist = MF_Edges(rface0,!rfd0,lvert[0]);
-	  ecmn = List_Entry(elist,0);
-	  List_Delete(elist);
-	  fed0 = MF_EdgeDir(rface0,ecmn);
-
-	  rface1 = NULL;
-	  for (k = 1; k < 6; k++) {
-	    rface = List_Entry(rfaces,k);
-	    if (rface != rface0 && MF_UsesEntity(rface,ecmn,1)) {
-	      rface1 = rface;
-	      break;
-	    }
-	  }
-	  fed1 = MF_EdgeDir(rface1,ecmn);
-
-	  fedges = MF_Edges(rface1,1,0);
-	  evert0 = evert1 = NULL;
-	  for (k = 0; k < 4; k++) {
-	    edge = List_Entry(fedges,k);
-	    if (edge == ecmn)
-	      continue;
-	    evert0 = ME_Vertex(edge,0); evert1 = ME_Vertex(edge,1);
-	    if (evert0 != lvert[0] && evert1 != lvert[0] &&
-		evert0 != lvert[1] && evert1 != lvert[1]) {
-	      ecmn = edge;
-	      break;
-	    }
-	  }
-	  List_Delete(fedges);
-	  fed2 = MF_EdgeDir(rface1,ecmn);
-
-	  flip = 0;
-	  if (fed0^(!rfd0)) /* lvert0 and lvert1 are opp to evert00,evert01 */
-	    flip = !flip;
-	  if (fed1 == fed2) /* edges pointing in different dirs w.r.t face 1 */
-	    flip = !flip;
-	  lvert[3] = flip==0 ? evert0 : evert1;
-	  lvert[4] = flip==0 ? evert1 : evert0;
-
-	  rface2 = 0;
-	  for (k = 1; k < 5; k++) {
-	    rface = List_Entry(rfaces,k);
-	    if (rface != rface0 && rface != rface1 && 
-		MF_UsesEntity(rface,ecmn,1)){
-	      rface2 = rface;
-	      break;
-	    }
-	  }
+      case PRISM:
+	if (!idbprm) {
+	  idbprm = (int *)malloc(8*nreg*sizeof(int));
+	  datprm = (float *)malloc(nreg*sizeof(float));
+	}
+	verts = MR_Vertices(reg);
+        for (k = 0; k < 8; k++) {
+	  k1 = rvtmpl[2][k];
+	  idbprm[bpr++] = vtxidx[MV_ID(List_Entry(verts,k1))];
+	}
+	List_Delete(verts);
+	nprisms++;
 
-	  /* Vertex opposite to edge, ecmn, in face, rface2 */
-	  verts = MF_Vertices(rface2,1,0);
-	  for (k = 0; k < 3; k++) {
-	    vertex = List_Entry(verts,k);
-	    if (!ME_UsesEntity(ecmn,vertex,0)) {
-	      lvert[5] = vertex;
-	    }
-	  }
-	  List_Delete(verts);
-	    
-	  idbprm[bpr]   = MV_ID(lvert[0])-1; 
-	  idbprm[bpr+1] = MV_ID(lvert[1])-1;
-	  idbprm[bpr+2] = MV_ID(lvert[2])-1; 
-	  idbprm[bpr+3] = MV_ID(lvert[2])-1;
-	  idbprm[bpr+4] = MV_ID(lvert[3])-1; 
-	  idbprm[bpr+5] = MV_ID(lvert[4])-1;
-	  idbprm[bpr+6] = MV_ID(lvert[5])-1; 
-	  idbprm[bpr+7] = MV_ID(lvert[5])-1;
-	  bpr += 8;
-	  nprisms++;
-
-	  datprm[nprisms-1] = MR_GEntID(reg);
-	  break;
-
-	case 4: /***** PYRAMID *****/
-	  if (!idbpyr) {
-	    idbpyr = (int *)malloc(5*nreg*sizeof(int));
-	    datpyr = (float *)malloc(nreg*sizeof(float));
-	  }
+	datprm[nprisms-1] = MR_GEntID(reg);
 
-	  verts =  MF_Vertices(rface0,!MR_FaceDir_i(reg,0),0);
-	  for (k = 0; k < 4; k++)
-	    lvert[k] = List_Entry(verts,k);
-	  List_Delete(verts);
-	  rface1 = List_Entry(rfaces,1); /* has to be connected to rface0 */
-	  fedges = MF_Edges(rface1,1,0);
-	  evert0 = evert1 = NULL;
-	  for (k = 0; k < 3; k++) {
-	    edge = List_Entry(fedges,k);
-	    if (!MF_UsesEntity(rface0,edge,1)) {
-	      evert0 = ME_Vertex(edge,0);
-	      if (evert0 == lvert[0] || evert0 == lvert[1] || 
-		  evert0 == lvert[2] || evert0 == lvert[3])
-		lvert[4] = ME_Vertex(edge,1);
-	      else
-		lvert[4] = evert0;
-	      break;
-	    }
-	  }
-	  List_Delete(fedges);
-	  idbpyr[bpy]   = MV_ID(lvert[0])-1; 
-	  idbpyr[bpy+1] = MV_ID(lvert[1])-1;
-	  idbpyr[bpy+2] = MV_ID(lvert[3])-1; 
-	  idbpyr[bpy+3] = MV_ID(lvert[2])-1;
-	  idbpyr[bpy+4] = idbpyr[bpy+5] = idbpyr[bpy+6] = idbpyr[bpy+7] = 
-	    MV_ID(lvert[4])-1;
-	  bpy += 8;
-	  npyrs++;
-
-	  datpyr[npyrs-1] = MR_GEntID(reg);
-
-	  break;
-	}
 	break;
-      case 6: /******* HEXAHEDRON *********/
+
+      case HEX:
 	if (!idbhex) {
 	  idbhex = (int *)malloc(8*nreg*sizeof(int));
 	  dathex = (float *)malloc(nreg*sizeof(float));
 	}
-
 	verts = MR_Vertices(reg);
         for (k = 0; k < 8; k++) {
 	  k1 = rvtmpl[3][k];
-	  idbhex[bh++] = MV_ID(List_Entry(verts,k1))-1;
+	  idbhex[bh++] = vtxidx[MV_ID(List_Entry(verts,k1))];
 	}
 	List_Delete(verts);
 	nhexes++;
@@ -400,6 +325,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	dathex[nhexes-1] = MR_GEntID(reg);
 
 	break;
+
       default: /* General - have to do it some other way */
 	fprintf(stderr,"Not handled\n");
       }
@@ -428,16 +354,22 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   }
   fclose(fdat);
     
-  free(idbtet);
+  free(idbtet); free(dattet);
+  free(idbpyr); free(datpyr);
+  free(idbprm); free(datprm);
+  free(idbhex); free(dathex);
+  free(datgenf); free(edgarr); free(loopstartarr); free(facearr);
+  free(polcenidx); free(polcen2); free(vtxidx);
 
   /* Now write into the .dx file */
-  fout = fopen(fname,"w");
+  if (!(fout = fopen(fname,"w"))) {
+    sprintf(mesg,"Couldn't open output file %s\n",fname);
+    MSTK_Report("MESH_ExportToDXBin",mesg,MSTK_ERROR);
+    return 0;
+  }
   
-#ifdef i686_linux
-  strcpy(xsb,"lsb");
-#else 
-  strcpy(xsb,"msb");
-#endif
+  /* The data are written in the byte order of this machine */
+  strcpy(xsb, *((char *) &one) ? "lsb" : "msb");
 
   objnum = 1;
   fprintf(fout,"object %d class array type float rank 1 shape 3 items %d %3s binary\n",objnum++,np,xsb);
@@ -630,5 +562,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
   fprintf(fout,"end\n");
   fclose(fout);
+
+  return 1;
 }
 
-- 
2.43.0


From bead7fe3870391377f7b575aff41c1dda6a27af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 058/126] fix: X3D exporter changed the file name, wrote wrong
 material names, fields and set IDs, crashed without communicator

---
 src/io/MESH_ExportToFLAGX3D.c | 68 ++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 0043f02..dfd2618 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -61,8 +61,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
 
   int                   pid = 0, numprocs = 1;
 #ifdef MSTK_HAVE_MPI
-  MPI_Comm_size(comm,&numprocs);
-  MPI_Comm_rank(comm,&pid);
+  if (comm != 0 && comm != MPI_COMM_NULL) {
+    MPI_Comm_size(comm,&numprocs);
+    MPI_Comm_rank(comm,&pid);
+  }
   pid += 1;  /* FLAG X3D counts processor IDs from 1 */
 #endif
 
@@ -77,7 +79,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     exit(2);
   }
   
-  char *basefilename = strtok(filename, ".");
+  char basefilename[256];
+  strcpy(basefilename,filename);
+  char *slash = strrchr(basefilename,'/');  /* directories may have dots */
+  char *dot = strchr(slash ? slash : basefilename,'.');
+  if (dot) *dot = '\0';
   
   nv = MESH_Num_Vertices(mesh);
   ne = MESH_Num_Edges(mesh);
@@ -196,6 +202,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
    * list, we may end up with maxngent*numprocs entries if every rank
    * has a unique set of materials */
 
+  if (numprocs > 1) {
   int maxngent;
   MPI_Allreduce(&ngent, &maxngent, 1, MPI_INT, MPI_MAX, comm);
 
@@ -229,6 +236,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       ngent++;
     }
   }
+  free(allgentities);
+  }
   qsort(gentities, ngent, sizeof(int), compareINT);
 #endif
   
@@ -376,8 +385,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
      the opposite processors */
   
 #ifdef MSTK_HAVE_MPI
-  MESH_XchngEdgeFaceAttrib(mesh,oppatt,comm);
-  MESH_XchngEdgeFaceAttrib(mesh,opppidatt,comm);
+  if (numprocs > 1) {
+    MESH_XchngEdgeFaceAttrib(mesh,oppatt,comm);
+    MESH_XchngEdgeFaceAttrib(mesh,opppidatt,comm);
+  }
 #endif
   
   /* Make a list of vertices on partition boundaries and determine
@@ -404,7 +415,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   /* Transmit master vertex IDs to slave IDs */
 
 #ifdef MSTK_HAVE_MPI
-  MESH_Update1Attribute(mesh,vmasteratt,comm);
+  if (numprocs > 1)
+    MESH_Update1Attribute(mesh,vmasteratt,comm);
 #endif
   
   
@@ -516,12 +528,14 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       }
       
       if (nr) {
-        if ((attentdim == MREGION) || (attentdim == MALLTYPE)) {
+        if ((atttype == INT || atttype == DOUBLE) &&
+            ((attentdim == MREGION) || (attentdim == MALLTYPE))) {
           cellatts[ncellatt++] = attrib;
         }
       }
       else if (nf) {
-        if ((attentdim == MFACE) || (attentdim == MALLTYPE)) {
+        if ((atttype == INT || atttype == DOUBLE) &&
+            ((attentdim == MFACE) || (attentdim == MALLTYPE))) {
           cellatts[ncellatt++] = attrib;
         }
       }
@@ -553,7 +567,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
      * why the names must be integers even though the data header
      * block identifies them as character strings" */
 
-    sprintf(matname,"%-d",i+1);
+    sprintf(matname,"%-d",gentities[i] ? gentities[i] : 1);
     fprintf(fp,"   %10d   %s\n",i+1,matname);
   }
   fprintf(fp,"end_matnames\n");
@@ -1164,9 +1178,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
-
     fprintf(fp,"%s\n",attname);
     
     if (nr) {
@@ -1219,9 +1230,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int ncomps = MAttrib_Get_NumComps(attrib);
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
-
     fprintf(fp,"%s\n",attname);
     
     idx = 0;
@@ -1232,7 +1240,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       MEnt_Get_AttVal(vertex,attrib,&ival,&rval,(void **) &vval);
       
       for (k = 0; k < ncomps; k++)
-        fprintf(fp,"% 20.12E", vval[k]);
+        fprintf(fp,"% 20.12E", vval ? vval[k] : 0.0);
       for (k = ncomps; k < 3; k++)
         fprintf(fp,"% 20.12E", 0.0);  /* expects 3 components for nodal vecs */
       fprintf(fp,"\n");
@@ -1270,8 +1278,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     if (nr) {
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
-        if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g])
-          fprintf(fp, "% 10d\n", MR_ID(region));
+        if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g]) {
+          MEnt_Get_AttVal(region,ridatt_tmp,&rid,&rval,&pval);
+          fprintf(fp, "% 10d\n", rid);
+        }
       }
       fprintf(fp,"\n");
 
@@ -1284,8 +1294,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     } else {
       idx = 0;
       while ((face = MESH_Next_Face(mesh, &idx))) {
-        if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g])
-          fprintf(fp, "% 10d\n", MF_ID(face));
+        if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g]) {
+          MEnt_Get_AttVal(face,fidatt_tmp,&fid,&rval,&pval);
+          fprintf(fp, "% 10d\n", fid);
+        }
       }
       fprintf(fp,"\n");
       
@@ -1328,8 +1340,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int idx2 = 0;
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
-      if (MEnt_PType(ment) != PGHOST)
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+      if (MEnt_PType(ment) != PGHOST) {
+        int eltid;
+        MEnt_Get_AttVal(ment,nr ? ridatt_tmp : fidatt_tmp,&eltid,&rval,&pval);
+        fprintf(fp, "% 10d\n", eltid);
+      }
     fprintf(fp,"\n");
     idx2 = 0;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
@@ -1365,8 +1380,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int idx2 = 0;
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
-      if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment))
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+      if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment)) {
+        MEnt_Get_AttVal(ment,vidatt_tmp,&vid,&rval,&pval);
+        fprintf(fp, "% 10d\n", vid);
+      }
 
     fclose(fp);
   }
@@ -1394,6 +1411,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   while ((region = MESH_Next_Region(mesh,&idx)))
     MEnt_Rem_AttVal(region,ridatt_tmp);
 
+  List_Delete(prtn_bndry_verts);
+
+  MAttrib_Delete(vmasteratt);
   MAttrib_Delete(vidatt_tmp);
   MAttrib_Delete(eidatt_tmp);
   MAttrib_Delete(fidatt_tmp);
-- 
2.43.0


From 69c8b6b6563f4244cc1b46735d288972bd28dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 059/126] fix: X3D reader crashed without communicator, lost
 region classification and set files in other directories

---
 src/io/MESH_ImportFromFLAGX3D.c | 81 ++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/src/io/MESH_ImportFromFLAGX3D.c b/src/io/MESH_ImportFromFLAGX3D.c
index e1a3300..aa10145 100644
--- a/src/io/MESH_ImportFromFLAGX3D.c
+++ b/src/io/MESH_ImportFromFLAGX3D.c
@@ -9,7 +9,6 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
-#include <libgen.h>
 #include <dirent.h>
 
 
@@ -47,8 +46,20 @@ extern "C" {
     string[lnew] = '\0';
   }
 
-  int isRegFile(const struct dirent *item) {
-    if (!item) return 0;
+  /* Directory part of a path ("." if there is none) and its last component */
+
+  static void splitFileName(char *path, char *dirname, char **base) {
+    char *slash = strrchr(path,'/');
+    if (!slash) {
+      strcpy(dirname,".");
+      *base = path;
+    }
+    else {
+      int len = slash > path ? slash-path : 1;
+      strncpy(dirname,path,len);
+      dirname[len] = '\0';
+      *base = slash+1;
+    }
   }
 
   int getRegFileNames(const char *x3dfilename_in, int numprocs, int rank, char (**regFileNames)[256], char (**regNames)[256]) {
@@ -56,10 +67,8 @@ extern "C" {
     char x3dfilename[256];
     strcpy(x3dfilename, x3dfilename_in);  /* hack to remove constness */
 
-    char dirname[256];
-    strcpy(dirname, basename(x3dfilename));
-    if (strcmp(dirname,x3dfilename) == 0)
-      strcpy(dirname, ".");
+    char dirname[256], *x3dbasename;
+    splitFileName(x3dfilename, dirname, &x3dbasename);
     DIR *dir_p = opendir(dirname);
     int ncandidates = 0;
     if (!dir_p)
@@ -73,7 +82,7 @@ extern "C" {
     *regFileNames = malloc(ncandidates*sizeof(char[256]));
     *regNames = malloc(ncandidates*sizeof(char[256]));
 
-    char *basefilename = strtok(x3dfilename, ".");
+    char *basefilename = strtok(x3dbasename, ".");
 
     dir_p = opendir(dirname);
     int nfiles = 0;
@@ -93,7 +102,7 @@ extern "C" {
 
       char *matname = (char *) strtok(NULL, ".");
       char *regstr  = (char *) strtok(NULL, ".");
-      if (strcmp(regstr, "Reg") != 0)  /* Sanity check */
+      if (!regstr || strcmp(regstr, "Reg") != 0)  /* Sanity check */
         continue;
 
       if (numprocs > 1) {
@@ -113,13 +122,13 @@ extern "C" {
 
       /* can't use fname because we used strtok on it and it only
        * contains a substring */
-      strcpy((*regFileNames)[nfiles], diritem->d_name);
+      if (strcmp(dirname, ".") == 0)
+        strcpy((*regFileNames)[nfiles], diritem->d_name);
+      else
+        snprintf((*regFileNames)[nfiles], 256, "%s/%s", dirname, diritem->d_name);
       strcpy((*regNames)[nfiles], matname);
       nfiles++;
     }
-    *regFileNames = realloc(*regFileNames, nfiles*sizeof(char[256]));
-    *regNames = realloc(*regNames, nfiles*sizeof(char[256]));
-
     closedir(dir_p);
 
     return nfiles;
@@ -130,10 +139,8 @@ extern "C" {
     char x3dfilename[256];
     strcpy(x3dfilename, x3dfilename_in);  /* hack to remove constness */
 
-    char dirname[256];
-    strcpy(dirname, basename(x3dfilename));
-    if (strcmp(dirname,x3dfilename) == 0)
-      strcpy(dirname, ".");
+    char dirname[256], *x3dbasename;
+    splitFileName(x3dfilename, dirname, &x3dbasename);
     DIR *dir_p = opendir(dirname);
     int ncandidates = 0;
     if (!dir_p)
@@ -147,7 +154,7 @@ extern "C" {
     *nodesetFileNames = malloc(ncandidates*sizeof(char[256]));
     *nodesetNames = malloc(ncandidates*sizeof(char[256]));
 
-    char *basefilename = strtok(x3dfilename, ".");
+    char *basefilename = strtok(x3dbasename, ".");
 
     dir_p = opendir(dirname);
     int nfiles = 0;
@@ -167,7 +174,7 @@ extern "C" {
 
       char *matname = (char *) strtok(NULL, ".");
       char *bdystr  = (char *) strtok(NULL, ".");
-      if (strcmp(bdystr, "Bdy") != 0)  /* Sanity check */
+      if (!bdystr || strcmp(bdystr, "Bdy") != 0)  /* Sanity check */
         continue;
 
       if (numprocs > 1) {
@@ -187,13 +194,13 @@ extern "C" {
 
       /* can't use fname because we used strtok on it and it only
        * contains a substring */
-      strcpy((*nodesetFileNames)[nfiles], diritem->d_name);
+      if (strcmp(dirname, ".") == 0)
+        strcpy((*nodesetFileNames)[nfiles], diritem->d_name);
+      else
+        snprintf((*nodesetFileNames)[nfiles], 256, "%s/%s", dirname, diritem->d_name);
       strcpy((*nodesetNames)[nfiles], matname);
       nfiles++;
     }
-    *nodesetFileNames = realloc(*nodesetFileNames, nfiles*sizeof(char[256]));
-    *nodesetNames = realloc(*nodesetNames, nfiles*sizeof(char[256]));
-
     closedir(dir_p);
 
     return nfiles;
@@ -225,8 +232,10 @@ extern "C" {
   rank = 0;
 
 #ifdef MSTK_HAVE_MPI
-  MPI_Comm_size(comm,&numprocs);
-  MPI_Comm_rank(comm,&rank);
+  if (comm != 0 && comm != MPI_COMM_NULL) {
+    MPI_Comm_size(comm,&numprocs);
+    MPI_Comm_rank(comm,&rank);
+  }
 #endif
 
   char *ext = strstr(filename,".x3d"); /* Search for the x3d extension */
@@ -792,6 +801,8 @@ extern "C" {
 
   }
 
+  fclose(fp);
+
   /* Some codes don't respect (and write out) appropriate matid
    * data. Instead they rely on .Reg (Material Region) files to
    * specify membership of cells in materials. This allows more than
@@ -805,7 +816,7 @@ extern "C" {
    * membership of cells in materials, we will overwrite the
    * classification from the material ID fields */
 
-  char (*regfilenames)[256], (*regnames)[256];
+  char (*regfilenames)[256]=NULL, (*regnames)[256]=NULL;
   int nfiles = getRegFileNames(filename, numprocs, rank, &regfilenames, &regnames);
   sprintf(temp_str,"Found %d Reg files on rank %d. \n NOTE:Region file reading ignores multiple materials per cells and volume fraction data", nfiles, rank);
   MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_MESG);
@@ -850,7 +861,7 @@ extern "C" {
             sprintf(temp_str, "Could not find element ID %d from Reg file %s in mesh with %d elements", elemid, regfname, MESH_Num_Regions(mesh)); 
             MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_FATAL);
           }
-          MR_Set_GEntDim(mr, 2);
+          MR_Set_GEntDim(mr, 3);
           MR_Set_GEntID(mr, matid);
 	  MSet_Add(elset, mr);
           nelements++;
@@ -867,7 +878,7 @@ extern "C" {
 
   /* Read node sets from .Bdy files */
   
-  char (*nodeset_filenames)[256], (*nodeset_names)[256];
+  char (*nodeset_filenames)[256]=NULL, (*nodeset_names)[256]=NULL;
   nfiles = getBdyFileNames(filename, numprocs, rank, &nodeset_filenames, &nodeset_names);
   sprintf(temp_str,"Found %d Bdy files on rank %d.", nfiles, rank);
   MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_MESG);
@@ -904,10 +915,16 @@ extern "C" {
     }
   }
 
-  if (ndim == 2)
-    free(medir);
-  else if (ndim == 3)
-    free(mfdir);
+  free(regfilenames);
+  free(regnames);
+  free(nodeset_filenames);
+  free(nodeset_names);
+
+  free(mv);
+  free(me);
+  free(mf);
+  free(medir);
+  free(mfdir);
 
   free(matnames);
   free(mateos);
-- 
2.43.0


From de1bd7e90ecd47e153d9ef887b30d2821590b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 060/126] fix: copy of 3D R1/R2 meshes read faces that do not
 exist; copied vectors leaked

---
 src/base/MESH_Copy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 21aa2a3..7b02914 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -173,7 +173,7 @@ extern "C" {
     }
 
     
-    if (MESH_RepType(srcmesh) != R1 || MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
+    if (MESH_RepType(srcmesh) != R1 && MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
 
       idx = 0;
       while ((mr = MESH_Next_Region(srcmesh,&idx))) {
@@ -281,6 +281,7 @@ extern "C" {
               double *vec = (double *) malloc(numcomps*sizeof(double));
               memcpy(vec,pval,numcomps*sizeof(double));
               MEnt_Set_AttVal(mv_copy,att_copy,ival,rval,vec);
+              free(vec);
             }
             else {
 #ifdef DEBUG
@@ -305,6 +306,7 @@ extern "C" {
               double *vec = (double *) malloc(numcomps*sizeof(double));
               memcpy(vec,pval,numcomps*sizeof(double));
               MEnt_Set_AttVal(me_copy,att_copy,ival,rval,vec);
+              free(vec);
             }
             else {
 #ifdef DEBUG
@@ -329,6 +331,7 @@ extern "C" {
               double *vec = (double *) malloc(numcomps*sizeof(double));
               memcpy(vec,pval,numcomps*sizeof(double));
               MEnt_Set_AttVal(mf_copy,att_copy,ival,rval,vec);
+              free(vec);
             }
             else {
 #ifdef DEBUG
@@ -353,6 +356,7 @@ extern "C" {
               double *vec = (double *) malloc(numcomps*sizeof(double));
               memcpy(vec,pval,numcomps*sizeof(double));
               MEnt_Set_AttVal(mr_copy,att_copy,ival,rval,vec);
+              free(vec);
             }
             else {
 #ifdef DEBUG
-- 
2.43.0


From 92f1ebb67c5544878cab84acd0b10b2504014742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 061/126] fix: element graph reallocated the wrong pointer and
 leaked lists

---
 src/hilev/MESH_GetElementGraph.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index 2506b50..fb38b63 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -41,7 +41,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MFace_ptr rf;
       while ((rf = List_Next_Entry(rfaces, &idx2))) {
 	List_ptr fregs = MF_Regions(rf);
-	if (List_Num_Entries(fregs) == 1) continue;
+	if (List_Num_Entries(fregs) == 1) {
+	  List_Delete(fregs);
+	  continue;
+	}
 
 	MRegion_ptr oppr;
 	if (List_Entry(fregs,0) == mr)
@@ -50,7 +53,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,0);
 	if (pos == nalloc) {
 	  nalloc *= 2;
-	  *adjelems = (int *) realloc(adjelems, nalloc*sizeof(int));
+	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	}
 	(*adjelems)[pos] = MR_ID(oppr)-1;
 	pos++;
@@ -82,7 +85,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MEdge_ptr fe;
       while ((fe = List_Next_Entry(fedges, &idx2))) {
 	List_ptr efaces = ME_Faces(fe);
-	if (List_Num_Entries(efaces) == 1) continue;
+	if (List_Num_Entries(efaces) == 1) {
+	  List_Delete(efaces);
+	  continue;
+	}
 
 	/* have to account for non-manifold configurations */
 	int idx3 = 0;
-- 
2.43.0


From 1b6d9390a63c14d9546b645c8039bbe48a4a6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 062/126] fix: dihedral angle used the vertex count of the
 wrong face

---
 src/hilev/MFs_DihedralAngle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MFs_DihedralAngle.c b/src/hilev/MFs_DihedralAngle.c
index c4c0d13..1eccf79 100644
--- a/src/hilev/MFs_DihedralAngle.c
+++ b/src/hilev/MFs_DihedralAngle.c
@@ -119,7 +119,7 @@ extern "C" {
 
     MSTK_VDiff3(fxyz[1],fxyz[0],vec1);
 
-    if (nfv1 == 3) { /* Triangles - always convex */
+    if (nfv2 == 3) { /* Triangles - always convex */
       MSTK_VDiff3(fxyz[2],fxyz[0],vec2);
     }
     else { /* Others - can be non-convex */
-- 
2.43.0


From ca510e56a06b165b61a7f3ae04d8fb1f915b39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 063/126] fix: refused tet/tri refinement left attributes and
 half a mesh behind

---
 src/hilev/MESH_Tet2Hex.c  | 22 ++++++++++++++++++----
 src/hilev/MESH_Tri2Quad.c | 16 ++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/hilev/MESH_Tet2Hex.c b/src/hilev/MESH_Tet2Hex.c
index 0662032..20f2ee3 100644
--- a/src/hilev/MESH_Tet2Hex.c
+++ b/src/hilev/MESH_Tet2Hex.c
@@ -52,6 +52,24 @@ extern "C" {
     nV = MESH_Num_Vertices(tetmesh);
     nR = MESH_Num_Regions(tetmesh);
     
+    /* check that all regions are tetrahedra before changing anything */
+
+    *hexmesh = NULL;
+
+    n = 0;
+    idf = 0;
+    while( (n == 0) && (ptr_f = MESH_Next_Face(tetmesh, &idf)) )
+      if( MF_Num_Vertices(ptr_f) != 3 ) n = 1;
+
+    idr = 0;
+    while( (n == 0) && (ptr_r = MESH_Next_Region(tetmesh, &idr)) )
+      if( MR_Num_Vertices(ptr_r) != 4 ) n = 1;
+
+    if( n ) {
+      MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+      return 0;
+    }
+
     *hexmesh = MESH_New(MESH_RepType(tetmesh));
     
     
@@ -99,10 +117,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(tetmesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
diff --git a/src/hilev/MESH_Tri2Quad.c b/src/hilev/MESH_Tri2Quad.c
index 8f0407c..3448942 100644
--- a/src/hilev/MESH_Tri2Quad.c
+++ b/src/hilev/MESH_Tri2Quad.c
@@ -50,6 +50,18 @@ extern "C" {
     nV = MESH_Num_Vertices(trimesh);
     nF = MESH_Num_Faces(trimesh);
     
+    /* check that all faces are triangles before changing anything */
+
+    *quadmesh = NULL;
+
+    idf = 0;
+    while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
+      if( MF_Num_Vertices(ptr_f) != 3 ) {
+	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
     *quadmesh = MESH_New(MESH_RepType(trimesh));
     
     
@@ -97,10 +109,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
-- 
2.43.0


From 1044f6fb05e402fe27b4e51b73ebf618ae54ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 064/126] fix: classification of isolated edges and vertices
 and of edges with repeated faces

---
 src/hilev/MESH_BuildEdgeClassfn.c   | 23 +++++++++++++++++++----
 src/hilev/MESH_BuildVertexClassfn.c | 15 +++++++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 93fb511..8007cc0 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -87,7 +87,7 @@ extern "C" {
 	geids[ngedges] = geid;
 
 	efaces = ME_Faces(edge);
-	nef = List_Num_Entries(efaces);
+	nef = efaces ? List_Num_Entries(efaces) : 0;
 
 	gefaceids[ngedges] = (int *) malloc((1+nef)*sizeof(int));
         ngef = 0;
@@ -102,7 +102,7 @@ extern "C" {
 
 	ngedges++;
 
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
 
     }
@@ -158,8 +158,10 @@ extern "C" {
 	geids[ngedges] = max_gedge_id;
 	gefaceids[ngedges] = malloc(1*sizeof(int *));
 	gefaceids[ngedges][0] = 0;
+	ngedges++;
       }
 
+      if (efaces) List_Delete(efaces);
       continue; /* nothing else to do */
     }
 
@@ -203,8 +205,8 @@ extern "C" {
 	    if (gefaceids[i][0] != 2)
 	      continue;
 
-	    if ((loc_gfids[0] == gefaceids[i][0]) && 
-		(gefaceids[i][0] == gefaceids[i][1])) {
+	    if ((loc_gfids[0] == gefaceids[i][1]) && 
+		(gefaceids[i][1] == gefaceids[i][2])) {
 	      fnd = 1;
 	      break;
 	    }
@@ -312,6 +314,19 @@ extern "C" {
 
 	  /* Did not find loc_gfid[j] in the list gefaceids[i] */
 
+	  if (!fnd2)
+	    break;
+
+	  /* and the other way, since a model face may occur repeatedly */
+
+	  fnd2 = 0;
+	  for (k = 0; k < ngef; k++) {
+	    if (gefaceids[i][1+j] == loc_gfids[k]) {
+	      fnd2 = 1;
+	      break;
+	    }
+	  }
+
 	  if (!fnd2)
 	    break;
 	}
diff --git a/src/hilev/MESH_BuildVertexClassfn.c b/src/hilev/MESH_BuildVertexClassfn.c
index 4356acc..c79727d 100644
--- a/src/hilev/MESH_BuildVertexClassfn.c
+++ b/src/hilev/MESH_BuildVertexClassfn.c
@@ -124,7 +124,9 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
       gvids[ngverts] = max_gvert_id;
       gvedgeids[ngverts] = malloc(1*sizeof(int *));
       gvedgeids[ngverts][0] = 0;
+      ngverts++;
 
+      if (vedges) List_Delete(vedges);
       continue; /* nothing else to do */
     }
 
@@ -297,6 +299,19 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 
 	  /* Did not find loc_gfid[j] in the list gvedgeids[i] */
 
+	  if (!fnd2)
+	    break;
+
+	  /* and the other way, since a model edge may occur repeatedly */
+
+	  fnd2 = 0;
+	  for (k = 0; k < ngve; k++) {
+	    if (gvedgeids[i][1+j] == loc_geids[k]) {
+	      fnd2 = 1;
+	      break;
+	    }
+	  }
+
 	  if (!fnd2)
 	    break;
 	}
-- 
2.43.0


From 83e19310d713788a6f4cd993d23e11544d0f8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 065/126] fix: building from a general description leaked its
 vertex arrays

---
 src/hilev/MESH_InitFromGenDesc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hilev/MESH_InitFromGenDesc.c b/src/hilev/MESH_InitFromGenDesc.c
index e0d54b0..dab44e3 100644
--- a/src/hilev/MESH_InitFromGenDesc.c
+++ b/src/hilev/MESH_InitFromGenDesc.c
@@ -44,6 +44,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
     
     MSTK_Report("MESH_InitFromGenDesc",
 		"Cannot specify 'faces' and 'regions' for now",MSTK_WARN);
+    free(verts);
     return 0;
   }
 
@@ -52,6 +53,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
     MSTK_Report("MESH_InitFromGenDesc",
 		"Mesh has only vertices? No faces or regions?",MSTK_WARN);
 
+    free(verts);
     return 0;
   }
 
@@ -112,6 +114,8 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
 	MSTK_Report("MESH_InitFromGenDesc",
 		    "No standard mesh shape for regions with more than 8 vertices",MSTK_WARN);
 	
+	free(rverts);
+	free(verts);
 	return 0;
 	
       }
@@ -142,6 +146,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
   }
 
 
+  if (rverts) free(rverts);
   if (verts) free(verts);
 
   return 1;
-- 
2.43.0


From 968fcda8ae8f109bec658b8aafdc457f2b726962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 066/126] fix: graph renumbering of disconnected graphs and of
 levels without numbered neighbors

---
 src/util/Graph_renumber.c | 137 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 134 insertions(+), 3 deletions(-)

diff --git a/src/util/Graph_renumber.c b/src/util/Graph_renumber.c
index 0abb100..b4ecc54 100644
--- a/src/util/Graph_renumber.c
+++ b/src/util/Graph_renumber.c
@@ -25,6 +25,8 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[],
                                   int level[], int *depth, int *maxwidth);
 void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[], 
                           int n_beg, int n_end, int level[], int nodemap[]);
+int Graph_Renumber_Components(int nnodes, int nstart, int *nadj, int *adj, 
+                              int *nodemap, int *depth, int *maxwidth);
 
 
 /* 
@@ -49,6 +51,17 @@ int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj,
   int *offset;
   int *level;
 
+  if (nnodes <= 0) {
+    *depth = *maxwidth = 0;
+    return 1;
+  }
+
+  /* The algorithm works only on connected graphs */
+
+  if (Graph_Renumber_Components(nnodes, nstart, nadj, adj, nodemap, depth, 
+                                maxwidth))
+    return 1;
+
   /* Compute the min and max degree of the mesh */
 
   mindeg = 1e+9;
@@ -100,6 +113,105 @@ int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj,
 }
 
 
+/* 
+   Renumber the connected components of a graph one after the other,
+   starting with the one containing 'nstart'. Does nothing and returns
+   0 if the graph is connected.
+
+   See Graph_Renumber_GPS for a description of the arguments
+*/
+
+int Graph_Renumber_Components(int nnodes, int nstart, int *nadj, int *adj, 
+                              int *nodemap, int *depth, int *maxwidth) {
+  int i, j, k, beg, next, nord, nadjtot;
+  int *offset, *order, *locid, *locnadj, *locadj, *locmap;
+
+  offset = (int *) malloc(nnodes*sizeof(int));
+  order = (int *) malloc(nnodes*sizeof(int)); /* nodes by component */
+  locid = (int *) malloc(nnodes*sizeof(int)); /* node number in component */
+
+  nadjtot = 0;
+  for (i = 0; i < nnodes; i++) {
+    offset[i] = nadjtot;
+    nadjtot += nadj[i];
+    locid[i] = -1;
+  }
+
+  order[0] = nstart;
+  locid[nstart] = 0;
+  nord = 1;
+  for (i = 0; i < nord; i++)
+    for (j = 0; j < nadj[order[i]]; j++) {
+      int adjnode = adj[offset[order[i]]+j];
+      if (locid[adjnode] == -1) {
+        locid[adjnode] = nord;
+        order[nord++] = adjnode;
+      }
+    }
+
+  if (nord == nnodes) {
+    free(offset);
+    free(order);
+    free(locid);
+    return 0;
+  }
+
+  locnadj = (int *) malloc(nnodes*sizeof(int));
+  locadj = (int *) malloc((nadjtot+1)*sizeof(int));
+  locmap = (int *) malloc(nnodes*sizeof(int));
+
+  *depth = *maxwidth = 0;
+  beg = 0;
+  next = 0;
+  while (beg < nnodes) {
+    int curdepth, curmaxwidth, nentries = 0;
+
+    for (i = beg; i < nord; i++) {
+      int node = order[i];
+      locnadj[i-beg] = nadj[node];
+      for (k = 0; k < nadj[node]; k++)
+        locadj[nentries++] = locid[adj[offset[node]+k]];
+    }
+
+    Graph_Renumber_GPS(nord-beg, 0, locnadj, locadj, locmap, &curdepth, 
+                       &curmaxwidth);
+
+    for (i = beg; i < nord; i++)
+      nodemap[order[i]] = beg+locmap[i-beg];
+
+    *depth = curdepth > *depth ? curdepth : *depth;
+    *maxwidth = curmaxwidth > *maxwidth ? curmaxwidth : *maxwidth;
+
+    /* Collect the next component */
+
+    beg = nord;
+    while (next < nnodes && locid[next] != -1) next++;
+    if (next < nnodes) {
+      order[beg] = next;
+      locid[next] = 0;
+      nord = beg+1;
+      for (i = beg; i < nord; i++)
+        for (j = 0; j < nadj[order[i]]; j++) {
+          int adjnode = adj[offset[order[i]]+j];
+          if (locid[adjnode] == -1) {
+            locid[adjnode] = nord-beg;
+            order[nord++] = adjnode;
+          }
+        }
+    }
+  }
+
+  free(offset);
+  free(order);
+  free(locid);
+  free(locnadj);
+  free(locadj);
+  free(locmap);
+
+  return 1;
+}
+
+
 
 /* Given a graph and a starting node, build a level structure and
    return some information about it.
@@ -409,7 +521,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       
         cset[0] = unmarked_node;
         ncset = 1;
-        tag[i] = 1;
+        tag[unmarked_node] = 1;
       
         for (j = 0; j < ncset; j++) {
           int node = cset[j];
@@ -518,6 +630,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
   free(maxcset);
   free(levelpairs);
   free(zeros);
+  free(unmarked_nodes);
 }
 
 
@@ -597,11 +710,29 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
        the SAME level by increasing degree (valence) */
 
     i = 0;
-    while (i < ncurlevnodes) {
+    while (1) {
       int off, node;
 
+      if (i == ncurlevnodes) {
+
+        /* Some nodes of this level may have no numbered neighbors -
+           go on with the one having the lowest degree */
+
+        node = -1;
+        for (j = 0; j < nnodes; j++)
+          if (level[j] == lev && nodemap[j] == -1 && 
+              (node == -1 || nadj[j] < nadj[node]))
+            node = j;
+
+        if (node == -1) break;
+
+        nodemap[node] = nnew++;
+        tag[node] = 1;
+        curlevnodes[ncurlevnodes] = node;
+        ncurlevnodes++;
+      }
+
       node = curlevnodes[i];
-      if (nodemap[node] == -1) continue; /* unnumbered node */
 
       off = offset[node];
       
-- 
2.43.0


From 6130a8f8e130c925bc6e30e27a3c88f8d1c0ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 067/126] fix: renumbering left marks behind, missed face
 neighbors and crashed on isolated entities

---
 src/hilev/MESH_Renumber.c | 118 ++++++++++++++++++++++++++------------
 1 file changed, 81 insertions(+), 37 deletions(-)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 4dde840..5977ad3 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -80,7 +80,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
   else if (renum_type == 1) {
     double minx, miny, minz;
     int minid, maxid;
-    int *nadj, *newmap, *adj, *offset, nconn;
+    int *nadj, *newmap, *adj, *offset, nconn = 0;
     int nalloc, depth, maxwidth;
         
 #ifdef MSTK_USE_MARKERS
@@ -89,7 +89,11 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
     MAttrib_ptr mkatt = MAttrib_New(mesh, "mkatt", INT, MALLTYPE);
 #endif
 
-    if (mtype == MVERTEX || mtype == MALLTYPE) { 
+    /* The graphs refer to entities by ID - eliminate gaps */
+
+    MESH_Renumber(mesh, 0, mtype);
+
+    if ((mtype == MVERTEX || mtype == MALLTYPE) && MESH_Num_Vertices(mesh)) { 
       int nv = MESH_Num_Vertices(mesh);      
       
       /* Compute a graph of vertex connections across elements (faces
@@ -111,6 +115,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      if (!v0) v0 = MESH_Vertex(mesh,0);
+
       nadj = (int *) malloc(nv*sizeof(int));
       nalloc = nv*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -127,7 +133,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vfaces = MV_Faces(mv);
           idx2 = 0;
-          while ((vf = List_Next_Entry(vfaces,&idx2))) {
+          while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
             List_ptr fverts = MF_Vertices(vf,1,0);
             idx3 = 0;
             while ((adjv = List_Next_Entry(fverts,&idx3))) {
@@ -150,14 +156,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fverts);
           }
-          List_Delete(vfaces);
+          if (vfaces) List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
           
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -182,7 +192,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vregions = MV_Regions(mv);
           idx2 = 0;
-          while ((vr = List_Next_Entry(vregions,&idx2))) {
+          while (vregions && (vr = List_Next_Entry(vregions,&idx2))) {
             List_ptr rverts = MR_Vertices(vr);
             idx3 = 0;
             while ((adjv = List_Next_Entry(rverts,&idx3))) {
@@ -205,14 +215,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rverts);
           }
-          List_Delete(vregions);
+          if (vregions) List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -324,7 +338,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent nodes
        in ascending order of their valence) */
 
-    if (mtype == MEDGE || mtype == MALLTYPE) {
+    if ((mtype == MEDGE || mtype == MALLTYPE) && MESH_Num_Edges(mesh)) {
       int ne = MESH_Num_Edges(mesh);
       MEdge_ptr ve;
       List_ptr elist;
@@ -338,9 +352,9 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 	/* RCM algorithm already applied on the vertices. Use an edge
 	   connected to the starting vertex as the first edge */
 
-	List_ptr vedges = MV_Edges(v0);
-	e0 = List_Entry(vedges,0);
-	List_Delete(vedges);
+	List_ptr vedges = v0 ? MV_Edges(v0) : NULL;
+	e0 = vedges ? List_Entry(vedges,0) : NULL;
+	if (vedges) List_Delete(vedges);
       }
       else {
 	/* Find the edge whose mid point is a minimum point */
@@ -365,6 +379,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      if (!e0) e0 = MESH_Edge(mesh,0);
+
       nadj = (int *) malloc(ne*sizeof(int));
       nalloc = ne*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -381,7 +397,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           efaces = ME_Faces(me);
           idx2 = 0;
-          while ((ef = List_Next_Entry(efaces,&idx2))) {
+          while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
             List_ptr fedges = MF_Edges(ef,1,0);
             idx3 = 0;
             while ((adje = List_Next_Entry(fedges,&idx3))) {
@@ -404,14 +420,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fedges);
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjelist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -436,7 +456,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           eregions = ME_Regions(me);
           idx2 = 0;
-          while ((er = List_Next_Entry(eregions,&idx2))) {
+          while (eregions && (er = List_Next_Entry(eregions,&idx2))) {
             List_ptr redges = MR_Edges(er);
             idx3 = 0;
             while ((adje = List_Next_Entry(redges,&idx3))) {
@@ -459,14 +479,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(redges);
           }
-          List_Delete(eregions);
+          if (eregions) List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
           
           nadj[i] = List_Num_Entries(adjelist);
           
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -580,7 +604,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent graph nodes
        in ascending order of their valence) */
 
-    if (mtype == MFACE || mtype == MALLTYPE) {      
+    if ((mtype == MFACE || mtype == MALLTYPE) && MESH_Num_Faces(mesh)) {      
       int nf = MESH_Num_Faces(mesh);
 
       if (mtype == MALLTYPE) { 
@@ -588,9 +612,9 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
         /* RCM algorithm already applied on the vertices. Use an edge
            connected to the starting vertex as the first edge */
 
-        List_ptr vfaces = MV_Faces(v0);
-        f0 = List_Entry(vfaces,0);
-        List_Delete(vfaces);
+        List_ptr vfaces = v0 ? MV_Faces(v0) : NULL;
+        f0 = vfaces ? List_Entry(vfaces,0) : NULL;
+        if (vfaces) List_Delete(vfaces);
       }
       else {
         /* Find the face whose mid point is a minimum point */
@@ -621,6 +645,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      if (!f0) f0 = MESH_Face(mesh,0);
+
       nadj = (int *) malloc(nf*sizeof(int));
       nalloc = nf*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -648,7 +674,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -658,16 +684,20 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
                 }
               }
             }	    
-            List_Delete(vfaces);
+            if (vfaces) List_Delete(vfaces);
           }
           List_Delete(fverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -692,7 +722,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjflist = List_New(0);
           fregions = MF_Regions(mf);
           idx2 = 0;
-          while ((fr = List_Next_Entry(fregions,&idx2))) {
+          while (fregions && (fr = List_Next_Entry(fregions,&idx2))) {
             List_ptr rfaces = MR_Faces(fr);
             idx3 = 0;
             while ((adjf = List_Next_Entry(rfaces,&idx3))) {
@@ -703,7 +733,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -715,14 +745,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rfaces);
           }
-          List_Delete(fregions);
+          if (fregions) List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -862,9 +896,9 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
              a region connected to the starting vertex as the first
              region */
 
-          List_ptr vregions = MV_Regions(v0);
-          r0 = List_Entry(vregions,0);
-          List_Delete(vregions);
+          List_ptr vregions = v0 ? MV_Regions(v0) : NULL;
+          r0 = vregions ? List_Entry(vregions,0) : NULL;
+          if (vregions) List_Delete(vregions);
         }
         else {
           /* Find the region whose center point is a minimum point */
@@ -895,6 +929,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
         }
 
 
+        if (!r0) r0 = MESH_Region(mesh,0);
+
         nadj = (int *) malloc(nr*sizeof(int));
         nalloc = nr*5;
         adj = (int *) malloc(nalloc*sizeof(int));
@@ -921,24 +957,30 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjr, mkatt, &rmarked, &rval, &pval);
 #endif
-                List_Add(adjrlist,adjr);
+                if (!rmarked) {
+                  List_Add(adjrlist,adjr);
 #ifdef MSTK_USE_MARKERS
-                MEnt_Mark(adjr,mkid);
+                  MEnt_Mark(adjr,mkid);
 #else
-                MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
+                  MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
 #endif
+                }
               }
             }	    
-            List_Delete(vregions);
+            if (vregions) List_Delete(vregions);
           }
           List_Delete(rverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjrlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjr = List_Next_Entry(adjrlist,&idx2)))
+            MEnt_Set_AttVal(adjr, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjrlist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -1048,6 +1090,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
 #ifdef MSTK_USE_MARKERS
     MSTK_FreeMarker(mkid);
+#else
+    MAttrib_Delete(mkatt);
 #endif
   }
   
-- 
2.43.0


From c2b7aee56af53a893313da72e8b609ed416c8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 068/126] fix: MESH_Surf_AddGhost_FN: temporary vertex
 attributes were created on the wrong mesh and left dangling values

---
 src/par/MESH_AddGhost.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/par/MESH_AddGhost.c b/src/par/MESH_AddGhost.c
index 9bc3a74..a9c3ff7 100644
--- a/src/par/MESH_AddGhost.c
+++ b/src/par/MESH_AddGhost.c
@@ -161,8 +161,8 @@ int MESH_Surf_AddGhost_FN(Mesh_ptr mesh, Mesh_ptr submesh, int part_no, int ring
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
 #else
-  MAttrib_ptr lvidatt = MAttrib_New(mesh, "temp_lv_id", INT, MVERTEX);
-  MAttrib_ptr gvidatt = MAttrib_New(submesh, "temp_gv_id", INT, MVERTEX);
+  MAttrib_ptr lvidatt = MAttrib_New(submesh, "temp_lv_id", INT, MVERTEX);
+  MAttrib_ptr gvidatt = MAttrib_New(mesh, "temp_gv_id", INT, MVERTEX);
 #endif
 
   bverts = List_New(10);
-- 
2.43.0


From 5f705d3030ae1bea7471500e3ea8ed81e2efd100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 069/126] fix: MESH_Send_MSet freed the buffer of a pending
 send for empty mesh sets

---
 src/par/MESH_Send_MSet.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/par/MESH_Send_MSet.c b/src/par/MESH_Send_MSet.c
index c71f639..f2ce827 100644
--- a/src/par/MESH_Send_MSet.c
+++ b/src/par/MESH_Send_MSet.c
@@ -58,10 +58,21 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    if (!nent) {
-      free(list_info);
-      return 1;
+    /* track the buffers used for sending */
+
+    if (*maxptrs2free == 0) {
+      *maxptrs2free = 25;
+      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
+      *numptrs2free = 0;
     }
+    else if (*maxptrs2free < (*numptrs2free) + 2) {
+      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
+      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
+    }
+
+    (*ptrs2free)[(*numptrs2free)++] = list_info;
+
+    if (!nent) return 1;
 
     /* attribute index and global id */ 
     num = 2*nent;
@@ -79,19 +90,6 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    /* track the buffers used for sending */
-
-    if (*maxptrs2free == 0) {
-      *maxptrs2free = 25;
-      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
-      *numptrs2free = 0;
-    }
-    else if (*maxptrs2free < (*numptrs2free) + 2) {
-      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
-      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
-    }
-
-    (*ptrs2free)[(*numptrs2free)++] = list_info;
     (*ptrs2free)[(*numptrs2free)++] = list_value_int;  
   
     return 1;
-- 
2.43.0


From 7b18ecda7a2b0c26cec7e18f89d75f4011d41f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 070/126] fix: MESH_Partition_and_Send left a dangling
 Global2Local attribute on meshes that are kept, and leaked name lists

---
 src/par/MESH_Partition_and_Send.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index 5c3151c..ea8a6a2 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -268,8 +268,9 @@ extern "C" {
           }	
         }
       }
-          
-     
+
+      free(attnames);
+
         
       /* First collect the mesh set information and copy into submeshes */
 
@@ -337,6 +338,8 @@ extern "C" {
         }
           
       }
+
+      free(msetnames);
     }
 
 
@@ -402,7 +405,14 @@ extern "C" {
       if (g2llist) List_Delete(g2llist);
     }	
 	
-    if (del_inmesh) MESH_Delete(parentmesh);
+    /* the lists are gone, so the attribute must not outlive them in a
+       mesh that is kept */
+
+    if (del_inmesh)
+      MESH_Delete(parentmesh);
+    else
+      MAttrib_Delete(g2latt);
+
     return 1;
   }
 
-- 
2.43.0


From ddaabe9062431782dacd6e84399e9c8615d7283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 071/126] fix: distribution of vector attributes with one
 component or with entities without a value; leak on receipt

---
 src/par/MESH_CopyAttr.c               | 20 ++++++++++++--------
 src/par/MESH_Partition.c              |  2 +-
 src/par/MESH_Recv_Attribute.c         | 12 +++++-------
 src/par/MESH_Recv_AttributeMetaData.c |  2 +-
 src/par/MESH_Send_Attribute.c         |  7 ++++---
 5 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..de2f574 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -89,7 +89,8 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype == POINTER && pval == NULL) ||
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -99,7 +100,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -129,7 +130,8 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype == POINTER && pval == NULL) ||
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -139,7 +141,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -169,7 +171,8 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype == POINTER && pval == NULL) ||
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -179,7 +182,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -210,7 +213,8 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype == POINTER && pval == NULL) ||
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -220,7 +224,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index 38c418b..e45d385 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -106,7 +106,7 @@ extern "C" {
       ncomp = MAttrib_Get_NumComps(attrib);
       mtype = MAttrib_Get_EntDim(attrib);
       for (i = 0; i < num; i++) {
-	if (ncomp == 1)
+	if (att_type != VECTOR && att_type != TENSOR)
 	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype);
 	else
 	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..3a7204d 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -134,12 +134,10 @@ extern "C" {
       if (rval != 0.0) nullval = 0;
     }
     else {
-      if (ncomp > 1) {
-        nullval = 0;  /* always add vectors */
-        rval_arr = (double *) malloc(ncomp*sizeof(double));
-        for(k = 0; k < ncomp; k++)
-          rval_arr[k] = list_value_double[j*ncomp+k];
-      }
+      nullval = 0;  /* always add vectors */
+      rval_arr = (double *) malloc(ncomp*sizeof(double));
+      for(k = 0; k < ncomp; k++)
+        rval_arr[k] = list_value_double[j*ncomp+k];
     }
     if (nullval) continue; /* Don't waste time initializing to zero */
 
@@ -149,7 +147,7 @@ extern "C" {
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Recv_AttributeMetaData.c b/src/par/MESH_Recv_AttributeMetaData.c
index 36054a3..654719b 100644
--- a/src/par/MESH_Recv_AttributeMetaData.c
+++ b/src/par/MESH_Recv_AttributeMetaData.c
@@ -81,7 +81,7 @@ extern "C" {
       att_type = list_attr_info[i] & 7;
       mtype = (list_attr_info[i] >> 3) & 7;
       ncomp = list_attr_info[i] >> 6;
-      if(ncomp == 1)
+      if (att_type != VECTOR && att_type != TENSOR)
         attrib =  MAttrib_New(mesh, attname, att_type, mtype);
       else
         attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..1fbf61a 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -125,12 +125,13 @@ extern "C" {
       if (att_type == INT)
         list_value_int[j] = ival;
       else {
-        if(ncomp == 1)
+        if (att_type == DOUBLE)
           list_value_double[j] = rval;
-        if(ncomp > 1) {
+        else {
+          /* entities without a value contribute zeros */
           rval_arr = (double *)pval;
           for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
+            list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
         }
       }
     }
-- 
2.43.0


From f555b4a506db4f5c9b946dc72955c7a953056074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 072/126] fix: partitioners: neighbours of surface elements
 (Zoltan graph), overflow with edges of many faces, leak

---
 src/par/MESH_PartitionWithMetis.c  | 19 +++++++++++++------
 src/par/MESH_PartitionWithZoltan.c | 22 +++++++++++++++-------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..d4aaacc 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -29,7 +29,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
   MRegion_ptr mr, oppr;
   List_ptr fedges, efaces, rfaces, fregions;
   int  i, ncells, ipos;
-  int  nv, ne, nf, nr, nfe, nef, nfr, nrf, idx, idx2;
+  int  nv, ne, nf, nr, nfe, nef, nfr, nrf, idx, idx2, nadj;
   idx_t ngraphvtx, numflag, nedgecut, numparts, ncons;
   idx_t wtflag, metisopts[METIS_NOPTIONS];
   idx_t *vsize, *idxpart;
@@ -54,8 +54,18 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
       exit(-1);
     }
 
+    /* number of adjacencies; more than two faces may meet at an edge */
+    nadj = 0;
+    idx = 0;
+    while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+      efaces = ME_Faces(fedge);
+      nef = efaces ? List_Num_Entries(efaces) : 0;
+      nadj += nef*(nef-1);
+      if (efaces) List_Delete(efaces);
+    }
+
     xadj = (idx_t *) malloc((nf+1)*sizeof(idx_t));
-    adjncy = (idx_t *) malloc(2*ne*sizeof(idx_t));
+    adjncy = (idx_t *) malloc(nadj*sizeof(idx_t));
     ncells = nf;
 
     /* Surface mesh */
@@ -73,10 +83,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	efaces = ME_Faces(fedge);
 	nef = List_Num_Entries(efaces);
 	
-	if (nef == 1) {
-	  continue;          /* boundary edge; nothing to do */
-	}
-	else {
+	if (nef > 1) {     /* nothing to do for boundary edges */
           int j;
           for (j = 0; j < nef; j++) {
             oppf = List_Entry(efaces,j);
diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index 8d2f8e0..0b1dc28 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -68,7 +68,7 @@ int NDIM_4_ZOLTAN = 3;
   MRegion_ptr mr, oppr;
   List_ptr fedges, efaces, rfaces, fregions;
   int  i, j, k, id;
-  int  nv, ne, nf, nr=0, nfe, nef, nfr, nrf, idx, idx2;
+  int  nv, ne, nf, nr=0, nfe, nef, nfr, nrf, idx, idx2, nadj;
   int  numflag, nedgecut, ipos;
   int  wtflag;
 
@@ -260,10 +260,20 @@ int NDIM_4_ZOLTAN = 3;
       
         }
 
+        /* number of adjacencies; more than two faces may meet at an edge */
+        nadj = 0;
+        idx = 0;
+        while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+          efaces = ME_Faces(fedge);
+          nef = efaces ? List_Num_Entries(efaces) : 0;
+          nadj += nef*(nef-1);
+          if (efaces) List_Delete(efaces);
+        }
+
         graph.nodeGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nf);
         graph.nborIndex = (int *)malloc(sizeof(int) * (nf + 1));
-        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * 2*ne);
-        graph.nborProc = (int *)malloc(sizeof(int) * 2*ne);
+        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nadj);
+        graph.nborProc = (int *)malloc(sizeof(int) * nadj);
       
         graph.nborIndex[0] = 0;
       
@@ -280,13 +290,11 @@ int NDIM_4_ZOLTAN = 3;
             efaces = ME_Faces(fedge);
             nef = List_Num_Entries(efaces);
 	  
-            if (nef == 1) {
-              continue;          /* boundary edge; nothing to do */
-            } else {
+            if (nef > 1) {     /* nothing to do for boundary edges */
               int j;
               for (j = 0; j < nef; j++) {
                 oppf = List_Entry(efaces,j);
-                if (oppf == mf) {
+                if (oppf != mf) {
                   graph.nborGID[ipos] = MF_ID(oppf);
                   /* initially set all nodes on processor 0 */
                   graph.nborProc[ipos] = 0;
-- 
2.43.0


From 2f2a10637051c0042109b75b169f9bb0480c8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 073/126] fix: update of attributes: zero values, vectors
 without value or with one component, leak

---
 src/par/MESH_Update1Attribute.c | 52 +++++++++++++++++----------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..73e99cd 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -131,12 +131,13 @@ extern "C" {
 	list_value_int_send[j] = ival;
       }
       else {
-	if (ncomp == 1)
+	if (att_type == DOUBLE)
 	  list_value_double_send[j] = rval;
-	if (ncomp > 1) {
+	else {
+	  /* entities without a value have a zero vector */
 	  rval_arr = (double *)pval;
 	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
+	    list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
 	}
       }
     }
@@ -305,36 +306,37 @@ extern "C" {
         char msg[256];
         sprintf(msg, "Cannot find entity of type %d with global ID %d in list on proc %d", mtype, global_id, myrank);
         MSTK_Report("MESH_UpdateAttr",msg,MSTK_ERROR);
+        continue;
       }
 
       /* get the index */
       i = (int)(loc - &list_info_recv[0]);
-      if (att_type == INT)
+
+      /* Zero is as good a value as any other - it has to replace a
+         nonzero value that the ghost may have. It need not be stored
+         if the ghost has no value */
+      int has_val = MEnt_Get_AttVal(ment,attrib,&ival,&rval,&pval);
+      if (att_type == INT) {
 	ival = list_value_int_recv[i];
+        if (ival || has_val)
+          MEnt_Set_AttVal(ment,attrib,ival,0.0,NULL);
+      }
+      else if (att_type == DOUBLE) {
+        rval = list_value_double_recv[i];
+        if (rval || has_val)
+          MEnt_Set_AttVal(ment,attrib,0,rval,NULL);
+      }
       else {
-	if(ncomp == 1) 
-	  rval = list_value_double_recv[i];
-	if(ncomp > 1)
-	  {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[i*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *) malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[i*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
+        rval_arr = &list_value_double_recv[i*ncomp];
+        int allzero = 1;
+        for (k = 0; k < ncomp; k++)
+          if (rval_arr[k] != 0.0) {
+            allzero = 0;
+            break;
           }
+        if (!allzero || has_val) /* values are copied */
+          MEnt_Set_AttVal(ment,attrib,0,0.0,(void *) rval_arr);
       }
-      if ((att_type == INT && ival) ||
-          (att_type == DOUBLE && rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
     }
 
     /* release the send buffer */
-- 
2.43.0


From a84a53ecb3534b9150d521756c85cd524df86e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 074/126] fix: gather-scatter of vector attributes and of zero
 values

---
 src/par/MESH_GathScat1Attribute.c | 93 ++++++++++++++-----------------
 1 file changed, 43 insertions(+), 50 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..1e6eb10 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -273,12 +273,13 @@ extern "C" {
 	      list_value_int_send[n] = ival;
 	    }
 	    else {
-	      if (ncomp == 1)
+	      if (att_type == DOUBLE)
 		list_value_double_send[n] = rval;
-	      if (ncomp > 1) {
+	      else {
+                /* entities without a value have a zero vector */
 		rval_arr = (double *)pval;
 		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
+		  list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	      }
 	    }
             n++;
@@ -420,10 +421,15 @@ extern "C" {
       int nfound = 0;
       int final_ival;
       double final_rval;
-      double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
-
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      double *final_rval_arr = NULL;
+
+      int has_val = MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      if (att_type == VECTOR || att_type == TENSOR) {
+        /* entities without a value have a zero vector */
+        final_rval_arr = (double *) calloc(ncomp,sizeof(double));
+        if (pval)
+          memcpy(final_rval_arr,pval,ncomp*sizeof(double));
+      }
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -463,7 +469,7 @@ extern "C" {
           }
         }
         else {
-          if(ncomp == 1) {
+          if(att_type == DOUBLE) {
             rval = list_value_double_recv[ind];
             switch (optype) {
               case ATTOP_MAX:
@@ -480,46 +486,31 @@ extern "C" {
                 break;
             }
           }
-          if(ncomp > 1) {
-            int allzero = 1;
+          else {
+            rval_arr = &list_value_double_recv[ind*ncomp];
+            double final_norm = 0.0, norm = 0.0;
+            for (k = 0; k < ncomp; k++)
+              final_norm += final_rval_arr[k]*final_rval_arr[k];
             for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+              norm += rval_arr[k]*rval_arr[k];
+            switch (optype) {
+              case ATTOP_MAX:
+                if (norm > final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
                 break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+              case ATTOP_MIN:
+                if (norm < final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_SUM: case ATTOP_AVG:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] += rval_arr[k];
+                break;
+              default:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] = rval_arr[k];
+                break;
+            }
           }
         }
 
@@ -535,16 +526,18 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
       
-      if ((att_type == INT && final_ival) ||
-          (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
+      /* a zero result has to replace a nonzero value */
+      if ((att_type == INT && (final_ival || has_val)) ||
+          (att_type == DOUBLE && (final_rval || has_val)) ||
+          att_type == VECTOR || att_type == TENSOR)
         MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
 
+      if (final_rval_arr) free(final_rval_arr); /* values were copied */
     }
     
         
-- 
2.43.0


From 333f5d82bf4ba24bdef5465025212288ac2fdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 075/126] fix: exchange of edge/face attributes: vectors, zero
 values, leak

---
 src/par/MESH_XchngEdgeFaceAttrib.c | 46 ++++++++++++------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..8ba1494 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -266,12 +266,13 @@ extern "C" {
                 list_value_int_send[n] = ival;
               }
               else {
-                if (ncomp == 1)
+                if (att_type == DOUBLE)
                   list_value_double_send[n] = rval;
-                if (ncomp > 1) {
+                else {
+                  /* entities without a value have a zero vector */
                   rval_arr = (double *)pval;
                   for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
+                    list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
                 }
               }
               n++;
@@ -427,32 +428,23 @@ extern "C" {
         found = 1;
 
         int ind = (int)(loc - list_info_recv);
-        if (att_type == INT) 
+
+        /* zero has to replace a nonzero value but need not be stored
+           if there is no value */
+        int has_val = MEnt_Get_AttVal(ment,attrib,&ival,&rval,&pval);
+        if (att_type == INT) {
           ival = list_value_int_recv[ind];
-        else {
-          if(ncomp == 1) 
-            rval = list_value_double_recv[ind];
-          else {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+          if (ival || has_val)
+            MEnt_Set_AttVal(ment,attrib,ival,0.0,NULL);
         }
-        
-        if ((att_type == INT && ival) ||
-            (att_type == DOUBLE && rval) ||
-            ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-          MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+        else if (att_type == DOUBLE) {
+          rval = list_value_double_recv[ind];
+          if (rval || has_val)
+            MEnt_Set_AttVal(ment,attrib,0,rval,NULL);
+        }
+        else /* values are copied */
+          MEnt_Set_AttVal(ment,attrib,0,0.0,
+                          (void *) &list_value_double_recv[ind*ncomp]);
        
         break;
       } /* for (i = 0; i < num_recv_procs; i++) */
-- 
2.43.0


From e7e97d7b45d720f5fd24c60dce21edc97427ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 076/126] fix: leak in MESH_UpdateVertexCoords

---
 src/par/MESH_UpdateVertexCoords.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par/MESH_UpdateVertexCoords.c b/src/par/MESH_UpdateVertexCoords.c
index 4d0c6d7..1334e11 100644
--- a/src/par/MESH_UpdateVertexCoords.c
+++ b/src/par/MESH_UpdateVertexCoords.c
@@ -207,6 +207,7 @@ extern "C" {
     free(coords_send);
     free(gid_list_recv);
     free(coords_recv);
+    free(recv_procs);
     free(recv_pos);    
     free(rank_g2l);    
     return 1;
-- 
2.43.0


From 46283f65fc7f22360fa8b1a1775e2b6bab5a13b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 077/126] fix: flag edges on the partition boundary on rank 0
 too when weaving

---
 src/par/MESH_AssignGlobalIDs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs.c b/src/par/MESH_AssignGlobalIDs.c
index 17ff68d..a599c4d 100644
--- a/src/par/MESH_AssignGlobalIDs.c
+++ b/src/par/MESH_AssignGlobalIDs.c
@@ -463,9 +463,9 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   MPI_Allgather(list_edge,2*max_nbe,MPI_INT,recv_list_edge,2*max_nbe,MPI_INT,comm);
 
   nge = 0;
-  /* for processor other than 0 (because there are no ghost entities
-   * on rank 0 by convention) */
-  if(rank > 0) {
+  /* there are no ghost edges on rank 0 by convention but its edges that
+   * match edges on other ranks have to be flagged as well */
+  if(num > 1) {
     for(i = 0; i < nbe; i++) {
       me = List_Entry(boundary_edges,i);
       edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
-- 
2.43.0


From 475249980f5e1e658e1c60aa4cae86b9aae21af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 078/126] fix: leak in MESH_Renumber_GlobalIDs

---
 src/par/MESH_Renumber_GlobalIDs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index ea8c365..9dcc516 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -218,6 +218,7 @@ extern "C" {
 
     free(nowned_all);
     free(offset_all);
+    free(new_index);
 
     MAttrib_Delete(tmpatt);
 
-- 
2.43.0


From 7f06ab25da4707a8be28a927852a4f13cc7ca228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 079/126] fix: weaving without ghost layers must not label
 elements as overlap

---
 src/par/MSTK_Weave_DistributedMeshes.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/par/MSTK_Weave_DistributedMeshes.c b/src/par/MSTK_Weave_DistributedMeshes.c
index c454dd2..680d340 100644
--- a/src/par/MSTK_Weave_DistributedMeshes.c
+++ b/src/par/MSTK_Weave_DistributedMeshes.c
@@ -77,10 +77,15 @@ extern "C" {
     else if (input_type == 2) 
       MESH_AssignGlobalIDs_p2p(mesh, topodim, comm);
 
-    MESH_LabelPType(mesh, topodim, comm);
+    /* label the elements to be sent as ghosts and their lower
+       dimensional entities as POVERLAP; without ghost layers only the
+       entities on the partition boundary have copies and they have
+       been labeled already */
 
-    if (num_ghost_layers)  /* num_ghost_layers = 0 not well tested */
+    if (num_ghost_layers) {  /* num_ghost_layers = 0 not well tested */
+      MESH_LabelPType(mesh, topodim, comm);
       MESH_Parallel_AddGhost(mesh, topodim, comm);
+    }
 
     /* Even with no ghost layer of elements, lower dimensional ghosts
      * can exist */
-- 
2.43.0


From 0d4afbde2f2f86c2f2fa9f5f03ed2bd892998de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 080/126] fix: weaving with known neighbours: stale labels,
 several lower ranks, leaks

---
 src/par/MESH_AssignGlobalIDs_point.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index c84f1d7..b5a4a0a 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -279,6 +279,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
         }
       }
       if (MESH_Has_Ghosts_From_Prtn(submesh,i,MVERTEX) ) {
+        for (j = 0; j < max_nbv; j++) vertex_ov_label[j] = 0;
         /* Get ALL boundary vertices from rank 'i' */
         MPI_Recv(recv_list_coor,3*max_nbv,MPI_DOUBLE,i,rank,comm,&status);
         MPI_Get_count(&status,MPI_DOUBLE,&count);
@@ -294,9 +295,11 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
                                   compareCoorDouble);
           if (loc) {  // new match
             iloc = (int)(loc - recv_list_coor)/3;
-            MV_Set_PType(mv,PGHOST);
-            MV_Set_MasterParID(mv,i);
-            MV_Flag_OnParBoundary(mv);
+            if (MV_PType(mv) != PGHOST) {
+              MV_Set_PType(mv,PGHOST);
+              MV_Set_MasterParID(mv,i);
+              MV_Flag_OnParBoundary(mv);
+            }
 
             if (MV_MasterParID(mv) == i) {
               /* Whether the master partition ID was set above or
@@ -329,7 +332,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
 
   mesh_info[9] = ngv;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost vertex */
@@ -503,6 +505,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 			       2*sizeof(int),
 			       compareEdgeINT);
 	  if(loc) {
+	    if (ME_PType(me) == PGHOST) continue;  /* lowest rank is the master */
 	    iloc = (int)(loc - recv_list_edge)/2;
 	    ME_Set_PType(me,PGHOST);
 	    ME_Set_MasterParID(me,i);
@@ -532,7 +535,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
   
   mesh_info[9] = nge;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost edge */
@@ -686,6 +688,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
       List_Add(boundary_faces,mf);
       nbf++;
     }
+    List_Delete(mfverts);
   }
 
   mesh_info[5] = nbf;
@@ -778,7 +781,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
   
   mesh_info[9] = ngf;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost vertex */
-- 
2.43.0


From b7d4976581d80ee343473da428da1b89fcbc2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 081/126] fix: Exodus II files of a rank: sets with ghost
 elements, element numbers in the order of the blocks

---
 src/io/MESH_ExportToExodusII.c | 66 +++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index b06fbb6..208afd2 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1038,19 +1038,21 @@ extern "C" {
    
     for (i = 0; i < num_node_set_glob; i++) {
       int nnodes = MSet_Num_Entries(node_sets_glob[i]);
-#ifdef EXODUS_6_DEPRECATED
-      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
-#else
-      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
-#endif
-
       int *node_list = (int *) malloc(nnodes*sizeof(int));
 
       idx = 0; j = 0;
       while ((mv = MSet_Next_Entry(node_sets_glob[i],&idx))) {
         MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
-	node_list[j++] = vid;
+        if (vid)  /* Not for vertices connected to ghost elements only */
+          node_list[j++] = vid;
       }
+      nnodes = j;
+
+#ifdef EXODUS_6_DEPRECATED
+      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
+#else
+      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
+#endif
 
 #ifdef EXODUS_6_DEPRECATED
       ex_put_node_set(exoid, node_set_ids_glob[i], node_list);
@@ -1080,28 +1082,24 @@ extern "C" {
       if (nrowned) {        
 	idx = 0;
 	while ((mf = MSet_Next_Entry(side_sets_glob[i],&idx))) {
-          if (MF_PType(mf) == PGHOST &&  !MF_OnParBoundary(mf)) continue;
-
 	  List_ptr fregs = MF_Regions(mf);
 
 	  if (!fregs || List_Num_Entries(fregs) == 0)
 	    MSTK_Report("MESH_ExportToEXODUSII",
 			"Standalone face with no regions in side set",
 			MSTK_FATAL);
-	  mr = List_Entry(fregs,0);
 
-#ifdef MSTK_HAVE_MPI
-          if (comm && MR_PType(mr) == PGHOST) {
-            if (List_Num_Entries(fregs) > 1)
-              mr = List_Entry(fregs,1);  /* at least 1 region should be owned */
-            else  // First check in loop should prevent it from coming here
-              MSTK_Report("MESH_ExportToExodusII", "Trying to write out ghost side set face thats not on the parallel boundary", MSTK_FATAL);
+          /* Use a region that was written; a face connected to ghost
+             regions only is not written */
+          idx2 = 0;
+          while ((mr = List_Next_Entry(fregs,&idx2)))
+            if (elem_id[MR_ID(mr)-1]) break;
+          if (!mr) {
+            List_Delete(fregs);
+            continue;
           }
-#endif
 
           elem_list[nsides] = elem_id[MR_ID(mr)-1];
-          if (elem_list[nsides] == 0)
-            MSTK_Report("MESH_ExportToExodusII","Invalid Exodus II element ID",MSTK_ERROR);
 
 	  
           /* Rather than look at the real element type of the region,
@@ -1145,12 +1143,16 @@ extern "C" {
 	    MSTK_Report("MESH_ExportToEXODUSII",
 			"Standalone edge with no faces in side set",
 			MSTK_FATAL);
-	  mf = List_Entry(efaces,0);
 
-#ifdef MSTK_HAVE_MPI
-          if (comm && MF_PType(mf) == PGHOST)
-            mf = List_Entry(efaces,1);  /* at least 1 face should be owned */
-#endif
+          /* Use a face that was written; an edge connected to ghost
+             faces only is not written */
+          idx2 = 0;
+          while ((mf = List_Next_Entry(efaces,&idx2)))
+            if (elem_id[MF_ID(mf)-1]) break;
+          if (!mf) {
+            List_Delete(efaces);
+            continue;
+          }
 
 	  /* Since elements will be read back from the Exodus II file
 	     element block by element block, we have to jump through
@@ -1158,8 +1160,6 @@ extern "C" {
 	     it is read */
 
           elem_list[nsides] = elem_id[MF_ID(mf)-1];
-          if (elem_list[nsides] == 0)
-            MSTK_Report("MESH_ExportToExodusII","Invalid Exodus II element ID",MSTK_ERROR);
 	  
           int lid = ME_LocalID_in_Face(me,mf);
           side_list[nsides] = lid+1;
@@ -1191,15 +1191,16 @@ extern "C" {
   
     for (i = 0; i < num_element_set_glob; i++) {
       int nelements = MSet_Num_Entries(element_sets_glob[i]);
-      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
-
       int *element_list = (int *) malloc(nelements*sizeof(int));
 
       MEntity_ptr ment;
       idx = 0; j = 0;
       while ((ment = MSet_Next_Entry(element_sets_glob[i],&idx)))
-        element_list[j++] = elem_id[MEnt_ID(ment)-1];
+        if (elem_id[MEnt_ID(ment)-1])  /* Not for ghost elements */
+          element_list[j++] = elem_id[MEnt_ID(ment)-1];
+      nelements = j;
 
+      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
       ex_put_set(exoid, EX_ELEM_SET, element_set_ids_glob[i], element_list, NULL);
 
       free(element_list);
@@ -1248,7 +1249,8 @@ extern "C" {
       free(node_map);
 
       
-      /* Write out element map (global IDs of elements) */
+      /* Write out element map (global IDs of elements) in the order in
+       * which the elements are written, i.e. block by block */
 
       int *elem_map;
 
@@ -1263,7 +1265,7 @@ extern "C" {
           MEnt_Get_AttVal(mr, ownedatt, &rowned, &rval, &pval);
 #endif
           if (rowned)
-            elem_map[i++] = MR_GlobalID(mr);
+            elem_map[elem_id[MR_ID(mr)-1]-1] = MR_GlobalID(mr);
         }
       }
       else { // assume surface mesh
@@ -1277,7 +1279,7 @@ extern "C" {
           MEnt_Get_AttVal(mf, ownedatt, &fowned, &rval, &pval);
 #endif
           if (fowned)
-            elem_map[i++] = MF_GlobalID(mf);
+            elem_map[elem_id[MF_ID(mf)-1]-1] = MF_GlobalID(mf);
         }
       }
 #ifdef EXODUS_6_DEPRECATED
-- 
2.43.0


From ba1a3d11c7e84ae7183fe28a88b57213e423c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 082/126] fix: element graph of Exodus II files with several
 blocks: wrong counts, overruns, element centers, pyramids

---
 src/io/ExodusII_GetElementGraph.c | 80 +++++++++++++++++++------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 9dafa24..b379188 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -111,8 +111,6 @@ extern "C" {
   }
 
 
-#define MAX_COLLISIONS 100
-  
   typedef struct {
     int mykey;     /* hash key from sorted list of vertices*/ 
     int id;      /* actual id in list of faces */
@@ -126,7 +124,8 @@ extern "C" {
   typedef struct {
     int mykey;           /* hash key that all faces in the list share */
     int nf;            /* number of faces in list - typically small 2 or so */
-    face_t *faces[MAX_COLLISIONS];     /* list of faces */
+    int nalloc;          /* number of faces there is room for */
+    face_t **faces;      /* list of faces */
   } facelist_t;
   
 
@@ -180,14 +179,15 @@ extern "C" {
     } else {
       flist = (facelist_t *) malloc(sizeof(facelist_t));
       flist->nf = 0;
+      flist->nalloc = 4;
+      flist->faces = (face_t **) malloc(flist->nalloc*sizeof(face_t *));
       flist->mykey = newface->mykey = hash_key;
     }
 
-#ifdef DEBUG    
-    if (flist->nf == MAX_COLLISIONS)
-      MSTK_Report("ExodusII_GetElementGraph/add_face",
-		  "Too many collisions - increase MAX_COLLISIONS", MSTK_FATAL);
-#endif
+    if (flist->nf == flist->nalloc) {
+      flist->nalloc *= 2;
+      flist->faces = (face_t **) realloc(flist->faces, flist->nalloc*sizeof(face_t *));
+    }
     flist->faces[flist->nf++] = newface;
     face_hashtable[hash_key] = flist;
     return 1;
@@ -216,18 +216,20 @@ extern "C" {
     int nelnodes, neledges, nelfaces;
     float version;
 
-    int exo_nrf[3] = {4,5,6};
-    int exo_nrfverts[3][6] =
-        {{3,3,3,3,0,0},{4,4,4,3,3,0},{4,4,4,4,4,4}};
+    int exo_nrf[4] = {4,5,6,5};
+    int exo_nrfverts[4][6] =
+        {{3,3,3,3,0,0},{4,4,4,3,3,0},{4,4,4,4,4,4},{4,3,3,3,3,0}};
 
-    int exo_rfverts[3][6][4] =
+    int exo_rfverts[4][6][4] =
         {{{0,1,3,-1},{1,2,3,-1},{2,0,3,-1},{0,2,1,-1},{-1,-1,-1,-1},{-1,-1,-1,-1}},
          {{0,1,4,3},{1,2,5,4},{2,0,3,5},{0,2,1,-1},{3,4,5,-1},{-1,-1,-1,-1}},
-         {{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{0,3,2,1},{4,5,6,7}}};
-    int exo_rfdirs[3][6] =
+         {{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{0,3,2,1},{4,5,6,7}},
+         {{0,3,2,1},{0,1,4,-1},{1,2,4,-1},{2,3,4,-1},{3,0,4,-1},{-1,-1,-1,-1}}};
+    int exo_rfdirs[4][6] =
         {{1,1,1,1,-99,-99},
          {1,1,1,1,1,-99},
-         {1,1,1,1,1,1}};
+         {1,1,1,1,1,1},
+         {1,1,1,1,1,-99}};
 
     ex_init_params exopar;
 
@@ -334,6 +336,7 @@ extern "C" {
 	
       } else if (strncasecmp(elem_type,"TET",3) == 0 ||
 		 strncasecmp(elem_type,"WEDGE",5) == 0 ||
+		 strncasecmp(elem_type,"PYRAMID",7) == 0 ||
 		 strncasecmp(elem_type,"HEX",3) == 0) {
 
 	max_faces += 6*nel_in_blk;  /* overestimate to num faces of hex */
@@ -526,7 +529,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -585,6 +588,7 @@ extern "C" {
 
       } else if (strncasecmp(elem_type,"TET",3) == 0 ||
 		 strncasecmp(elem_type,"WEDGE",5) == 0 ||
+		 strncasecmp(elem_type,"PYRAMID",7) == 0 ||
 		 strncasecmp(elem_type,"HEX",3) == 0) {
 	int nrf, eltype;
 	
@@ -617,6 +621,14 @@ extern "C" {
 	    continue;
 	  }
 	}
+	else if (strncasecmp(elem_type,"PYRAMID",7) == 0) {
+	  eltype = 3;
+	  nrf = 5;
+	  if (nelnodes > 5) {
+	    MSTK_Report(funcname,"Higher order pyramids not supported",MSTK_WARN);
+	    continue;
+	  }
+	}
 	else if (strncasecmp(elem_type,"HEX",3) == 0) {
 	  eltype = 2;
 	  nrf = 6;
@@ -698,8 +710,8 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
 	      xcoord += xvals[vid-1];
 	      ycoord += yvals[vid-1];
 	      zcoord += zvals[vid-1];
@@ -744,7 +756,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -810,11 +822,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nnpe[j]; i++) {
-	      int vid = connect[offset+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nnpe[j]; k++) {
+	      int vid = connect[offset+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nnpe[j];
 	    (*elemcen)[max_elem_id][1] = ycoord/nnpe[j];
@@ -918,11 +930,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nelnodes;
 	    (*elemcen)[max_elem_id][1] = ycoord/nelnodes;
@@ -938,6 +950,11 @@ extern "C" {
     } /* for (i = 0; i < nelblock; i++) */
     ex_close(exoid);
 
+    if (get_coords) {
+      free(xvals);
+      free(yvals);
+      free(zvals);
+    }
     free(elem_blk_ids);
     for (i = 0; i < nelblock; i++) free(elem_blknames[i]);
     free(elem_blknames);
@@ -982,7 +999,10 @@ extern "C" {
 
     /* Free the hash table */
     for (i = 0; i < hash_table_size; i++)
-      if (face_hashtable[i]) free(face_hashtable[i]);
+      if (face_hashtable[i]) {
+	free(face_hashtable[i]->faces);
+	free(face_hashtable[i]);
+      }
     free(face_hashtable);
 
     for (i = 0; i < max_face_id; i++)
-- 
2.43.0


From 8cce8cb7ad6910763fbc014db8de6f2dde10cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 083/126] fix: surface meshes in 3D could not be read from
 Exodus II files in parts; ghost layers asked for; leaks

---
 src/io/MESH_ImportFromExodusII.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromExodusII.c b/src/io/MESH_ImportFromExodusII.c
index 9454ee7..bc29eaf 100644
--- a/src/io/MESH_ImportFromExodusII.c
+++ b/src/io/MESH_ImportFromExodusII.c
@@ -204,6 +204,8 @@ extern "C" {
 
 	    free(xadj);
 	    free(adjncy);
+	    free(elemgraphoff);
+	    free(elemgraphadj);
 
 
 	    // Collect the elements on each partition
@@ -250,6 +252,7 @@ extern "C" {
 	      free(part_elem_gids[i]);
 	    free(part_elem_gids);
 	    free(part_num_elems);
+	    free(idxpart);
 	    free(requests);
 
 #else
@@ -288,10 +291,13 @@ extern "C" {
 	}
 
 	MESH_ReadExodusII_Partial(mesh, filename, rank, num_myelems, myelems);
+	free(myelems);
 
+	/* The graph has the dimension of the space the mesh lives in but
+	   weaving needs that of its elements */
+	dim = MESH_Num_Regions(mesh) ? 3 : 2;
 
 	/* Weave the meshes together to establish interprocessor connectivity */
-	int num_ghost_layers = 1;
 	int input_type = 1;
 	MSTK_Weave_DistributedMeshes(mesh, dim, num_ghost_layers, input_type,
 				     comm);
-- 
2.43.0


From d205bed9b6d9eb33f6a4b13ffaa8dea1c73c5ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 084/126] fix: weaving of X3D files missed edges and faces
 shared by ranks that own none of their nodes

---
 src/io/MESH_ImportFromFLAGX3D.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromFLAGX3D.c b/src/io/MESH_ImportFromFLAGX3D.c
index aa10145..001453e 100644
--- a/src/io/MESH_ImportFromFLAGX3D.c
+++ b/src/io/MESH_ImportFromFLAGX3D.c
@@ -937,7 +937,9 @@ extern "C" {
     /* Must weave distributed meshes to create correct ghost links */
   
     int num_ghost_layers = parallel_opts[1];
-    int input_type = 2;
+    int input_type = 0; /* the file names the owner of a shared node but not
+                           the other processors that have it, which may have
+                           edges and faces in common too */
     int topodim = ndim;
   
     int weavestatus = MSTK_Weave_DistributedMeshes(mesh, topodim,
-- 
2.43.0


From 017f338a318c645131d5e06a34b5ddcc36c3fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 085/126] fix: Exodus II reader took a polygon for a face with
 fewer vertices

---
 src/io/MESH_ReadExodusII_Serial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 0f58129..a762322 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1012,8 +1012,8 @@ extern "C" {
                 for (ii = 0; ii < nvfaces; ii++) {
                   MFace_ptr vface = List_Entry(vfaces,ii);
 
-                  int jj, has_all_verts = 1;
-                  for (jj = 0; jj < nfv; jj++)
+                  int jj, has_all_verts = (MF_Num_Vertices(vface) == nfv);
+                  for (jj = 0; has_all_verts && jj < nfv; jj++)
                     if (!MF_UsesEntity(vface,fverts[jj],MVERTEX)) {
                       has_all_verts = 0;
                       break;
-- 
2.43.0


From e67cedd4588d1dff6c10dba167525baf876b022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 086/126] fix: reading Exodus II files in parts: undefined
 third coordinate in 2D, polygon taken for another face

---
 src/io/MESH_ReadExodusII_Partial.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index e11cff4..c195f90 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -666,7 +666,7 @@ extern "C" {
     int *local2global_node_map = (int *) malloc((nnodes2read+1)*sizeof(int)); /* local node IDs start from 1 */
     xvals = (double *) malloc(nnodes2read*sizeof(double));
     yvals = (double *) malloc(nnodes2read*sizeof(double));
-    zvals = (double *) malloc(nnodes2read*sizeof(double));
+    zvals = (double *) calloc(nnodes2read, sizeof(double)); /* not in 2D files */
 
     ibeg = 0;
     while (ibeg < nnodes2read) {
@@ -864,8 +864,8 @@ extern "C" {
 		for (ii = 0; ii < nvfaces; ii++) {
 		  MFace_ptr vface = List_Entry(vfaces,ii);
 	      
-		  int jj, has_all_verts = 1;
-		  for (jj = 0; jj < nfv; jj++)
+		  int jj, has_all_verts = (MF_Num_Vertices(vface) == nfv);
+		  for (jj = 0; has_all_verts && jj < nfv; jj++)
 		    if (!MF_UsesEntity(vface,fverts[jj],MVERTEX)) {
 		      has_all_verts = 0;
 		      break;
-- 
2.43.0


From f163223ae769dde4ce336a1fee91fb964358d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 087/126] fix: IDs of the edges of a region: list never deleted

---
 src/base/MR_Edge_Funcs_FN.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 828918c..a15952b 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -398,6 +398,7 @@ extern "C" {
     *nre = List_Num_Entries(redges);
     for (i = 0; i < *nre; i++)
       redgeids[i] = MEnt_ID(List_Entry(redges,i));
+    List_Delete(redges);
   }
 
 
-- 
2.43.0


From 97b7a61f1716f6a597618ad7ae22ab26719b6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 088/126] fix: IDs of the vertices of a region: list never
 deleted

---
 src/base/MR_Vertex_Funcs_FNR3R4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 97cf711..917a793 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -285,6 +285,7 @@ extern "C" {
     *nrv = List_Num_Entries(rverts);
     for (i = 0; i < *nrv; i++)
       rvertids[i] = MEnt_ID(List_Entry(rverts,i));
+    List_Delete(rverts);
   }
 
   void MR_Replace_Vertex_FNR3R4(MRegion_ptr r, MVertex_ptr v, MVertex_ptr nuv){
-- 
2.43.0


From d55ce47dda50e41e069d96dc92a4edf98ff1286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 089/126] fix: direction of the 32nd face of a region shifted
 into the sign bit

---
 src/base/MR_Face_Funcs_FNR3R4.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index a034ed4..a96c5ac 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -113,7 +113,7 @@ extern "C" {
 
       j = (int) i/(8*sizeof(unsigned int));
       k = i%(8*sizeof(unsigned int));
-      adj->fdirs[j] = adj->fdirs[j] | (dirs[i] << k);
+      adj->fdirs[j] = adj->fdirs[j] | ((unsigned int) dirs[i] << k);
 
       List_Add(adj->rfaces,rfaces[i]);
 
@@ -567,8 +567,8 @@ extern "C" {
     j = (int) i/(8*sizeof(unsigned int));
     k = i%(8*sizeof(unsigned int));
 
-    adj->fdirs[j] = adj->fdirs[j] & ~(1<<k); /* Set bit to 0 */
-    adj->fdirs[j] = adj->fdirs[j] | (dir<<k); /* Set it to desired dir */
+    adj->fdirs[j] = adj->fdirs[j] & ~(1u<<k); /* Set bit to 0 */
+    adj->fdirs[j] = adj->fdirs[j] | ((unsigned int) dir<<k); /* Set it to desired dir */
 
     MFace_ptr f = List_Entry(adj->rfaces, i);
     List_ptr fregs = MF_Regions(f);
@@ -655,7 +655,7 @@ extern "C" {
       j = (int) i/(8*sizeof(unsigned int));
       k = i%(8*sizeof(unsigned int));
       
-      adj->fdirs[j] = (adj->fdirs[j] & ~(1<<k)); /* set bit i to 0 */
+      adj->fdirs[j] = (adj->fdirs[j] & ~(1u<<k)); /* set bit i to 0 */
       
       /* get bit for i+1 */
       j1 = (int) (i+1)/(8*sizeof(unsigned int));
@@ -665,7 +665,7 @@ extern "C" {
       
       /* move bit for i+1 to i */
       
-      adj->fdirs[j] = (adj->fdirs[j] | (dir<<k)); 
+      adj->fdirs[j] = (adj->fdirs[j] | ((unsigned int) dir<<k)); 
       
     }
 
@@ -791,8 +791,8 @@ extern "C" {
 
     j = (int) i/(8*sizeof(unsigned int));
     k = i%(8*sizeof(unsigned int));
-    adj->fdirs[j] = (adj->fdirs[j] & ~(1<<k)); /* set bit i to 0 */
-    adj->fdirs[j] = (adj->fdirs[j] | (nudir<<k)); /* set to nudir*/
+    adj->fdirs[j] = (adj->fdirs[j] & ~(1u<<k)); /* set bit i to 0 */
+    adj->fdirs[j] = (adj->fdirs[j] | ((unsigned int) nudir<<k)); /* set to nudir*/
 
     List_Replacei(adj->rfaces,i,nuf);
 
-- 
2.43.0


From f5ccf12064b73d3ea77112e42fd8c785688d2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 090/126] fix: one column of vertex pointers of a generated 2D
 mesh never freed

---
 src/hilev/MESH_Gen_Structured.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MESH_Gen_Structured.c b/src/hilev/MESH_Gen_Structured.c
index f737c78..4907b0a 100644
--- a/src/hilev/MESH_Gen_Structured.c
+++ b/src/hilev/MESH_Gen_Structured.c
@@ -283,7 +283,7 @@ Mesh_ptr MESH_Gen_Structured(double lx, double ly, double lz,
     }
    
 
-    for (i = 0; i < nx; i++)
+    for (i = 0; i < nx+1; i++)
       free(verts[i]);
     free(verts);
 
-- 
2.43.0


From bfbe5cc11fe5d994257db531ee06ec29ee573f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 091/126] fix: Exodus II exporter kept its lists of blocks and
 sets and the truth table

---
 src/io/MESH_ExportToExodusII.c | 61 ++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 208afd2..4711a15 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1528,6 +1528,7 @@ extern "C" {
       if (status < 0)
         MSTK_Report(funcname,"Error while writing element variable truth table",
                     MSTK_FATAL);
+      free(truth_table);
 
       
       /* Now write out each variable */
@@ -1653,35 +1654,29 @@ extern "C" {
     free(elem_id);
 
 
-    if (num_element_set_glob) {
-      free(element_set_ids_glob);
-      for (i = 0; i < num_element_set_glob; i++) {
-        MSet_Name(element_sets_glob[i],msetname);
-        if (strncmp(msetname,"TEMPORARY_",10) == 0) 
-          MSet_Delete(element_sets_glob[i]);
-      }
-      free(element_sets_glob);
+    free(element_set_ids_glob);
+    for (i = 0; i < num_element_set_glob; i++) {
+      MSet_Name(element_sets_glob[i],msetname);
+      if (strncmp(msetname,"TEMPORARY_",10) == 0) 
+        MSet_Delete(element_sets_glob[i]);
     }
+    free(element_sets_glob);
     
-    if (num_side_set_glob) {
-      free(side_set_ids_glob);
-      for (i = 0; i < num_side_set_glob; i++) {
-        MSet_Name(side_sets_glob[i],msetname);
-        if (strncmp(msetname,"TEMPORARY_",10) == 0)
-          MSet_Delete(side_sets_glob[i]);
-      }
-      free(side_sets_glob);
+    free(side_set_ids_glob);
+    for (i = 0; i < num_side_set_glob; i++) {
+      MSet_Name(side_sets_glob[i],msetname);
+      if (strncmp(msetname,"TEMPORARY_",10) == 0)
+        MSet_Delete(side_sets_glob[i]);
     }
+    free(side_sets_glob);
     
-    if (num_node_set_glob) {
-      free(node_set_ids_glob);
-      for (i = 0; i < num_node_set_glob; i++) {
-        MSet_Name(node_sets_glob[i],msetname);
-        if (strncmp(msetname,"TEMPORARY_",10) == 0)
-          MSet_Delete(node_sets_glob[i]);
-      }
-      free(node_sets_glob);
+    free(node_set_ids_glob);
+    for (i = 0; i < num_node_set_glob; i++) {
+      MSet_Name(node_sets_glob[i],msetname);
+      if (strncmp(msetname,"TEMPORARY_",10) == 0)
+        MSet_Delete(node_sets_glob[i]);
     }
+    free(node_sets_glob);
 
     if (num_element_atts_glob) {
       for (i = 0; i < num_element_atts_glob; ++i)
@@ -2177,7 +2172,11 @@ extern "C" {
     }
 #endif
 
-
+    free(element_block_ids);
+    free(element_blocks);
+    for (i = 0; i < nb; i++)
+      free(element_block_types[i]);
+    free(element_block_types);
   }
 
 
@@ -2522,7 +2521,8 @@ extern "C" {
 
 #endif
 
-
+    free(side_sets);
+    free(side_set_ids);
   }
   
 
@@ -2759,7 +2759,8 @@ extern "C" {
 
 #endif
 
-
+    free(node_sets);
+    free(node_set_ids);
   }
 
 
@@ -2955,7 +2956,8 @@ extern "C" {
 
 #endif
 
-
+    free(element_sets);
+    free(element_set_ids);
   }
 
 
@@ -3112,10 +3114,11 @@ extern "C" {
         
         MPI_Bcast(att_dim_glob,natts_glob,MPI_INT,0,comm);
         
-        free(natt_all);
       }
       else
         natts_glob = 0;
+
+      free(natt_all);
     }
     else { /* No MPI communicator given - treat it as a serial run */
 
-- 
2.43.0


From 0d33efbff376bfe9e2369bef534ba0bd88b25274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 092/126] fix: FLAG X3D exporter kept the faces of edges

---
 src/io/MESH_ExportToFLAGX3D.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index dfd2618..f19137d 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -1034,6 +1034,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
           MEnt_Get_AttVal(edge,eidatt_tmp,&eid,&rval,&pval);
           fprintf(fp,"% 10d",eid);
         }
+        if (efaces) List_Delete(efaces);
 
         k++;
         if (k%14 == 0 && je != nfe-1)
-- 
2.43.0


From 8c578cc782d5ebf6253145e9be8cfd493fee1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 093/126] fix: GMV exporter kept faces and regions of vface
 cells

---
 src/io/MESH_ExportToGMV.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index c520105..fdb3dbf 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -541,7 +541,9 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
             MEnt_Get_AttVal(face,fidatt,&fid,&rval,&pval);
             fprintf(fp,"% d ",fid);
           }
+          if (fregs) List_Delete(fregs);
         }
+        List_Delete(rfaces);
         fprintf(fp,"\n");
 
         gentid = MR_GEntID(region);
@@ -687,6 +689,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
           }
           List_Delete(fregs);
         }
+        List_Delete(rfaces);
 
       }
 
-- 
2.43.0


From ca29704dcbdb9449decbc0bf2b02bae82d1b213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 094/126] fix: reading Exodus II files in parts freed nearly
 nothing

---
 src/io/MESH_ReadExodusII_Partial.c | 41 +++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index c195f90..17409b2 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -486,6 +486,9 @@ extern "C" {
       }  /* while (ibeg < nfaces2read) */
 
       free(faceblock_ids);
+      free(faceblock_min);
+      free(faceblock_max);
+      free(faceblock_nfaces);
     }  /* ndim == 3 */
 
 
@@ -551,6 +554,7 @@ extern "C" {
 	      local2global_elem_map[elcounter+1] = begel+j;
 	      elcounter++;
 	    }
+	    free(nelnodes_cur);
 
 	    if (nelnodes_sum + nelnodes_cur_sum > nelnodes_alloc) {
 	      nelnodes_alloc = 1.5*(nelnodes_alloc + nelnodes_cur_sum);
@@ -956,6 +960,7 @@ extern "C" {
 	  MSet_Add(matset[ib], mr);
 	  MEnt_Set_AttVal(mr, elblockatt, b, 0.0, NULL);
 	}
+	free(mfaces);
       }
     
 
@@ -1815,7 +1820,7 @@ extern "C" {
 		  }
 
 		  for (int j = 0; j < nelems_cur; j++) {
-		    double *pval = malloc(ncomp*sizeof(double)); // freed by MESH_Delete
+		    double *pval = malloc(ncomp*sizeof(double));
 		    for (int k = 0; k < ncomp; k++)
 		      pval[k] = elem_var_vals[k][ibeg+j];
 
@@ -1824,7 +1829,8 @@ extern "C" {
 		      MESH_RegionFromID(mesh,localid) :
 		      MESH_FaceFromID(mesh,localid);
 		
-		    MEnt_Set_AttVal(ment,mattrib,0,0.0,pval);
+		    MEnt_Set_AttVal(ment,mattrib,0,0.0,pval); // makes a copy
+		    free(pval);
 		  }
 		}
 	      }
@@ -2004,11 +2010,12 @@ extern "C" {
 
               for (int j = 0; j < nnodes_cur; j++) {
                 int localid = global2local_node_map[begnode+j]-1;
-                double *pval = malloc(ncomp*sizeof(double)); // freed by MESH_DELETE
+                double *pval = malloc(ncomp*sizeof(double));
                 for (int k = 0; k < ncomp; k++)
                   pval[k] = node_var_vals[k][ibeg+j];
                 MEntity_ptr ment = MESH_Vertex(mesh, localid);
-                MEnt_Set_AttVal(ment,mattrib,0,0.0,pval);
+                MEnt_Set_AttVal(ment,mattrib,0,0.0,pval); // makes a copy
+                free(pval);
               }
 
               ibeg = iend+1;
@@ -2069,6 +2076,32 @@ extern "C" {
     for (int i = 0; i < nelblock_total; i++) free(elblock_names[i]);
     free(elblock_names);
     free(elblock_nelems);
+    free(elblock_min);
+    free(elblock_max);
+    free(elblock_type);
+    free(elblock_itype);
+    free(elblock_nelnodes);
+    free(elblock_neledges);
+    free(elblock_nelfaces);
+    free(elblock_natts);
+    free(matset);
+    free(elem_blockidx);
+    free(global2local_elem_map);
+    free(local2global_elem_map);
+    free(nelfaces);
+    free(elfaces);
+    free(faces2read);
+    free(nfnodes);
+    free(fnodes);
+    free(nelnodes);
+    free(elnodes);
+    free(nodes2read);
+    free(mverts);
+    free(global2local_node_map);
+    free(local2global_node_map);
+    free(xvals);
+    free(yvals);
+    free(zvals);
     
     return 1;
   }
-- 
2.43.0


From f8528d325660c54349117571ee68bb61ce310e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 095/126] fix: Exodus II reader kept copies of vector values

---
 src/io/MESH_ReadExodusII_Serial.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index a762322..67daa7a 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -2017,14 +2017,15 @@ extern "C" {
               }
 
               for (k = 0; k < nel_in_blk[i]; k++) {
-                double *pval = malloc(ncomp*sizeof(double)); // freed by MESH_Delete
+                double *pval = malloc(ncomp*sizeof(double));
                 for (j = 0; j < ncomp; j++)
                   pval[j] = elem_var_vals[j][k];
                 MEntity_ptr ment = solid_elems ? MESH_Region(mesh,elid) :
                     MESH_Face(mesh,elid);
                 elid++;
 
-                MEnt_Set_AttVal(ment,mattrib,0,0.0,pval);
+                MEnt_Set_AttVal(ment,mattrib,0,0.0,pval); // makes a copy
+                free(pval);
               }
 
             } // for each element block
@@ -2207,11 +2208,12 @@ extern "C" {
             }
 
             for (k = 0; k < nnodes; k++) {
-              double *pval = malloc(ncomp*sizeof(double)); // freed by MESH_DELETE
+              double *pval = malloc(ncomp*sizeof(double));
               for (j = 0; j < ncomp; j++)
                 pval[j] = node_var_vals[j][k];
               MEntity_ptr ment = MESH_Vertex(mesh,k);
-              MEnt_Set_AttVal(ment,mattrib,0,0.0,pval);
+              MEnt_Set_AttVal(ment,mattrib,0,0.0,pval); // makes a copy
+              free(pval);
             }
 
             for (j = 0; j < ncomp; j++)
-- 
2.43.0


From a27a08f7341d67dadbbcbe96c8a247e5869c2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 096/126] fix: splitting a face kept its edges and directions

---
 src/mod/MF_Split_with_Edge.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mod/MF_Split_with_Edge.c b/src/mod/MF_Split_with_Edge.c
index f5497f8..f575b9a 100644
--- a/src/mod/MF_Split_with_Edge.c
+++ b/src/mod/MF_Split_with_Edge.c
@@ -140,6 +140,8 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   MF_Set_GEntID(fnew[1],gid);
 
 
+  List_Delete(felist);
+  free(fedirs);
   free(fedges0);
   free(fedirs0);
   free(fedges1);
-- 
2.43.0


From 417634b24dbedf631fe7e61f33596c84f5c49f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 097/126] fix: copying vector attributes to submeshes leaked
 every value

---
 src/par/MESH_CopyAttr.c | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index de2f574..22f82d8 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -100,12 +100,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (atttype == VECTOR || atttype == TENSOR) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? pval : NULL;
 
         Mesh_ptr entmesh = MEnt_Mesh(lmv);
         for (i = 0; i < num; i++)
@@ -141,12 +136,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (atttype == VECTOR || atttype == TENSOR) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? pval : NULL;
 
         Mesh_ptr entmesh = MEnt_Mesh(lme);
         for (i = 0; i < num; i++)
@@ -182,12 +172,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (atttype == VECTOR || atttype == TENSOR) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? pval : NULL;
 
         Mesh_ptr entmesh = MEnt_Mesh(lmf);
         for (i = 0; i < num; i++)
@@ -224,12 +209,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (atttype == VECTOR || atttype == TENSOR) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? pval : NULL;
 
         Mesh_ptr entmesh = MEnt_Mesh(lmr);
         for (i = 0; i < num; i++)
-- 
2.43.0


From c8d717e63f247b1ccba0a42bb0c372d0de227960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 098/126] fix: adding ghosts leaked the request array when
 nothing was sent

---
 src/par/MESH_Parallel_AddGhost.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Parallel_AddGhost.c b/src/par/MESH_Parallel_AddGhost.c
index f951b78..1027fc1 100644
--- a/src/par/MESH_Parallel_AddGhost.c
+++ b/src/par/MESH_Parallel_AddGhost.c
@@ -128,12 +128,12 @@ extern "C" {
 
     if (MPI_Waitall(numreq,requests,MPI_STATUSES_IGNORE) != MPI_SUCCESS)
       MSTK_Report("MSTK_Mesh_Distribute","Problem distributing mesh",MSTK_FATAL);
-    if (numreq) free(requests);
+    free(requests);
   
     /* free all the memory allocated in sendmesh routines */
     int p;
     for (p = 0; p < numptrs2free; ++p) free(ptrs2free[p]);
-    if (numptrs2free) free(ptrs2free);
+    free(ptrs2free);
   
 
     /* install the recv_meshes */
@@ -222,12 +222,12 @@ extern "C" {
 
     if (MPI_Waitall(numreq,requests,MPI_STATUSES_IGNORE) != MPI_SUCCESS)
       MSTK_Report("MSTK_Mesh_Distribute","Problem distributing mesh",MSTK_FATAL);
-    if (numreq) free(requests);
+    free(requests);
   
     /* free all the memory allocated in sendmesh routines */
     int p;
     for (p = 0; p < numptrs2free; ++p) free(ptrs2free[p]);
-    if (numptrs2free) free(ptrs2free);
+    free(ptrs2free);
 
   
     /* concatenate the recv_meshes */
-- 
2.43.0


From 965d2d841814b1673b68aff00a360f9e3fd52387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 099/126] fix: parallel check kept the regions of shared faces

---
 src/par/MESH_Parallel_Check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..eb7d9c1 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -586,6 +586,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
                   "OWNED face %d (GID %d) on proc %d not connected to any OWNED regions. Potential problem\n", MF_ID(mf), MF_GlobalID(mf), rank);
           MSTK_Report("MESH_Parallel_Check_FaceGlobalID", mesg, MSTK_WARN);
         }
+        List_Delete(fregs);
       }
     }
   }
-- 
2.43.0


From 58fd28f20e6ed66b75bdc5379e762ce7cbad35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 100/126] fix: receiving vector attributes leaked every value

---
 src/par/MESH_Recv_Attribute.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index 3a7204d..00b4db4 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -142,6 +142,10 @@ extern "C" {
     if (nullval) continue; /* Don't waste time initializing to zero */
 
     MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+    if (rval_arr) {  /* values were copied */
+      free(rval_arr);
+      rval_arr = NULL;
+    }
   }
   
    free(list_info);
-- 
2.43.0


From 1defef0775f6c386bf6821a994d4e8ae4e959633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 101/126] fix: lock count of edges and faces of R2 and R4 never
 initialised

---
 src/base/MEdge_R2.c | 1 +
 src/base/MEdge_R4.c | 1 +
 src/base/MFace_R2.c | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/base/MEdge_R2.c b/src/base/MEdge_R2.c
index 3cbf036..83e67af 100644
--- a/src/base/MEdge_R2.c
+++ b/src/base/MEdge_R2.c
@@ -22,6 +22,7 @@ extern "C" {
 
     adj = e->adj = (MEdge_Adj_RN *) malloc(sizeof(MEdge_Adj_RN));
     adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void ME_Delete_R2(MEdge_ptr e, int keep) {
diff --git a/src/base/MEdge_R4.c b/src/base/MEdge_R4.c
index e2afa92..87ca03e 100644
--- a/src/base/MEdge_R4.c
+++ b/src/base/MEdge_R4.c
@@ -22,6 +22,7 @@ extern "C" {
 
     adj = e->adj = (MEdge_Adj_RN *) malloc(sizeof(MEdge_Adj_RN));
     adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void ME_Delete_R4(MEdge_ptr e, int keep) {
diff --git a/src/base/MFace_R2.c b/src/base/MFace_R2.c
index 1421723..41cc1d8 100644
--- a/src/base/MFace_R2.c
+++ b/src/base/MFace_R2.c
@@ -22,6 +22,8 @@ extern "C" {
 
     adj = f->adj = (MFace_Adj_R2 *) malloc(sizeof(MFace_Adj_R2));
     adj->fvertices = NULL;
+    adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void MF_Delete_R2(MFace_ptr f, int keep) {
-- 
2.43.0


From cc6af1243a2b14e7305ca2582e4940ce3d85833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 102/126] fix: topology checker skips the second vertex of
 boundary edges

---
 src/hilev/MESH_CheckTopo.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..6889e7b 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -329,8 +329,8 @@ extern "C" {
 	  }
 
 	  nfr = List_Num_Entries(fregs);
-	  for (i = 0; i < nfr; i++) {
-	    rcur = List_Entry(fregs,i);
+	  for (k = 0; k < nfr; k++) {
+	    rcur = List_Entry(fregs,k);
 	  
 	    rfaces = MR_Faces(rcur);
 	    idx3 = 0;
@@ -405,7 +405,7 @@ extern "C" {
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	      valid = 0;
 	    }
-	  } /* for (i = 0; i < nfr; i++) */
+	  } /* for (k = 0; k < nfr; k++) */
           List_Delete(fregs);
 
 	} /* if (geid == 2) */
-- 
2.43.0


From aa79ac65b8644c01e51da81a350cafa46063097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 103/126] fix: topology checker accepts meshes it reports
 errors for

---
 src/hilev/MESH_CheckTopo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index 6889e7b..3f4e5d2 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -183,6 +183,7 @@ extern "C" {
           else {
             sprintf(mesg,"Could not find next edge while traversing around vertex %-d on model face %-d",vid,gvid);
             MSTK_Report(funcname,mesg,MSTK_ERROR);
+            valid = 0;
           }
 
 	  List_Delete(fedges);
@@ -240,6 +241,7 @@ extern "C" {
       if (ME_Vertex(me,0) == ME_Vertex(me,1)) {
         sprintf(mesg,"Edge %-d has repeated vertices",eid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       for (i = 0; i < 2; i++) {
@@ -443,6 +445,7 @@ extern "C" {
       if (List_Num_Entries(fedges) < 3) {
         sprintf(mesg,"Face %-d has less than 3 edges",fid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       idx2 = 0;
@@ -521,6 +524,7 @@ extern "C" {
       if (nrf < 4) {
         sprintf(mesg,"Region %-d has less than 4 faces",rid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       /* Check that face to region and region to face links are consistent
-- 
2.43.0


From c76b99e79671036b2c48a2a0a5b2b0ccaf43ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 104/126] fix: topology checker crashes on meshes with broken
 adjacencies

---
 src/hilev/MESH_CheckTopo.c | 90 ++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 29 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index 3f4e5d2..3b3d8b6 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -16,6 +16,25 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 extern "C" {
 #endif
 
+  /* Edges by which a face leaves and reaches a vertex (NULL if there is none) */
+
+  static void face_edges_at_vertex(MFace_ptr mf, MVertex_ptr mv,
+                                   MEdge_ptr *eout, MEdge_ptr *ein) {
+    int i = 0, idx = 0;
+    MEdge_ptr fe;
+    List_ptr fedges = MF_Edges(mf,1,0);
+
+    *eout = *ein = NULL;
+    while ((fe = List_Next_Entry(fedges,&idx))) {
+      int dir = MF_EdgeDir_i(mf,i);
+      if (!*eout && ME_Vertex(fe,!dir) == mv) *eout = fe;
+      if (!*ein && ME_Vertex(fe,dir) == mv) *ein = fe;
+      i++;
+    }
+    List_Delete(fedges);
+  }
+
+
   /* Routine to check that the topological structure of the mesh is valid */
   /* Rao Garimella - 12/16/2010                                           */
 
@@ -114,7 +133,7 @@ extern "C" {
 
 
       if (gvdim == 2) {
-	MEdge_ptr e0, ecur, enxt;
+	MEdge_ptr e0, ecur, enxt, eout, ein;
 	MFace_ptr fcur;
         int flipped = 0;
 
@@ -126,28 +145,30 @@ extern "C" {
 
 	found = 0;
 	idx2 = 0;
-	while ((vf = List_Next_Entry(vfaces,&idx2))) {
+	while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
 	  if (MF_GEntDim(vf) == 2) {
 	    found = 1;
 	    break;
 	  }
 	}
-        List_Delete(vfaces);
+        if (vfaces) List_Delete(vfaces);
 
 	if (!found) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
 	  valid = 0;
+	  continue;
 	}
 
 	fcur = vf;
 
-	fedges = MF_Edges(fcur,1,mv);
-	nfe = List_Num_Entries(fedges);
-	e0 = List_Entry(fedges,0);
-	ecur = e0;
-	enxt = List_Entry(fedges,nfe-1);
-	List_Delete(fedges);
+	face_edges_at_vertex(fcur,mv,&e0,&enxt);
+	if (!e0 || !enxt) {
+	  sprintf(mesg,"Vertex %-d connected to face %-d but the face's edges do not meet at it",vid,MF_ID(fcur));
+	  MSTK_Report(funcname,mesg,MSTK_ERROR);
+	  valid = 0;
+	  continue;
+	}
 	
 	done = 0; i = 0;
 	while (!done) {
@@ -155,14 +176,14 @@ extern "C" {
 	  efaces = ME_Faces(ecur);
 	  found = 0;
 	  idx3 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx3))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx3))) {
 	    if (ef != fcur && MF_GEntDim(ef) == 2 && MF_GEntID(ef) == gvid) {
 	      fcur = ef;
 	      found = 1;
 	      break;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (!found) {
 	    sprintf(mesg,"Could not find next boundary face connected to vertex %-d",vid);
@@ -171,23 +192,24 @@ extern "C" {
 	    break;
 	  }
 	   
-	  fedges = MF_Edges(fcur,1,mv);
-	  nfe = List_Num_Entries(fedges);
+	  face_edges_at_vertex(fcur,mv,&eout,&ein);
 
-          if (List_Entry(fedges,0) == ecur)
-            enxt = List_Entry(fedges,nfe-1);
-          else if (List_Entry(fedges,nfe-1) == ecur) {
-            enxt = List_Entry(fedges,0);
+          if (eout == ecur)
+            enxt = ein;
+          else if (ein == ecur) {
+            enxt = eout;
             flipped = 1;
           }
-          else {
+          else
+            enxt = NULL;
+
+          if (!enxt) {
             sprintf(mesg,"Could not find next edge while traversing around vertex %-d on model face %-d",vid,gvid);
             MSTK_Report(funcname,mesg,MSTK_ERROR);
             valid = 0;
+            break;
           }
 
-	  List_Delete(fedges);
-
 	  if (enxt == e0)
 	    done = 1;
 
@@ -202,7 +224,7 @@ extern "C" {
 
         if (done && flipped) {
           List_ptr fregs = MF_Regions(fcur);
-          if (List_Num_Entries(fregs) < 2) {
+          if (fregs && List_Num_Entries(fregs) < 2) {
             sprintf(mesg,"Inconsistent orientations of boundary faces around vertex %-d",vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
           }
@@ -265,12 +287,12 @@ extern "C" {
         }
 
 	vedges = MV_Edges(ev);
-	if (!List_Contains(vedges,me)) {
+	if (!vedges || !List_Contains(vedges,me)) {
 	  sprintf(mesg,"Edge %-d sees vertex %-d but not vice versa",eid,vid);
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(vedges);
+	if (vedges) List_Delete(vedges);
 
 	if (gedim == 2) {
 	  MFace_ptr ebf[2], fcur, fnxt;
@@ -286,7 +308,7 @@ extern "C" {
 	  nf = 0;
 	  efaces = ME_Faces(me);
 	  idx2 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx2))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
 	    fid = MF_ID(ef);
 
 	    if (MF_GEntDim(ef) == 2) {
@@ -303,12 +325,13 @@ extern "C" {
 		ebf[1] = ef;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (nf != 2) {
 	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 
@@ -328,6 +351,7 @@ extern "C" {
 	    sprintf(mesg,"Edge %-d connected to regions but face %-d is not",eid,fid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 	  nfr = List_Num_Entries(fregs);
@@ -349,6 +373,9 @@ extern "C" {
 	    if (!found) {
 	      rid = MR_ID(rcur);
 	      sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	      valid = 0;
+	      continue;
 	    }
 	    
 	    
@@ -364,14 +391,15 @@ extern "C" {
 	      
 	      fregs1 = MF_Regions(fcur);
 	      idx3 = 0;
-	      while ((fr = List_Next_Entry(fregs1,&idx3))) {
+	      found = 0;
+	      while (fregs1 && (fr = List_Next_Entry(fregs1,&idx3))) {
 		if (fr != rcur) {
 		  rcur = fr;
 		  found = 1;
 		  break;
 		}
 	      }
-	      List_Delete(fregs1);
+	      if (fregs1) List_Delete(fregs1);
 
 	      if (!found) {
 		sprintf(mesg,"Could not find next region around edge %-d",eid);
@@ -396,6 +424,9 @@ extern "C" {
 	      if (!found) {
 		rid = MR_ID(rcur);
 		sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+		MSTK_Report(funcname,mesg,MSTK_ERROR);
+		valid = 0;
+		break;
 	      }
 	      
 	      if (++j > maxiter)
@@ -467,12 +498,12 @@ extern "C" {
         }
 
 	efaces = ME_Faces(fe);
-	if (!List_Contains(efaces,mf)) {
+	if (!efaces || !List_Contains(efaces,mf)) {
 	  sprintf(mesg,"Face %-d refers to edge %-d but not vice versa",fid,ME_ID(fe));
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
       List_Delete(fedges);
       
@@ -574,6 +605,7 @@ extern "C" {
             sprintf(mesg,"Cannot find another face in region %-d sharing edge %-d (ID = %-d) of face with ID = %-d",MR_ID(mr),j,ME_ID(fe),MF_ID(rf));
             MSTK_Report(funcname,mesg,MSTK_ERROR);
             valid = 0;
+            continue;
           }
           
           int fedir_adj = MF_EdgeDir(rf2,fe);
-- 
2.43.0


From 24423561014735b0e378d97b7075b1884d9a135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 105/126] fix: undefined shifts with 32 markers

---
 src/base/MEntity.c |  6 +++---
 src/base/MSTK.c    | 13 +++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/base/MEntity.c b/src/base/MEntity.c
index 939fcd3..195714f 100644
--- a/src/base/MEntity.c
+++ b/src/base/MEntity.c
@@ -256,7 +256,7 @@ extern "C" {
 
 
   int MEnt_IsMarked(MEntity_ptr ent, int markerID) {
-    return (ent->entdat.marker & 1<<(markerID-1));
+    return (ent->entdat.marker & 1u<<(markerID-1)) != 0;
   }
 
   void MEnt_Mark(MEntity_ptr ent, int markerID) {
@@ -270,7 +270,7 @@ extern "C" {
     pthread_mutex_lock(&marker_lock);
 #endif
 
-    ent->entdat.marker = ent->entdat.marker | 1<<(markerID-1);
+    ent->entdat.marker = ent->entdat.marker | 1u<<(markerID-1);
 
 #ifdef MSTK_USE_MARKERS
     pthread_mutex_unlock(&marker_lock);
@@ -288,7 +288,7 @@ extern "C" {
     pthread_mutex_lock(&marker_lock);
 #endif
 
-    ent->entdat.marker = ent->entdat.marker & ~(1<<(markerID-1));
+    ent->entdat.marker = ent->entdat.marker & ~(1u<<(markerID-1));
 
 #ifdef MSTK_USE_MARKERS
     pthread_mutex_unlock(&marker_lock);
diff --git a/src/base/MSTK.c b/src/base/MSTK.c
index ee62ba9..b79c8eb 100644
--- a/src/base/MSTK.c
+++ b/src/base/MSTK.c
@@ -85,7 +85,7 @@ extern "C" {
     
     if (MSTK_lastbit < MSTK_MAXBITS-1) {      
       MSTK_lastbit++;
-      MSTK_marker = MSTK_marker | 1<<MSTK_lastbit;
+      MSTK_marker = MSTK_marker | 1u<<MSTK_lastbit;
       
       /* lastbit goes from 0 to N-1, markers from 1 to N */
       marker = MSTK_lastbit+1;
@@ -94,10 +94,10 @@ extern "C" {
       /* Search if any other bit is free */
       i = 0;
       while (i <= MSTK_MAXBITS-1) {
-	if (MSTK_marker & 1<<i)
+	if (MSTK_marker & 1u<<i)
 	  i++;
 	else {
-	  MSTK_marker = MSTK_marker | 1<<i;
+	  MSTK_marker = MSTK_marker | 1u<<i;
 	  marker = i+1;
           break;
 	}
@@ -119,11 +119,12 @@ extern "C" {
       MSTK_Report("MSTK_FreeMarker","Invalid Marker",MSTK_ERROR);
 #endif
 
-    MSTK_marker = MSTK_marker & ~(1<<(mkr-1));
+    MSTK_marker = MSTK_marker & ~(1u<<(mkr-1));
     if (mkr-1 == MSTK_lastbit)
       MSTK_lastbit--;
 
-    if (MSTK_marker != (int) pow(2,MSTK_lastbit+1)-1) {
+    if (MSTK_lastbit == MSTK_MAXBITS-1 ||
+        MSTK_marker != (1u<<(MSTK_lastbit+1))-1) {
 
       /* Check what the last free bit is - may not be the one that was
          just freed if multiple markers were allocated and freed in
@@ -132,7 +133,7 @@ extern "C" {
       MSTK_lastbit = -1;
       int i = 0;       
       while (i <= MSTK_MAXBITS-1) {
-        if (MSTK_marker & 1<<i)
+        if (MSTK_marker & 1u<<i)
           MSTK_lastbit = i;
         i++;
       }
-- 
2.43.0


From 49a8aef213f7812105bf39f03c2d2945a664e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 106/126] fix: Exodus II export without a communicator leaves
 marker and marks behind

---
 src/io/MESH_ExportToExodusII.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 4711a15..31730f3 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1697,25 +1697,21 @@ extern "C" {
     }
       
 
-#ifdef MSTK_HAVE_MPI
-    if (comm) {
 #ifdef MSTK_USE_MARKERS
-      idx = 0;
-      while ((mr = MESH_Next_Region(mesh,&idx)))
-        MEnt_Unmark(mr,ownedmk);
-      idx = 0;
-      while ((mf = MESH_Next_Face(mesh,&idx)))
-        MEnt_Unmark(mf,ownedmk);
-      idx = 0;
-      while ((me = MESH_Next_Edge(mesh,&idx)))
-        MEnt_Unmark(me,ownedmk);
-      idx = 0;
-      while ((mv = MESH_Next_Vertex(mesh,&idx)))
-        MEnt_Unmark(mv,ownedmk);
-      
-      MSTK_FreeMarker(ownedmk);
-#endif
-    }
+    idx = 0;
+    while ((mr = MESH_Next_Region(mesh,&idx)))
+      MEnt_Unmark(mr,ownedmk);
+    idx = 0;
+    while ((mf = MESH_Next_Face(mesh,&idx)))
+      MEnt_Unmark(mf,ownedmk);
+    idx = 0;
+    while ((me = MESH_Next_Edge(mesh,&idx)))
+      MEnt_Unmark(me,ownedmk);
+    idx = 0;
+    while ((mv = MESH_Next_Vertex(mesh,&idx)))
+      MEnt_Unmark(mv,ownedmk);
+
+    MSTK_FreeMarker(ownedmk);
 #endif
 
 #ifndef MSTK_USE_MARKERS
-- 
2.43.0


From 4956248cab4e6fd7eb044b21c06ce72ab2bef59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 107/126] fix: marker or attribute left behind by reading part
 of a 2D Exodus II file

---
 src/io/MESH_ReadExodusII_Partial.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 17409b2..a1fe5a3 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -266,11 +266,6 @@ extern "C" {
     /* Gather info needed for any polyhedral elements */
 
     int reliable_rfdirs = -1;
-#ifdef MSTK_USE_MARKERS
-      reliable_rfdirs = MSTK_GetMarker();  /* region knows its face dirs? */
-#else
-      dirflagatt = MAttrib_New(mesh, "dirflagatt", INT, MREGION);
-#endif
       
     
     if (ndim == 3 && nfaceblock_total) {
@@ -760,6 +755,12 @@ extern "C" {
 
     } else {  /* ndim == 3 */
 
+#ifdef MSTK_USE_MARKERS
+      reliable_rfdirs = MSTK_GetMarker();  /* region knows its face dirs? */
+#else
+      dirflagatt = MAttrib_New(mesh, "dirflagatt", INT, MREGION);
+#endif
+
       if (mesh_type == 1) {  /* surface mesh */
 
 	for (int e = 0; e < nelems; e++) {
-- 
2.43.0


From d66de7a14b660b987b81b81a1d5177c6cb92c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 108/126] fix: threads reporting at the same time share
 MSTK_Report's last message

---
 src/util/MSTK_Report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/MSTK_Report.c b/src/util/MSTK_Report.c
index dd846a6..3ec626e 100644
--- a/src/util/MSTK_Report.c
+++ b/src/util/MSTK_Report.c
@@ -16,7 +16,8 @@ extern "C" {
 #endif
 
   void MSTK_Report(const char *funcname, const char *message, ErrType type) {
-    static char last_message[1024];
+    static __thread char last_message[1024]; /* threads may report at the same
+                                                time */
     int len;
 
     if (strcmp(last_message,message) == 0)
-- 
2.43.0


From 32004c90c45c0c7e3e075a46b3126f454456c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 109/126] fix: threads exporting GMV files share localtime's
 result

---
 src/io/MESH_ExportToGMV.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index fdb3dbf..caa676f 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -6,6 +6,10 @@ the root of this repository or at
 https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 */
 
+#ifndef _POSIX_C_SOURCE
+#define _POSIX_C_SOURCE 200809L  /* for localtime_r */
+#endif
+
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -75,6 +79,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   void                 *pval;
   FILE		        *fp;
   time_t                ctime;
+  struct tm             cdate;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
 					 {4,0,1,2,3,-1,-1,-1},
@@ -114,7 +119,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   fprintf(fp,"codename MSTK_V_1.4\n");
   ctime = time(&ctime);
-  strftime(date_str,sizeof(date_str),"%m/%d/%Y",localtime(&ctime));
+  strftime(date_str,sizeof(date_str),"%m/%d/%Y",localtime_r(&ctime,&cdate));
   fprintf(fp,"simdate %s\n",date_str);
 
 
-- 
2.43.0


From b2532d007d4fdc398e67b3e1805898ce8f2f1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 110/126] fix: meshconvert does not know the STL and DX formats
 it documents

---
 utils/meshconvert/src/meshconvert.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index d817bed..14b2668 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -42,6 +42,10 @@ MshFmt getFormat(char *filename) {
     return CGNS;
   else if (len > 4 && strncmp(&(filename[len-4]),".off",4) == 0)
     return OFF;
+  else if (len > 4 && strncmp(&(filename[len-4]),".stl",4) == 0)
+    return STL;
+  else if (len > 3 && strncmp(&(filename[len-3]),".dx",3) == 0)
+    return DX;
   else {
     fprintf(stderr,"Unrecognized mesh format\n");
     fprintf(stderr,"Recognized mesh formats for import: MSTK, GMV, ExodusII, NemesisI\n");
-- 
2.43.0


From 6367a839154aab1fc554b0e5e694f3171704421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 111/126] fix: exoatt writes none of the attributes it was
 given

---
 utils/exoatt/src/exoatt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index c2c7e67..1c9c8f5 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -206,7 +206,7 @@ int main(int argc, char *argv[]) {
 #endif
 
   fprintf(stderr,"\nExporting mesh to ExodusII format...");
-  ok = MESH_ExportToFile(mesh,outfname,"exodusii",-1,NULL,NULL,comm);
+  ok = MESH_ExportToFile(mesh,outfname,"exodusii",0,NULL,NULL,comm);
 
   if (ok)
     fprintf(stderr,"Done\n");
-- 
2.43.0


From 350065e6179fd121debfc01d7938cb6dceed929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 112/126] fix: MVs_CommonFace misses a face whose vertices are
 not given in order

---
 src/base/MFace.c | 66 +++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/base/MFace.c b/src/base/MFace.c
index 1782da4..c4cdb72 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -368,55 +368,59 @@ extern "C" {
 
   MFace_ptr MVs_CommonFace(int nv, MVertex_ptr *fverts) {
     MFace_ptr common_face = NULL, eface;
-    int i, j;
+    int i, j, m;
     int nef0, contains_all;
     List_ptr efaces0, fvtxlist;
 
-    MEdge_ptr edge0 = MVs_CommonEdge(fverts[0],fverts[1]);
-    if (!edge0)
-      return NULL;
+    /* If the vertices are given in order around the face, the first
+       and the second are connected by an edge of the face. Otherwise,
+       the first is connected to one of the others */
 
-    efaces0 = ME_Faces(edge0);
-    if (!efaces0)
-      return NULL;
+    for (m = 1; m < nv && !common_face; m++) {
+      MEdge_ptr edge0 = MVs_CommonEdge(fverts[0],fverts[m]);
+      if (!edge0)
+        continue;
 
-    nef0 = List_Num_Entries(efaces0);
+      efaces0 = ME_Faces(edge0);
+      if (!efaces0)
+        continue;
+
+      nef0 = List_Num_Entries(efaces0);
     
-    for (i = 0; i < nef0; i++) {
-      eface = List_Entry(efaces0,i);
-      int nfv = MF_Num_Vertices(eface);
+      for (i = 0; i < nef0; i++) {
+        eface = List_Entry(efaces0,i);
+        int nfv = MF_Num_Vertices(eface);
 
-      if (nfv != nv) continue;
+        if (nfv != nv) continue;
 
-      fvtxlist = MF_Vertices(eface,1,0);
+        fvtxlist = MF_Vertices(eface,1,0);
 
-      contains_all = 1;
-      for (j = 0; j < nv; j++) {
-        MVertex_ptr vtx = List_Entry(fvtxlist,j);
+        contains_all = 1;
+        for (j = 0; j < nv; j++) {
+          MVertex_ptr vtx = List_Entry(fvtxlist,j);
 
-        if (vtx == fverts[0] || vtx == fverts[1]) continue;
+          int k, found = 0;
+          for (k = 0; k < nv; k++)
+            if (vtx == fverts[k]) {
+              found = 1;
+              break;
+            }
 
-        int k, found = 0;
-        for (k = 2; k < nv; k++)
-          if (vtx == fverts[k]) {
-            found = 1;
+          if (!found) {
+            contains_all = 0;
             break;
           }
+        }  
+    
+        List_Delete(fvtxlist);
 
-        if (!found) {
-          contains_all = 0;
+        if (contains_all) {
+          common_face = eface;
           break;
         }
-      }  
-    
-      List_Delete(fvtxlist);
-
-      if (contains_all) {
-	common_face = eface;
-	break;
       }
+      List_Delete(efaces0);
     }
-    List_Delete(efaces0);
 
     return common_face;
   }
-- 
2.43.0


From 45bf4c3406d3c6f86c1694c2c256231220050538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 113/126] fix: edges made on demand in R2 cannot be deleted and
 leak

---
 src/base/MEdge_R2.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/MEdge_R2.c b/src/base/MEdge_R2.c
index 83e67af..bc9a6d5 100644
--- a/src/base/MEdge_R2.c
+++ b/src/base/MEdge_R2.c
@@ -26,6 +26,15 @@ extern "C" {
   }
 
   void ME_Delete_R2(MEdge_ptr e, int keep) {
+    MEdge_Adj_RN *adj;
+
+    if (!keep) {
+      adj = (MEdge_Adj_RN *) e->adj;
+      if (adj) {
+	free(adj);
+      }
+      MEnt_Set_DelFlag((MEntity_ptr) e);
+    }
     return;
   }
 
-- 
2.43.0


From 104e19f5d0c9d52bfb38950300a61aa546194e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 114/126] fix: edges made on demand in R4 cannot be deleted and
 leak

---
 src/base/MEdge_R4.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base/MEdge_R4.c b/src/base/MEdge_R4.c
index 87ca03e..e55496d 100644
--- a/src/base/MEdge_R4.c
+++ b/src/base/MEdge_R4.c
@@ -26,8 +26,17 @@ extern "C" {
   }
 
   void ME_Delete_R4(MEdge_ptr e, int keep) {
+    MEdge_Adj_RN *adj;
+
+    if (!keep) {
+      adj = (MEdge_Adj_RN *) e->adj;
+      if (adj) {
+	free(adj);
+      }
+      MEnt_Set_DelFlag((MEntity_ptr) e);
+    }
     return;
- }
+  }
 
   void ME_Destroy_For_MESH_Delete_R4(MEdge_ptr e) {
     return;
-- 
2.43.0


From f073c79a2fb9ff800e55ae769d632a872e75ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 115/126] fix: edges of tets and hexes in R4 stay locked
 without automatic locking

---
 src/base/MR_Edge_Funcs_R3R4.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_R3R4.c b/src/base/MR_Edge_Funcs_R3R4.c
index e70dc8d..0613015 100644
--- a/src/base/MR_Edge_Funcs_R3R4.c
+++ b/src/base/MR_Edge_Funcs_R3R4.c
@@ -17,7 +17,23 @@ extern "C" {
 #endif
 
 
+  /* Unlock the edges which were added to (and locked for) the list of
+     edges of a region, beginning with edge n0, unless the mesh has
+     automatic locking (the ones before have been taken care of by
+     MF_Edges) */
+
+  static void unlock_added_edges(Mesh_ptr mesh, List_ptr redges, int n0) {
+    int i, n;
+
+    if (MESH_AutoLock(mesh)) return;
+
+    n = List_Num_Entries(redges);
+    for (i = n0; i < n; i++)
+      ME_UnLock(List_Entry(redges,i));
+  }
+
   List_ptr MR_Edges_R3R4(MRegion_ptr r) {
+    int nfedges;
     int i, j, idx, n, fdir, fecheck, nf, nfv, found;
     MFace_ptr face;
     MEdge_ptr edge;
@@ -135,6 +151,7 @@ extern "C" {
       }
       List_Delete(fverts);
       
+      unlock_added_edges(mesh,redges,3);
       return redges;
       break;
     case 6: /* Hex ? */
@@ -211,6 +228,7 @@ extern "C" {
 	List_Delete(fverts);
       }
 
+      unlock_added_edges(mesh,redges,4);
       return redges;
       break;
     default:
@@ -225,6 +243,7 @@ extern "C" {
     fdir = adj->fdirs[0] & 1;   /* Sense in which face is used in region */
     
     redges = MF_Edges(face,!fdir,0);
+    nfedges = List_Num_Entries(redges);
     
     for (i = 1; i < nf-1; i++) {
       face = List_Entry(adj->rfaces,i);
@@ -280,12 +299,8 @@ extern "C" {
 
     }
     
-    if (!MESH_AutoLock(mesh)) {
-       i = 0;
-       while ((edge = List_Next_Entry(redges, &i))) {
-	 ME_UnLock(edge);
-       }
-    }
+    unlock_added_edges(mesh,redges,nfedges);
+
     return redges;
   }
 
-- 
2.43.0


From 2e85782f2dbde3fd4dfe73ced5ddef6f33ddcb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 116/126] fix: memory leaks when joining two regions is refused

---
 src/mod/MRs_Join.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mod/MRs_Join.c b/src/mod/MRs_Join.c
index de4bf8b..e0bd23d 100644
--- a/src/mod/MRs_Join.c
+++ b/src/mod/MRs_Join.c
@@ -42,6 +42,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
   if (fcmn) {
     if (!MR_UsesEntity(r1,fcmn,MFACE)) {
       MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+      List_Delete(rfaces2);
       return 0;
     }
   }
@@ -80,6 +81,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
 
   if (!found) {
     MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+    free(rf2); free(rfdir2);
     return 0;
   }
 
-- 
2.43.0


From e2e777970d2053c59fcab4609067bd88141df128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 117/126] fix: memory leak when merging two faces is refused

---
 src/mod/MFs_Merge_FN.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mod/MFs_Merge_FN.c b/src/mod/MFs_Merge_FN.c
index 1b58929..13baa67 100644
--- a/src/mod/MFs_Merge_FN.c
+++ b/src/mod/MFs_Merge_FN.c
@@ -64,6 +64,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
     MSTK_Report("MFs_Merge",
 		"To-be-merged faces have different number of edges",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
   
@@ -80,6 +82,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	MSTK_Report("MFs_Merge",
 		    "Edges of faces must be merged before merging faces",
 		    MSTK_ERROR);
+	List_Delete(fedges1);
+	List_Delete(fedges2);
 	return 0;
       }
     }
@@ -98,6 +102,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	MSTK_Report("MFs_Merge",
 		    "Edges of faces must be merged before merging faces",
 		    MSTK_ERROR);
+	List_Delete(fedges1);
+	List_Delete(fedges2);
 	return 0;
       }
     }
@@ -109,6 +115,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
     MSTK_Report("MFs_Merge",
 		"Edges of faces must be merged before merging faces",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
 
-- 
2.43.0


From 67cd3bf148225ab461e914982d7ae76b1b475993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 118/126] fix: faces that share only some of their edges are
 merged instead of refused

---
 src/mod/MFs_Merge_FN.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/mod/MFs_Merge_FN.c b/src/mod/MFs_Merge_FN.c
index 13baa67..6e4ac35 100644
--- a/src/mod/MFs_Merge_FN.c
+++ b/src/mod/MFs_Merge_FN.c
@@ -73,8 +73,6 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
   if (List_Entry(fedges1,0) == List_Entry(fedges2,0)) {
     dir = 1;
 
-#ifdef DEBUG  
-
     /* Full edge-by-edge check */
 
     for (i = 0; i < nfe1; i++) {
@@ -87,14 +85,11 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	return 0;
       }
     }
-#endif 
 
   }
   else if (List_Entry(fedges1,0) == List_Entry(fedges2,nfe1-1)) {
     dir = 0;
     
-#ifdef DEBUG  
-
     /* Full edge-by-edge check */
 
     for (i = 0; i < nfe1; i++) {
@@ -108,8 +103,6 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
       }
     }
 
-#endif 
-
   }
   else {
     MSTK_Report("MFs_Merge",
-- 
2.43.0


From 2432fd7d0e315d25698ca5bad1cae2df6f050f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 119/126] fix: replacing edges of a face garbles edge
 directions and order when edges get fewer, are listed backwards or span the
 start of the face

---
 src/base/MF_Edge_Funcs_F1F3.c | 134 +++++++++-------------------------
 1 file changed, 34 insertions(+), 100 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..d1df803 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -203,7 +203,9 @@ extern "C" {
     MFace_Adj_F1F3 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, k0, n, ne, *olddirs, *newdirs, rev;
+    unsigned long long edirs;
+    List_ptr fedges;
 
     adj = (MFace_Adj_F1F3 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -251,79 +253,29 @@ extern "C" {
 #endif
     }
 
-    /* Number of common edges */
-
-    ncom = nold < nnu ? nold : nnu;
-
+    /* Put the new edges in place of the old ones and move the other
+       edges along with their direction bits. If the old edges span the
+       start vertex of the face (i+nold > ne), the new ones come last */
 
-    /* Replace old edges with new ones (up to the common number of edges) */
-
-    for (j = 0; j < ncom; j++) {
-      k = (i+j)%ne; 
-      List_Replacei(adj->fedges,k,newedges[j]);		      
-      adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
+    k0 = (i+nold > ne) ? i+nold-ne : 0;
+    edirs = 0;
+    fedges = List_New(ne-nold+nnu);
+    for (k = k0, n = 0; k < i; k++, n++) {
+      List_Add(fedges,List_Entry(adj->fedges,k));
+      edirs |= ((adj->edirs>>k) & 1ULL)<<n;
     }
-
-
-
-    if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
-
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
-
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
-
-	
-	for (k = ne-1; k >= i+j; k--) {
-
-	  /* set bit k+1 to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
-
-	  /* get bit k */
-	  dir = (adj->edirs>>k) & 1UL;
-
-	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
-	}
-
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
-
-	ne++;
-      }
-
+    for (j = 0; j < nnu; j++, n++) {
+      List_Add(fedges,newedges[j]);
+      edirs |= ((unsigned long long) newdirs[j])<<n;
     }
-    else {
-      /* Delete the remaining old edges */
-
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
-	  /* set bit k to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<k);
-
-	  /* get bit k+1 */
-	  dir = (adj->edirs>>(k+1)) & 1UL;
-
-	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
-	}
-
-	ne--;
-      }
+    for (k = i+nold; k < ne; k++, n++) {
+      List_Add(fedges,List_Entry(adj->fedges,k));
+      edirs |= ((adj->edirs>>k) & 1ULL)<<n;
     }
-      
+    List_Delete(adj->fedges);
+    adj->fedges = fedges;
+    adj->edirs = edirs;
+
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
@@ -344,7 +296,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F1F3(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F1F3 *adj;
     MEdge_ptr fedge;
 
@@ -373,39 +325,21 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The first of the old edges is the one which does not come right
+       after another of them in the face (the edges may be listed in
+       either direction and span the start vertex of the face) */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      for (j = 0; j < nold; j++)
+	if ((eindex[j]+1)%ne == eindex[i])
+	  break;
+      if (j == nold) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F1F3(f, nold, istart, nnu, nuedges);
 
     free(eindex);
-- 
2.43.0


From 8c8196a5fb2dd90d5e9f393bdfb8b64d3c364c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 120/126] fix: removing or replacing edges of a face in F4
 garbles edge directions and leaves the regions of edges stale

---
 src/base/MF_Edge_Funcs_F2F4.c | 168 ++++++++++++++--------------------
 1 file changed, 67 insertions(+), 101 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..791b7e8 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -143,9 +143,10 @@ extern "C" {
 
   void MF_Rem_Edge_F2F4(MFace_ptr f, MEdge_ptr remedge) {
     int i, j, ne, eindex, found;
-    MFace_Adj_F1F3 *adj;
+    MFace_Adj_F2F4 *adj;
+    List_ptr fregs;
 
-    adj = (MFace_Adj_F1F3 *) f->adj;
+    adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
 
     if (ne == 0)
@@ -166,11 +167,16 @@ extern "C" {
     }
 
 
+    /* Regions are known to the edges of the face - find them now */
+
+    fregs = MF_Regions(f);
+
     List_Remi(adj->fedges,eindex);
 
     /* Move the remaining bits to the right */
-    int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    int k;
+    unsigned long long dir;
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -188,6 +194,15 @@ extern "C" {
 
     ME_Rem_Face(remedge,f);
 
+    if (fregs) {
+      MRegion_ptr fr;
+      int idx = 0;
+      while ((fr = List_Next_Entry(fregs,&idx)))
+	if (!MR_UsesEntity(fr,(MEntity_ptr) remedge,MEDGE))
+	  ME_Rem_Region(remedge,fr);
+      List_Delete(fregs);
+    }
+
   }
 
 
@@ -201,7 +216,10 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, k0, n, ne, *olddirs, *newdirs, rev;
+    unsigned long long edirs;
+    List_ptr fedges;
+    List_ptr fregs;
 
     adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -249,80 +267,46 @@ extern "C" {
 #endif
     }
 
-    /* Number of common edges */
-
-    ncom = nold < nnu ? nold : nnu;
+    /* Regions are known to the edges of the face - find them now */
 
+    fregs = MF_Regions(f);
 
-    /* Replace old edges with new ones (up to the common number of edges) */
+    /* Put the new edges in place of the old ones and move the other
+       edges along with their direction bits. If the old edges span the
+       start vertex of the face (i+nold > ne), the new ones come last */
 
-    for (j = 0; j < ncom; j++) {
-      k = (i+j)%ne; 
-      List_Replacei(adj->fedges,k,newedges[j]);		      
-      adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
+    k0 = (i+nold > ne) ? i+nold-ne : 0;
+    edirs = 0;
+    fedges = List_New(ne-nold+nnu);
+    for (k = k0, n = 0; k < i; k++, n++) {
+      List_Add(fedges,List_Entry(adj->fedges,k));
+      edirs |= ((adj->edirs>>k) & 1ULL)<<n;
     }
-
-
-
-    if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
-
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
-
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
-
-	
-	for (k = ne-1; k >= i+j; k--) {
-
-	  /* set bit k+1 to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
-
-	  /* get bit k */
-	  dir = (adj->edirs>>k) & 1UL;
-
-	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
-	}
-
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
-
-	ne++;
-      }
-
+    for (j = 0; j < nnu; j++, n++) {
+      List_Add(fedges,newedges[j]);
+      edirs |= ((unsigned long long) newdirs[j])<<n;
     }
-    else {
-      /* Delete the remaining old edges */
-
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
-	  /* set bit k to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<k);
-
-	  /* get bit k+1 */
-	  dir = (adj->edirs>>(k+1)) & 1UL;
-
-	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
-	}
+    for (k = i+nold; k < ne; k++, n++) {
+      List_Add(fedges,List_Entry(adj->fedges,k));
+      edirs |= ((adj->edirs>>k) & 1ULL)<<n;
+    }
+    List_Delete(adj->fedges);
+    adj->fedges = fedges;
+    adj->edirs = edirs;
 
-	ne--;
+    /* Update upward adjacencies */
+    if (fregs) {
+      MRegion_ptr fr;
+      int idx = 0;
+      while ((fr = List_Next_Entry(fregs,&idx))) {
+	for (j = 0; j < nnu; j++)
+	  ME_Add_Region(newedges[j],fr);
+	for (j = 0; j < nold; j++)
+	  if (!MR_UsesEntity(fr,(MEntity_ptr) oldedges[j],MEDGE))
+	    ME_Rem_Region(oldedges[j],fr);
       }
+      List_Delete(fregs);
     }
-      
-    /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
     }
@@ -342,7 +326,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F2F4(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F2F4 *adj;
     MEdge_ptr fedge;
 
@@ -371,39 +355,21 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
-
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
+    /* The first of the old edges is the one which does not come right
+       after another of them in the face (the edges may be listed in
+       either direction and span the start vertex of the face) */
 
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      for (j = 0; j < nold; j++)
+	if ((eindex[j]+1)%ne == eindex[i])
+	  break;
+      if (j == nold) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F2F4(f, nold, istart, nnu, nuedges);
 
     free(eindex);
-- 
2.43.0


From ebe15998ab451d064341d97f385a2a704f2c9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 121/126] fix: GMV export no longer takes over and deletes a
 user's attribute that has the name of one of its own

---
 src/io/MESH_ExportToGMV.c | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index caa676f..f202873 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -183,9 +183,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   /* Now build up the vertex list sorted by ID and write them out */
 
-  vidatt = MESH_AttribByName(mesh,"vidatt");
-  if (!vidatt)
-    vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
+  vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
 
   vlist = List_New(nv);
   idx = 0; i = 1; 
@@ -262,9 +260,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     ncells3 = nr;
     ncells += nr;
 
-    ridatt = MESH_AttribByName(mesh,"ridatt");
-    if (!ridatt)
-      ridatt = MAttrib_New(mesh,"ridatt",INT,MREGION);
+    ridatt = MAttrib_New(mesh,"ridatt",INT,MREGION);
 
     rlist = List_New(nr);
 
@@ -292,9 +288,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   if (nf) {
 
-    fidatt = MESH_AttribByName(mesh,"fidatt");
-    if (!fidatt)
-      fidatt = MAttrib_New(mesh,"fidatt",INT,MFACE);
+    fidatt = MAttrib_New(mesh,"fidatt",INT,MFACE);
 
     flist = List_New(nf);
 
@@ -336,9 +330,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
     elist = List_New(ne);
 
-    eidatt = MESH_AttribByName(mesh,"eidatt");
-    if (!eidatt)
-      eidatt = MAttrib_New(mesh,"eidatt",INT,MEDGE);
+    eidatt = MAttrib_New(mesh,"eidatt",INT,MEDGE);
 
     ncells1 = 0;
     idx = 0; i = 1;
@@ -1020,6 +1012,11 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     
     for (i = 0, noutatt = 0; i < nmeshatt; i++) {
       attrib = MESH_Attrib(mesh,i);
+
+      /* attributes created in this routine for writing out contiguous
+         entity IDs - ignore them */
+      if (attrib == vidatt || attrib == eidatt || attrib == fidatt ||
+          attrib == ridatt) continue;
 #ifndef MSTK_USE_MARKERS
       if (attrib == cellmkatt) continue; /* created in this routine */
 #endif
@@ -1049,15 +1046,8 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
               continue;
 	  }
           else {
-            if (strncmp(attname+1,"idatt",5) == 0) {
-              /* this is a special MSTK attribute created for writing out
-                 contiguous entity IDs - ignore it */
-              continue;
-            }
-            else {
-              outattribs[noutatt] = attrib;
-              noutatt++;
-            }
+            outattribs[noutatt] = attrib;
+            noutatt++;
           }
         }
       }
-- 
2.43.0


From df64d36cb71a6046ee7ae64f859350a5c15d475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 122/126] fix: MESH_Copy copies an attribute of the user's that
 is called copyatt

---
 src/base/MESH_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 7b02914..d8c2cb1 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -253,7 +253,7 @@ extern "C" {
 
         char attname[256];
         MAttrib_Get_Name(att,attname);
-        if (strcmp(attname,"copyatt") == 0) continue;
+        if (att == copyatt) continue;
 
         MAttType atttype = MAttrib_Get_Type(att);
         MType attentdim = MAttrib_Get_EntDim(att);
-- 
2.43.0


From f6ade389a58e257f135b91178be5ae4e4249e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 123/126] fix: global ID search finds entities added after it
 was enabled, never deleted ones, and answers for types a mesh has none of

---
 src/base/Mesh.c | 69 ++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index e268991..edf3aaa 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1458,42 +1458,51 @@ List_ptr   MESH_Region_List(Mesh_ptr mesh) {
 
 void MESH_Enable_GlobalIDSearch(Mesh_ptr mesh) {
 
-  if (mesh->nv && !mesh->gid_sorted_mvlist)
-    mesh->gid_sorted_mvlist = List_Copy(mesh->mvertex);
+  /* There is a list for every type of entity even if the mesh has none
+     of that type; they are filled from the mesh when they are sorted */
 
-  if (mesh->ne && !mesh->gid_sorted_melist)
-    mesh->gid_sorted_melist = List_Copy(mesh->medge);
+  if (!mesh->gid_sorted_mvlist)
+    mesh->gid_sorted_mvlist = List_New(10);
+
+  if (!mesh->gid_sorted_melist)
+    mesh->gid_sorted_melist = List_New(10);
 
-  if (mesh->nf && !mesh->gid_sorted_mflist)
-    mesh->gid_sorted_mflist = List_Copy(mesh->mface);
+  if (!mesh->gid_sorted_mflist)
+    mesh->gid_sorted_mflist = List_New(10);
 
-  if (mesh->nr && !mesh->gid_sorted_mrlist)
-    mesh->gid_sorted_mrlist = List_Copy(mesh->mregion);
+  if (!mesh->gid_sorted_mrlist)
+    mesh->gid_sorted_mrlist = List_New(10);
 
   MESH_Sort_GlobalIDSearch_Lists(mesh);
 }
 
+/* (Re)build a global ID search list from the list of entities in the
+   mesh; entities may have been added or deleted since it was built */
+
+static List_ptr pvtRebuild_GIDList(List_ptr gidlist, List_ptr entlist) {
+  List_Delete(gidlist);
+  if (!entlist || !List_Num_Entries(entlist))
+    return List_New(10);
+
+  gidlist = List_Copy(entlist);
+  List_Compress(gidlist);  // can't sort list with gaps
+  List_Sort(gidlist,List_Num_Entries(gidlist),sizeof(MEntity_ptr),compareGlobalID);
+  return gidlist;
+}
+
 void MESH_Sort_GlobalIDSearch_Lists(Mesh_ptr mesh) {
 
-  if (mesh->nv && mesh->gid_sorted_mvlist) {
-    List_Compress(mesh->gid_sorted_mvlist);  // can't sort list with gaps
-    List_Sort(mesh->gid_sorted_mvlist,mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
-  }
+  if (mesh->gid_sorted_mvlist)
+    mesh->gid_sorted_mvlist = pvtRebuild_GIDList(mesh->gid_sorted_mvlist,mesh->mvertex);
 
-  if (mesh->ne && mesh->gid_sorted_melist) {
-    List_Compress(mesh->gid_sorted_melist);
-    List_Sort(mesh->gid_sorted_melist,mesh->ne,sizeof(MEdge_ptr),compareGlobalID);
-  }
+  if (mesh->gid_sorted_melist)
+    mesh->gid_sorted_melist = pvtRebuild_GIDList(mesh->gid_sorted_melist,mesh->medge);
 
-  if (mesh->nf && mesh->gid_sorted_mflist) {
-    List_Compress(mesh->gid_sorted_mflist);
-    List_Sort(mesh->gid_sorted_mflist,mesh->nf,sizeof(MFace_ptr),compareGlobalID);
-  }
+  if (mesh->gid_sorted_mflist)
+    mesh->gid_sorted_mflist = pvtRebuild_GIDList(mesh->gid_sorted_mflist,mesh->mface);
 
-  if (mesh->nr && mesh->gid_sorted_mrlist) {
-    List_Compress(mesh->gid_sorted_mrlist);
-    List_Sort(mesh->gid_sorted_mrlist,mesh->nr,sizeof(MRegion_ptr),compareGlobalID);
-  }
+  if (mesh->gid_sorted_mrlist)
+    mesh->gid_sorted_mrlist = pvtRebuild_GIDList(mesh->gid_sorted_mrlist,mesh->mregion);
 
   mesh->gidlists_sorted = 1;
 }
@@ -1539,7 +1548,7 @@ MVertex_ptr MESH_VertexFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mv_tmp,global_id);
 
   mv = (MVertex_ptr) List_Search(mesh->gid_sorted_mvlist,(void *)&mv_tmp,
-                                 mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
+                                 List_Num_Entries(mesh->gid_sorted_mvlist),sizeof(MVertex_ptr),compareGlobalID);
 
   MV_Delete(mv_tmp,0);
 
@@ -1563,7 +1572,7 @@ MEdge_ptr MESH_EdgeFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(me_tmp,global_id);
 
   me = (MEdge_ptr) List_Search(mesh->gid_sorted_melist,(void *)&me_tmp,
-                               mesh->ne,sizeof(MEdge_ptr),compareGlobalID);
+                               List_Num_Entries(mesh->gid_sorted_melist),sizeof(MEdge_ptr),compareGlobalID);
 
   ME_Delete(me_tmp,0);
   
@@ -1574,7 +1583,7 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MFace_ptr mf;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->gid_sorted_mflist)
     MSTK_Report("MESH_FaceFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1587,7 +1596,7 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mf_tmp,global_id);
 
   mf = (MFace_ptr) List_Search(mesh->gid_sorted_mflist,(void *)&mf_tmp,
-                               mesh->nf,sizeof(MFace_ptr),compareGlobalID);
+                               List_Num_Entries(mesh->gid_sorted_mflist),sizeof(MFace_ptr),compareGlobalID);
 
   MF_Delete(mf_tmp,0);
   
@@ -1598,7 +1607,7 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MRegion_ptr mr;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->gid_sorted_mrlist)
     MSTK_Report("MESH_RegionFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1611,7 +1620,7 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mr_tmp,global_id);
 
   mr = (MRegion_ptr) List_Search(mesh->gid_sorted_mrlist,(void *)&mr_tmp,
-                                 mesh->nr,sizeof(MRegion_ptr),compareGlobalID);
+                                 List_Num_Entries(mesh->gid_sorted_mrlist),sizeof(MRegion_ptr),compareGlobalID);
 
   MR_Delete(mr_tmp,0);
 
-- 
2.43.0


From 4cca37cc0546e53653a6f51b9ba82d1562f4dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 124/126] fix: renumbering of global IDs does not hang when a
 rank has no entities of a type

---
 src/par/MESH_Renumber_GlobalIDs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index 9dcc516..3309d1f 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -43,13 +43,15 @@ extern "C" {
                   "Renumbering according to pre-assigned numbering not yet implemented",
                   MSTK_ERROR);
     } else {
-      if (MESH_Num_Vertices(mesh) && (mtype == MVERTEX || mtype == MALLTYPE))
+      /* These calls are collective, so they have to be made even by
+         processors that have no entities of the type */
+      if (mtype == MVERTEX || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MVERTEX, method, NULL, comm);
-      if (MESH_Num_Edges(mesh) && (mtype == MEDGE || mtype == MALLTYPE))
+      if (mtype == MEDGE || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MEDGE, method, NULL, comm);
-      if (MESH_Num_Faces(mesh) && (mtype == MFACE || mtype == MALLTYPE))
+      if (mtype == MFACE || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MFACE, method, NULL, comm);
-      if (MESH_Num_Regions(mesh) && (mtype == MREGION || mtype == MALLTYPE))
+      if (mtype == MREGION || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MREGION, method, NULL, comm);
 
       // Ghost entity management in the mesh relies on ghost lists
-- 
2.43.0


From 5914a6c3532f00d855df815ffc16263c7097a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:00 +0000
Subject: [PATCH 125/126] fix: deletion of a ghost entity marks the lists as no
 longer sorted by ID, so that lookup by ID does not search across gaps

---
 src/base/Mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index edf3aaa..8b10b0f 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -2224,6 +2224,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
@@ -2264,6 +2265,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
@@ -2304,6 +2306,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
@@ -2343,6 +2346,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
 
 
-- 
2.43.0


From a5c550c0696b95715997f06472b84805e7c6bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:00 +0000
Subject: [PATCH 126/126] fix: restoring a deleted ghost or overlap entity puts
 it back into all the lists it was taken out of

---
 src/base/MEdge.c   | 14 +++++++++++---
 src/base/MFace.c   | 14 +++++++++++---
 src/base/MRegion.c | 14 +++++++++++---
 src/base/MVertex.c | 14 +++++++++++---
 4 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/base/MEdge.c b/src/base/MEdge.c
index b61f41c..fce59d3 100644
--- a/src/base/MEdge.c
+++ b/src/base/MEdge.c
@@ -82,12 +82,20 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) e);
 
+    MESH_Add_Edge(mesh,e);
+
 #ifdef MSTK_HAVE_MPI
-    if (ME_PType(e) == PGHOST)
+    /* Deletion took it out of these lists too; they are kept in order
+       of global IDs */
+    if (ME_PType(e) == PGHOST) {
       MESH_Add_GhostEdge(mesh,e);
-    else
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
+    else if (ME_PType(e) == POVERLAP) {
+      MESH_Add_OverlapEdge(mesh,e);
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
 #endif
-      MESH_Add_Edge(mesh,e);
 
     (*ME_Restore_jmp[RTYPE])(e);
   }
diff --git a/src/base/MFace.c b/src/base/MFace.c
index c4cdb72..3019c79 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -81,12 +81,20 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) f);
 
+    MESH_Add_Face(mesh,f);
+
 #ifdef MSTK_HAVE_MPI
-    if (MF_PType(f) == PGHOST)
+    /* Deletion took it out of these lists too; they are kept in order
+       of global IDs */
+    if (MF_PType(f) == PGHOST) {
       MESH_Add_GhostFace(mesh,f);
-    else
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
+    else if (MF_PType(f) == POVERLAP) {
+      MESH_Add_OverlapFace(mesh,f);
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
 #endif
-      MESH_Add_Face(mesh,f);
 
     (*MF_Restore_jmp[RTYPE])(f);
   }
diff --git a/src/base/MRegion.c b/src/base/MRegion.c
index 69d2871..12d0dd7 100644
--- a/src/base/MRegion.c
+++ b/src/base/MRegion.c
@@ -85,12 +85,20 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) r);
 
+    MESH_Add_Region(mesh,r);
+
 #ifdef MSTK_HAVE_MPI
-    if (MR_PType(r) == PGHOST)
+    /* Deletion took it out of these lists too; they are kept in order
+       of global IDs */
+    if (MR_PType(r) == PGHOST) {
       MESH_Add_GhostRegion(mesh,r);
-    else
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
+    else if (MR_PType(r) == POVERLAP) {
+      MESH_Add_OverlapRegion(mesh,r);
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
 #endif
-      MESH_Add_Region(mesh,r);
 
     (*MR_Restore_jmp[RTYPE])(r);
   }
diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index e6771ac..9e0d08f 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -83,12 +83,20 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) v);
 
+    MESH_Add_Vertex(mesh,v);
+
 #ifdef MSTK_HAVE_MPI
-    if (MV_PType(v) == PGHOST)
+    /* Deletion took it out of these lists too; they are kept in order
+       of global IDs */
+    if (MV_PType(v) == PGHOST) {
       MESH_Add_GhostVertex(mesh,v);
-    else
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
+    else if (MV_PType(v) == POVERLAP) {
+      MESH_Add_OverlapVertex(mesh,v);
+      MESH_Sort_GhostLists(mesh,compareGlobalID);
+    }
 #endif
-      MESH_Add_Vertex(mesh,v);
 
     (*MV_Restore_jmp[RTYPE])(v);
   }
-- 
2.43.0

