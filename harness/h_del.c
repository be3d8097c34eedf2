#include "common.h"
void MEnt_Set_PType(MEntity_ptr, PType);
void MESH_Add_GhostVertex(Mesh_ptr, MVertex_ptr); void MESH_Add_GhostEdge(Mesh_ptr, MEdge_ptr); void MESH_Add_GhostFace(Mesh_ptr, MFace_ptr); void MESH_Add_GhostRegion(Mesh_ptr, MRegion_ptr);
void MESH_Add_OverlapVertex(Mesh_ptr, MVertex_ptr); void MESH_Add_OverlapEdge(Mesh_ptr, MEdge_ptr); void MESH_Add_OverlapFace(Mesh_ptr, MFace_ptr); void MESH_Add_OverlapRegion(Mesh_ptr, MRegion_ptr);
static CM b; static Snap A, B, C;
static MEntity_ptr at(Mesh_ptr m, int k, int i) { return k == 0 ? MESH_Vertex(m, i) : k == 1 ? MESH_Edge(m, i) : k == 2 ? MESH_Face(m, i) : MESH_Region(m, i); }
static int num(Mesh_ptr m, int k) { return k == 0 ? MESH_Num_Vertices(m) : k == 1 ? MESH_Num_Edges(m) : k == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static int ngh(int k, int ov) { Mesh_ptr m = b.m; return ov ? (k == 0 ? MESH_Num_OverlapVertices(m) : k == 1 ? MESH_Num_OverlapEdges(m) : k == 2 ? MESH_Num_OverlapFaces(m) : MESH_Num_OverlapRegions(m)) : (k == 0 ? MESH_Num_GhostVertices(m) : k == 1 ? MESH_Num_GhostEdges(m) : k == 2 ? MESH_Num_GhostFaces(m) : MESH_Num_GhostRegions(m)); }
static void addp(MEntity_ptr e, int k, int pt) { MEnt_Set_PType(e, pt); if (pt == PGHOST) (k == 0 ? MESH_Add_GhostVertex : k == 1 ? MESH_Add_GhostEdge : k == 2 ? MESH_Add_GhostFace : MESH_Add_GhostRegion)(b.m, e); if (pt == POVERLAP) (k == 0 ? MESH_Add_OverlapVertex : k == 1 ? MESH_Add_OverlapEdge : k == 2 ? MESH_Add_OverlapFace : MESH_Add_OverlapRegion)(b.m, e); }
/* the same entities with the same data, except 'gone'; order of the survivors kept when asked */
static int same_but(Snap *a, Snap *z, MEntity_ptr gone, int ordered) {
  for (int d = 0; d < 4; d++) { int w = 0;
    for (int i = 0; i < a->n[d]; i++) { if (a->p[d][i] == gone) continue; int j; if (ordered) { j = w; if (j >= z->n[d] || z->p[d][j] != a->p[d][i]) return 0; } else for (j = 0; j < z->n[d]; j++) if (z->p[d][j] == a->p[d][i]) break; if (j == z->n[d]) return 0; w++;
      if (a->id[d][i] != z->id[d][j] || a->gdim[d][i] != z->gdim[d][j] || a->gid[d][i] != z->gid[d][j]) return 0;
      if (d == 0) for (int k = 0; k < 3; k++) if (!(a->x[i][k] == z->x[j][k])) return 0;
      if (d == 1 && (a->ev[i][0] != z->ev[j][0] || a->ev[i][1] != z->ev[j][1])) return 0;
      if (d == 2) { if (a->fe[i][0] != z->fe[j][0]) return 0; for (int k = 1; k <= a->fe[i][0]; k++) if (a->fe[i][k] != z->fe[j][k] || a->fd[i][k] != z->fd[j][k]) return 0; }
      if (d == 3) { if (a->rf[i][0] != z->rf[j][0]) return 0; for (int k = 1; k <= a->rf[i][0]; k++) if (a->rf[i][k] != z->rf[j][k] || a->rd[i][k] != z->rd[j][k]) return 0; } }
    if (z->n[d] != w) return 0; }
  return 1;
}
static void del(int rep, int lo, int hi, int maxk) {
  int base = sx_live_blocks(), cat = sx_pick("mesh", lo, hi); cm_build(&b, rep, cat, CM_CLASS);
  int k = sx_pick("kind", 0, maxk), n = num(b.m, k), i = sx_pick("entity", 0, n - 1), keep = sx_pick("keep", 0, 1), pt = sx_pick("ptype", 0, 2); if (pt == 2) pt = PGHOST;
  MEntity_ptr e = at(b.m, k, i), up[64]; int updim[64], nup = 0; addp(e, k, pt);
  cm_snap(b.m, &A);
  for (int d = maxk; d > k; d--) for (int j = 0; j < num(b.m, d); j++) { MEntity_ptr u = at(b.m, d, j); if (d == 3 ? MR_UsesEntity(u, e, k) : d == 2 ? MF_UsesEntity(u, e, k) : ME_UsesEntity(u, e, k)) { up[nup] = u; updim[nup++] = d; } }
  for (int j = 0; j < nup; j++) { MEnt_Delete(up[j], 1); sx_assert((int)MEnt_Dim(up[j]) == -1 && (int)MEnt_OrigDim(up[j]) == updim[j], "kept entity is marked deleted and remembers its dimension"); }
  cm_valid(b.m, "after deleting the users"); cm_snap(b.m, &B);
  int ng = ngh(k, pt == POVERLAP);
  MEnt_Delete(e, keep); cm_snap(b.m, &C);
  sx_assert(same_but(&B, &C, e, 1), "deleting removes exactly the deleted entity"); cm_valid(b.m, "after deletion"); if (pt) sx_assert(ngh(k, pt == POVERLAP) == ng - 1, "deleted entity leaves the ghost or overlap list");
  if (keep) {
    if (k == 0) MV_Restore(e); else if (k == 1) ME_Restore(e); else if (k == 2) MF_Restore(e); else MR_Restore(e);
    cm_snap(b.m, &C); sx_assert(same_but(&B, &C, NULL, 0), "restoring brings the entity back as it was"); cm_valid(b.m, "after restoring"); if (pt) sx_assert(ngh(k, pt == POVERLAP) == ng, "restored entity is back in the ghost or overlap list");
    for (int j = nup - 1; j >= 0; j--) { if (updim[j] == 1) ME_Restore(up[j]); else if (updim[j] == 2) MF_Restore(up[j]); else MR_Restore(up[j]); }
    cm_snap(b.m, &C); sx_assert(same_but(&A, &C, NULL, 0), "restoring everything brings the mesh back as it was"); cm_valid(b.m, "after restoring everything");
    int again = sx_pick("again", 0, 1); if (again) { for (int j = 0; j < nup; j++) MEnt_Delete(up[j], 0); MEnt_Delete(e, 0); cm_valid(b.m, "deleted for good"); }
  } else for (int j = 0; j < nup; j++) MEnt_Delete(up[j], 0);
  MESH_Delete(b.m); sx_check_leaks(base, "mesh leaks"); sx_cover("end");
}
void h_del2_F1(void) { del(F1, C_TRI, TH(C_TRIQUAD, C_STRIP3), 2); }
void h_del2_F4(void) { del(F4, C_TRI, TH(C_TRIQUAD, C_STRIP3), 2); }
void h_del3_F1(void) { del(F1, C_TET, TH(C_TET2, C_PRISM), 3); }
void h_del3_F4(void) { del(F4, C_TET, TH(C_TET2, C_PRISM), 3); }
void h_del3m_F1(void) { del(F1, C_PRISMTET, C_PRISMTET, 3); }
