/* C06/C08: adjacency of meshes in full representations, any element start and any edge/face direction */
#include "common.h"
static CM b;
static void one(int lo, int hi, int rep, int opts) {
  int base = sx_live_blocks(); cm_build(&b, rep, sx_pick("mesh", lo, hi), opts); cm_valid(b.m, b.c->name);
  MESH_Delete(b.m); sx_check_leaks(base, "mesh leaks"); sx_cover("end");
}
void h_adj2_F1(void) { one(C_TRI, C_STRIP3, F1, CM_ROT | CM_EDIR); }
void h_adj2_F4(void) { one(C_TRI, C_STRIP3, F4, CM_ROT | CM_EDIR); }
void h_adj3_F1(void) { one(C_TET, C_TET4, F1, CM_ROT); }
void h_adj3_F4(void) { one(C_TET, C_TET4, F4, CM_ROT); }
void h_adj3_F1d(void) { one(C_TET, C_TET4, F1, CM_FDIR); }
/* C08: standard elements follow the documented ordering */
static const int tfv[5][6][5] = {{{0}},
 {{3,0,2,1},{3,0,1,3},{3,1,2,3},{3,0,3,2},{0},{0}}, {{4,0,3,2,1},{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4},{0}},
 {{3,0,2,1},{3,3,4,5},{4,0,1,4,3},{4,1,2,5,4},{4,2,0,3,5},{0}}, {{4,0,3,2,1},{4,4,5,6,7},{4,0,1,5,4},{4,1,2,6,5},{4,2,3,7,6},{4,3,0,4,7}}};
static const int tev[5][12][2] = {{{0}}, {{0,1},{1,2},{2,0},{0,3},{1,3},{2,3}}, {{0,1},{1,2},{2,3},{3,0},{0,4},{1,4},{2,4},{3,4}},
 {{0,1},{1,2},{2,0},{3,4},{4,5},{5,3},{0,3},{1,4},{2,5}}, {{0,1},{1,2},{2,3},{3,0},{4,5},{5,6},{6,7},{7,4},{0,4},{1,5},{2,6},{3,7}}};
static const int nft[5] = {0,4,5,5,6}, net[5] = {0,6,8,9,12}, nvt[5] = {0,4,5,6,8};
static void face_cycles(MFace_ptr f) {
  List_ptr l = MF_Vertices(f, 1, 0); int n = List_Num_Entries(l), full = MEnt_RepType(f) == F1 || MEnt_RepType(f) == F4; MVertex_ptr v[8];
  for (int i = 0; i < n; i++) v[i] = List_Entry(l, i);
  List_Delete(l);
  for (int d = 0; d < 2; d++) for (int s = 0; s < n; s++) {
    l = MF_Vertices(f, d, v[s]); sx_assert(List_Num_Entries(l) == n, "vertex count from any start");
    for (int i = 0; i < n; i++) sx_assert(List_Entry(l, i) == v[(d ? s + i : s - i + n) % n], "face vertices in cyclic order from any start vertex in either direction");
    int nid = -1, fid[16]; MF_VertexIDs(f, d, MV_ID(v[s]), &nid, fid); sx_assert(nid == n, "vertex ID count from any start"); for (int i = 0; i < n; i++) sx_assert(fid[i] == MV_ID(v[(d ? s + i : s - i + n) % n]), "face vertex IDs in cyclic order from any start vertex in either direction");
    if (full) { List_ptr e = MF_Edges(f, d, v[s]); sx_assert(List_Num_Entries(e) == n, "edge count from any start");
      for (int i = 0; i < n; i++) { MEdge_ptr q = List_Entry(e, i); int fd = MF_EdgeDir(f, q); int a = d ? !fd : fd; sx_assert(ME_Vertex(q, a) == List_Entry(l, i) && ME_Vertex(q, !a) == List_Entry(l, (i + 1) % n), "face edges follow its vertices from any start vertex in either direction"); }
      nid = -1; MF_EdgeIDs(f, d, MV_ID(v[s]), &nid, fid); sx_assert(nid == n, "edge ID count from any start"); for (int i = 0; i < n; i++) sx_assert(fid[i] == MEnt_ID(List_Entry(e, i)), "face edge IDs follow its edges from any start vertex in either direction");
      List_Delete(e); }
    List_Delete(l);
  }
  for (int d = 0; d < 2; d++) { l = MF_Vertices(f, d, NULL); int s = -1; sx_assert(List_Num_Entries(l) == n, "vertex count without start"); for (int i = 0; i < n; i++) if (v[i] == List_Entry(l, 0)) s = i; sx_assert(s >= 0, "face vertices without a start"); for (int i = 0; i < n; i++) sx_assert(List_Entry(l, i) == v[(d ? s + i : s - i + n) % n], "face vertices in cyclic order in either direction"); 
    int nid = -1, fid[16]; MF_VertexIDs(f, d, 0, &nid, fid); sx_assert(nid == n, "vertex ID count without start"); for (int i = 0; i < n; i++) sx_assert(fid[i] == MV_ID(List_Entry(l, i)), "face vertex IDs in cyclic order in either direction"); List_Delete(l); 
    if (full) { l = MF_Edges(f, d, NULL); nid = -1; MF_EdgeIDs(f, d, 0, &nid, fid); sx_assert(nid == n && List_Num_Entries(l) == n, "edge ID count without start"); for (int i = 0; i < n; i++) { sx_assert(fid[i] == MEnt_ID(List_Entry(l, i)), "face edge IDs in cyclic order in either direction"); MEdge_ptr q = List_Entry(l, i), q2 = List_Entry(l, (i + 1) % n); int fd = MF_EdgeDir(f, q), fd2 = MF_EdgeDir(f, q2); sx_assert(ME_Vertex(q, d ? fd : !fd) == ME_Vertex(q2, d ? !fd2 : fd2), "face edges in cyclic order in either direction"); } List_Delete(l); } }
}
static void check_elem(MRegion_ptr r, int t, MVertex_ptr *in, int exact) {
  int n = nvt[t], full = MEnt_RepType(r) == F1 || MEnt_RepType(r) == F4; List_ptr l = MR_Vertices(r), fl; MVertex_ptr v[8], w[5];
  sx_assert(MR_ElementType(r) == t, "element type of a standard element");
  sx_assert(List_Num_Entries(l) == n && MR_Num_Vertices(r) == n && MR_Num_Faces(r) == nft[t], "vertex and face counts of a standard element");
  for (int i = 0; i < n; i++) { v[i] = List_Entry(l, i); if (exact) sx_assert(v[i] == in[i], "vertices in the order given"); }
  List_Delete(l); fl = MR_Faces(r); sx_assert(List_Num_Entries(fl) == nft[t], "faces of a standard element");
  for (int i = 0; i < nft[t]; i++) {
    MFace_ptr f = List_Entry(fl, i); int m = tfv[t][i][0], d = MR_FaceDir(r, f); for (int k = 0; k < m; k++) w[k] = in[tfv[t][i][k + 1]];
    List_ptr fv = MF_Vertices(f, 1, 0); sx_assert(cm_same_cycle(fv, m, w) == (d ? 1 : -1), "faces follow the documented template and point outward");
    sx_assert(MR_FaceDir_i(r, i) == d, "face direction by position"); List_Delete(fv);
    if (full) face_cycles(f);
    /* the returned vertex order names the same element */
    int hit = 0; for (int j = 0; j < nft[t]; j++) if (tfv[t][j][0] == m) { for (int k = 0; k < m; k++) w[k] = v[tfv[t][j][k + 1]]; fv = MF_Vertices(f, 1, 0); hit += cm_same_cycle(fv, m, w) == (d ? 1 : -1); List_Delete(fv); }
    sx_assert(hit == 1, "returned vertices are a valid ordering of the element");
  }
  List_Delete(fl);
  if (full) { l = MR_Edges(r); sx_assert(List_Num_Entries(l) == net[t] && MR_Num_Edges(r) == net[t], "edge count of a standard element");
    for (int i = 0; i < net[t]; i++) { MEdge_ptr e = List_Entry(l, i); MVertex_ptr a = v[tev[t][i][0]], b2 = v[tev[t][i][1]]; sx_assert((ME_Vertex(e, 0) == a && ME_Vertex(e, 1) == b2) || (ME_Vertex(e, 1) == a && ME_Vertex(e, 0) == b2), "edges follow the documented template"); }
    List_Delete(l); }
}
static const int el_cats[] = {C_TET, C_PYR, C_PRISM, C_HEX, C_TET2, C_HEX2, C_PYRHEX, C_PRISMTET, C_TET3E, C_TET4};
static void elem(int rep, int opts) {
  int cat = el_cats[sx_pick("mesh", 0, 9)], base = sx_live_blocks(); 
  cm_build(&b, rep, cat, opts | CM_RECORD);
  for (int i = 0; i < b.c->nc; i++) { int n = b.c->c[i][0]; check_elem(b.cell[i], n == 4 ? 1 : n == 5 ? 2 : n == 6 ? 3 : 4, b.in[i], i == 0 && !(opts & (CM_EDIR | CM_FDIR))); }
  MESH_Delete(b.m); if (rep != R1 && rep != R2) sx_check_leaks(base, "mesh leaks"); sx_cover("end");
}
void h_elem_F1(void) { elem(F1, CM_ROT); }
void h_elem_F4(void) { elem(F4, CM_ROT); }
void h_elem_R1(void) { elem(R1, CM_ROT); }
void h_elem_R2(void) { elem(R2, CM_ROT); }
void h_elem_R4(void) { elem(R4, CM_ROT); }
void h_elem_F1e(void) { elem(F1, CM_EDIR); }
void h_elem_F1f(void) { elem(F1, CM_FDIR | CM_ROT); }
void h_elem_R4f(void) { elem(R4, CM_FDIR | CM_ROT); }
void h_face_F1(void) { int rep = sx_pick("rep", F1, F4), cat = sx_pick("mesh", C_TRI, C_STRIP3); cm_build(&b, rep, cat, CM_ROT | CM_EDIR); int i = 0; MFace_ptr f; while ((f = MESH_Next_Face(b.m, &i))) face_cycles(f); sx_cover("end"); }
void h_face_R(void) { static const int reps[] = {R1, R2, R4}; int rep = reps[sx_pick("rep", 0, 2)], cat = sx_pick("mesh", C_TRI, C_STRIP3); cm_build(&b, rep, cat, CM_ROT); int i = 0; MFace_ptr f; while ((f = MESH_Next_Face(b.m, &i))) face_cycles(f); sx_cover("end"); }
