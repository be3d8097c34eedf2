/* attributes, sets and parallel data put on a mesh and checked */
#ifndef ATTSET_H
#define ATTSET_H
#define NE(d, m) ((d) == 0 ? MESH_Num_Vertices(m) : (d) == 1 ? MESH_Num_Edges(m) : (d) == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m))
static MEntity_ptr ent(Mesh_ptr m, int d, int i) { return d == 0 ? (MEntity_ptr)MESH_Vertex(m, i) : d == 1 ? (MEntity_ptr)MESH_Edge(m, i) : d == 2 ? (MEntity_ptr)MESH_Face(m, i) : (MEntity_ptr)MESH_Region(m, i); }
static const int at[] = {INT, DOUBLE, VECTOR, TENSOR, POINTER};
static const char *an[] = {"ia", "da", "va", "ta", "pa"};
static int ev[5][4][CMAX * 2][3];            /* what was stored: attribute, dimension, position */
static int cookie, vals[3];
static void putatts(Mesh_ptr m, int ad) {
  memset(ev, 0, sizeof ev);
  for (int a = 0; a < 5; a++) { MAttrib_ptr A = at[a] == VECTOR || at[a] == TENSOR ? MAttrib_New(m, an[a], at[a], (MType)ad, at[a] == VECTOR ? 2 : 3) : MAttrib_New(m, an[a], at[a], (MType)ad);
    for (int d = 0; d < 4; d++) if (ad == MALLTYPE || ad == d) for (int i = 0; i < NE(d, m); i++) { if ((i + a) % 2 && i) continue; int v = vals[(i + a + d) % 3]; MEntity_ptr e = ent(m, d, i);
        if (at[a] == INT) MEnt_Set_AttVal(e, A, v, 0, NULL); else if (at[a] == DOUBLE) MEnt_Set_AttVal(e, A, 0, (double)v, NULL);
        else if (at[a] == POINTER) MEnt_Set_AttVal(e, A, 0, 0, &cookie); else { int n = at[a] == VECTOR ? 2 : 3; double x[3]; for (int k = 0; k < n; k++) x[k] = (double)(v + k); MEnt_Set_AttVal(e, A, 0, 0, x); }
        for (int k = 0; k < 3; k++) ev[a][d][i][k] = at[a] == VECTOR || at[a] == TENSOR ? v + k : v; if (at[a] == VECTOR) ev[a][d][i][2] = 0; } }
}
static void chkatts(Mesh_ptr m, Mesh_ptr other, int ad, int copied) {
  for (int a = 0; a < 5; a++) { MAttrib_ptr A = MESH_AttribByName(m, an[a]); sx_assert(A != NULL, "every attribute is there"); sx_assert(MAttrib_Get_Type(A) == at[a] && MAttrib_Get_EntDim(A) == (MType)ad, "attributes keep their type"); if (at[a] == VECTOR || at[a] == TENSOR) sx_assert(MAttrib_Get_NumComps(A) == (at[a] == VECTOR ? 2 : 3), "attributes keep their size");
    for (int d = 0; d < 4; d++) for (int i = 0; i < NE(d, m); i++) { int iv = 0; double dv = 0; void *pv = NULL; int r = MEnt_Get_AttVal(ent(m, d, i), A, &iv, &dv, &pv); int set = (ad == MALLTYPE || ad == d) && !((i + a) % 2 && i); int *x = ev[a][d][i];
        if (at[a] == POINTER) { if (!copied) sx_assert(!set || pv == &cookie, "pointers stay"); continue; }
        if (!set) { sx_assert(r == 0, "no value where none was set"); continue; }
        if (at[a] == INT) sx_assert(iv == x[0], "integer values copied"); else if (at[a] == DOUBLE) sx_assert(dv == (double)x[0], "real values copied");
        else { double *p = pv; sx_assert(p != NULL, "vector values copied"); for (int k = 0; k < (at[a] == VECTOR ? 2 : 3); k++) sx_assert(p[k] == (double)x[k], "vector values copied"); if (other) { void *q = NULL; MEnt_Get_AttVal(ent(other, d, i), MESH_AttribByName(other, an[a]), &iv, &dv, &q); sx_assert(q != pv, "the copy has its own storage"); } } } }
}
static void putsets(Mesh_ptr m) { for (int d = 0; d < 5; d++) { char nm[8] = "set0"; nm[3] = '0' + d; MSet_ptr s = MSet_New(m, nm, d == 4 ? MALLTYPE : (MType)d); for (int q = 0; q < 4; q++) if (d == 4 || q == d) for (int i = 0; i < NE(q, m); i++) if ((i + d) % 2 == 0) MSet_Add(s, ent(m, q, i)); } }
static void chksets(Mesh_ptr m) { sx_assert(MESH_Num_MSets(m) == 5, "every set is there"); for (int d = 0; d < 5; d++) { char nm[8] = "set0"; nm[3] = '0' + d; MSet_ptr s = MESH_MSetByName(m, nm); sx_assert(s != NULL && MSet_EntDim(s) == (d == 4 ? MALLTYPE : (MType)d), "sets keep name and kind"); int n = 0;
    for (int q = 0; q < 4; q++) for (int i = 0; i < NE(q, m); i++) { int in = (d == 4 || q == d) && (i + d) % 2 == 0; n += in; sx_assert(!!MSet_Contains(s, ent(m, q, i)) == in, "sets keep their entities"); } sx_assert(MSet_Num_Entries(s) == n, "sets hold nothing else"); } }
static void par(Mesh_ptr m, Mesh_ptr c) { for (int d = 0; d < 4; d++) for (int i = 0; i < NE(d, m); i++) { MEntity_ptr a = ent(m, d, i), b = ent(c, d, i); if (d == 0) { sx_assert(MV_PType(a) == MV_PType(b) && MV_MasterParID(a) == MV_MasterParID(b) && !MV_OnParBoundary(a) == !MV_OnParBoundary(b), "parallel data copied"); }
    if (d == 1) sx_assert(ME_PType(a) == ME_PType(b) && ME_MasterParID(a) == ME_MasterParID(b) && !ME_OnParBoundary(a) == !ME_OnParBoundary(b), "parallel data copied"); if (d == 2) sx_assert(MF_PType(a) == MF_PType(b) && MF_MasterParID(a) == MF_MasterParID(b) && !MF_OnParBoundary(a) == !MF_OnParBoundary(b), "parallel data copied"); if (d == 3) sx_assert(MR_PType(a) == MR_PType(b) && MR_MasterParID(a) == MR_MasterParID(b), "parallel data copied"); sx_assert(MEnt_GlobalID(a) == MEnt_GlobalID(b), "global IDs copied"); } }
static int dimof(Mesh_ptr m) { return NE(3, m) ? 3 : 2; }
static void ghosts(Mesh_ptr m, Mesh_ptr c) { sx_assert(MESH_Num_GhostVertices(m) == MESH_Num_GhostVertices(c) && MESH_Num_OverlapVertices(m) == MESH_Num_OverlapVertices(c) && MESH_Num_GhostEdges(m) == MESH_Num_GhostEdges(c) && MESH_Num_OverlapEdges(m) == MESH_Num_OverlapEdges(c) && MESH_Num_GhostFaces(m) == MESH_Num_GhostFaces(c) && MESH_Num_OverlapFaces(m) == MESH_Num_OverlapFaces(c) && MESH_Num_GhostRegions(m) == MESH_Num_GhostRegions(c) && MESH_Num_OverlapRegions(m) == MESH_Num_OverlapRegions(c), "the copy lists its ghost and overlap entities");
  int idx = 0, n = 0; MVertex_ptr v; while ((v = MESH_Next_GhostVertex(c, &idx))) { n++; sx_assert(MV_PType(v) == PGHOST && MEnt_Mesh(v) == c, "ghosts of the copy"); } sx_assert(n == MESH_Num_GhostVertices(m), "ghosts of the copy"); }
#endif
