#include "common.h"
const CMesh cm_cat[] = {
 {"tri", 2, 3, 1, {{0,0,0},{1,0,0},{0,1,0}}, {{3,0,1,2}}},
 {"tri2", 2, 4, 2, {{0,0,0},{1,0,0},{1,1,0},{0,1,0}}, {{3,0,1,2},{3,0,2,3}}},
 {"fan4", 2, 5, 4, {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,0}}, {{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4}}},
 {"triquad", 2, 5, 2, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{2,0.5,0}}, {{4,0,1,2,3},{3,1,4,2}}},
 {"quad22", 2, 9, 4, {{0,0,0},{1,0,0},{2,0,0},{0,1,0},{1,1,0},{2,1,0},{0,2,0},{1,2,0},{2,2,0}}, {{4,0,1,4,3},{4,1,2,5,4},{4,3,4,7,6},{4,4,5,8,7}}},
 {"penttri", 2, 6, 2, {{0,0,0},{1,0,0},{2,1,0},{1,2,0},{0,1,0},{2,2,0}}, {{5,0,1,2,3,4},{3,2,5,3}}},
 {"tri6", 2, 7, 6, {{0,0,0},{1,0,0},{2,0,0},{2,1,0},{1,2,0},{0,1,0},{1,1,0}}, {{3,0,1,6},{3,1,2,6},{3,2,3,6},{3,3,4,6},{3,4,5,6},{3,5,0,6}}},
 {"strip3", 2, 5, 3, {{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0,2,0}}, {{3,0,1,2},{3,1,3,2},{3,2,3,4}}},
 {"tet", 3, 4, 1, {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}, {{4,0,1,2,3}}},
 {"tet2", 3, 5, 2, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,1}}, {{4,0,1,2,3},{4,1,2,3,4}}},
 {"tet3e", 3, 5, 3, {{0,0,-1},{0,0,1},{1,0,0},{-0.5,1,0},{-0.5,-1,0}}, {{4,0,1,3,2},{4,0,1,4,3},{4,0,1,2,4}}},
 {"hex", 3, 8, 1, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}, {{8,0,1,2,3,4,5,6,7}}},
 {"hex2", 3, 12, 2, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1},{2,0,0},{2,1,0},{2,0,1},{2,1,1}}, {{8,0,1,2,3,4,5,6,7},{8,1,8,9,2,5,10,11,6}}},
 {"pyrhex", 3, 9, 2, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1},{0.5,0.5,2}}, {{8,0,1,2,3,4,5,6,7},{5,4,5,6,7,8}}},
 {"prismtet", 3, 7, 2, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,0,1},{0,1,1},{0.25,0.25,2}}, {{6,0,1,2,3,4,5},{4,3,4,5,6}}},
 {"prism", 3, 6, 1, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,0,1},{0,1,1}}, {{6,0,1,2,3,4,5}}},
 {"pyramid", 3, 5, 1, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0.5,0.5,1}}, {{5,0,1,2,3,4}}},
 {"tet4", 3, 5, 4, {{0,0,0},{4,0,0},{0,4,0},{0,0,4},{0.5,0.5,0.5}}, {{4,0,1,2,4},{4,0,3,1,4},{4,1,3,2,4},{4,0,2,3,4}}},
 {"tet6", 3, 8, 6, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}, {{4,0,1,2,6},{4,0,2,3,6},{4,0,3,7,6},{4,0,7,4,6},{4,0,4,5,6},{4,0,5,1,6}}},
 {"quad2", 2, 6, 2, {{0,0,0},{1,0,0},{2,0,0},{0,1,0},{1,1,0},{2,1,0}}, {{4,0,1,4,3},{4,1,2,5,4}}},
 {"fan6", 2, 10, 9, {{0,0,0},{4,0,0},{2,4,0},{1.5,1,0},{2.5,1,0},{2,2,0},{2,0,0},{3,2,0},{1,2,0},{2,1.3,0}}, {{3,3,4,9},{3,4,5,9},{3,5,3,9},{3,0,4,3},{3,0,1,4},{3,1,5,4},{3,1,2,5},{3,2,3,5},{3,2,0,3}}},
};
extern const int MSTK_rfv_template[5][6][5];
static const int tfv[5][6][5] = {{{0}},
 {{3,0,2,1},{3,0,1,3},{3,1,2,3},{3,0,3,2},{0},{0}}, {{4,0,3,2,1},{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4},{0}},
 {{3,0,2,1},{3,3,4,5},{4,0,1,4,3},{4,1,2,5,4},{4,2,0,3,5},{0}}, {{4,0,3,2,1},{4,4,5,6,7},{4,0,1,5,4},{4,1,2,6,5},{4,2,3,7,6},{4,3,0,4,7}}};
static int rtype(int n) { return n == 4 ? 1 : n == 5 ? 2 : n == 6 ? 3 : 4; }
static const int rotR[5][4][8] = {{{0}}, {{0,1,2,3},{1,2,0,3},{1,0,3,2},{3,1,0,2}}, {{0,1,2,3,4},{1,2,3,0,4},{2,3,0,1,4},{3,0,1,2,4}}, {{0,1,2,3,4,5},{1,2,0,4,5,3},{3,5,4,0,2,1},{2,0,1,5,3,4}}, {{0,1,2,3,4,5,6,7},{1,2,3,0,5,6,7,4},{4,7,6,5,0,3,2,1},{0,4,5,1,3,7,6,2}}};
int cm_vidx(CM *b, MVertex_ptr v) { for (int i = 0; i < b->c->nv; i++) if (b->v[i] == v) return i; return -1; }
void cm_fill(CM *b, Mesh_ptr m, int cat, int opts) {
  const CMesh *c = &cm_cat[cat]; b->c = c; b->m = m; b->rep = MESH_RepType(m);
  for (int i = 0; i < c->nv; i++) {
    double x[3]; b->v[i] = MV_New(m);
    for (int k = 0; k < 3; k++) x[k] = (opts & CM_SYMX) ? sx_double("x") : c->x[i][k];
    MV_Set_Coords(b->v[i], x);
  }
  int full = b->rep == F1 || b->rep == F4;
  if ((opts & CM_EDIR) && full) { /* edges made beforehand, any one (or all, or none) of them reversed */
    int ne = 0; int seen[64][2];
    for (int i = 0; i < c->nc; i++) {
      int t = c->dim == 3 ? rtype(c->c[i][0]) : 0, nf = c->dim == 3 ? 6 : 1;
      for (int f = 0; f < nf; f++) {
        int n = c->dim == 3 ? tfv[t][f][0] : c->c[i][0];
        for (int j = 0; j < n; j++) {
          int p = c->dim == 3 ? c->c[i][1 + tfv[t][f][1 + j]] : c->c[i][1 + j], q = c->dim == 3 ? c->c[i][1 + tfv[t][f][1 + (j + 1) % n]] : c->c[i][1 + (j + 1) % n], k;
          for (k = 0; k < ne; k++) if ((seen[k][0] == p && seen[k][1] == q) || (seen[k][0] == q && seen[k][1] == p)) break;
          if (k == ne) { seen[ne][0] = p; seen[ne++][1] = q; }
        }
      }
    }
    int rev = sx_pick("edgedir", 0, ne + 1);      /* 0..ne-1: that one reversed, ne: none, ne+1: all */
    for (int k = 0; k < ne; k++) { MEdge_ptr e = ME_New(m); int r = rev == k || rev == ne + 1; ME_Set_Vertex(e, 0, b->v[seen[k][r]]); ME_Set_Vertex(e, 1, b->v[seen[k][!r]]); }
  }
  if ((opts & CM_FDIR) && c->dim == 3 && (full || b->rep == R4)) {
    int nf = 0; int fl[48][5];
    for (int i = 0; i < c->nc; i++) { int t = rtype(c->c[i][0]);
      for (int f = 0; f < 6; f++) { int n = tfv[t][f][0], k; if (!n) continue; int g[5]; g[0] = n; for (int j = 0; j < n; j++) g[1 + j] = c->c[i][1 + tfv[t][f][1 + j]];
        for (k = 0; k < nf; k++) { if (fl[k][0] != n) continue; int same = 0; for (int a = 1; a <= n; a++) for (int d = 1; d <= n; d++) same += fl[k][a] == g[d]; if (same == n) break; }
        if (k == nf) { for (int a = 0; a <= n; a++) fl[nf][a] = g[a]; nf++; } } }
    int rev = sx_pick("facedir", 0, nf + 1), rot = (opts & CM_ROT) ? sx_pick("facerot", 0, 2) : 0;
    for (int k = 0; k < nf; k++) { MFace_ptr f = MF_New(m); int n = fl[k][0], r = rev == k || rev == nf + 1; MVertex_ptr v[5]; for (int j = 0; j < n; j++) v[j] = b->v[fl[k][1 + (r ? n - 1 - (j + rot) % n : (j + rot) % n)]]; MF_Set_Vertices(f, n, v); }
  }
  for (int i = 0; i < c->nc; i++) {
    int n = c->c[i][0]; MVertex_ptr v[9];
    if (c->dim == 2) { int r = (opts & CM_ROT) && i < 2 ? sx_pick("rot", 0, n - 1) : 0; for (int j = 0; j < n; j++) v[j] = b->v[c->c[i][1 + (j + r) % n]]; MFace_ptr f = MF_New(m); MF_Set_Vertices(f, n, v); b->cell[i] = f; memcpy(b->in[i], v, n * sizeof v[0]); }
    else { int r = (opts & CM_ROT) && i < 2 ? sx_pick("rot", 0, 3) : 0; for (int j = 0; j < n; j++) v[j] = b->v[c->c[i][1 + rotR[rtype(n)][r][j]]]; MRegion_ptr g = MR_New(m); MR_Set_Vertices(g, n, v, 0, NULL); b->cell[i] = g; memcpy(b->in[i], v, n * sizeof v[0]); }
  }
  if (opts & CM_CLASS) cm_class_default(m);
}
void cm_build(CM *b, int rep, int cat, int opts) { MSTK_Init(); cm_fill(b, MESH_New(rep), cat, opts); }
void cm_class_default(Mesh_ptr m) {
  int i, d = MESH_Num_Regions(m) ? 3 : 2; MVertex_ptr v; MEdge_ptr e; MFace_ptr f; MRegion_ptr r;
  i = 0; while ((v = MESH_Next_Vertex(m, &i))) { MV_Set_GEntDim(v, d); MV_Set_GEntID(v, 1); }
  if (MESH_RepType(m) == F1 || MESH_RepType(m) == F4) { i = 0; while ((e = MESH_Next_Edge(m, &i))) { ME_Set_GEntDim(e, d); ME_Set_GEntID(e, 1); } }
  if (d == 2 || MESH_RepType(m) == F1 || MESH_RepType(m) == F4 || MESH_RepType(m) == R4) { i = 0; while ((f = MESH_Next_Face(m, &i))) { MF_Set_GEntDim(f, d); MF_Set_GEntID(f, 1); } }
  i = 0; while ((r = MESH_Next_Region(m, &i))) { MR_Set_GEntDim(r, d); MR_Set_GEntID(r, 1); }
}
int cm_alive(MEntity_ptr e, int dim) { return MEnt_Dim(e) == dim; }
int list_has_dups(List_ptr l) { int n = List_Num_Entries(l); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (List_Entry(l, i) == List_Entry(l, j)) return 1; return 0; }
int cm_same_cycle(List_ptr l, int n, MVertex_ptr *v) {
  if (List_Num_Entries(l) != n) return 0;
  for (int d = 1; d >= -1; d -= 2) for (int s = 0; s < n; s++) { int ok = 1; for (int j = 0; j < n && ok; j++) ok = List_Entry(l, j) == v[((s + d * j) % n + n) % n]; if (ok) return d; }
  return 0;
}
int cm_isface(Mesh_ptr m, int n, MVertex_ptr *v) { int i = 0, c = 0; MFace_ptr f; while ((f = MESH_Next_Face(m, &i))) { List_ptr l = MF_Vertices(f, 1, 0); int k = 0; if (List_Num_Entries(l) == n) for (int j = 0; j < n; j++) k += List_Contains(l, v[j]); if (k == n) c++; List_Delete(l); } return c; }
int cm_region_has(MRegion_ptr r, MVertex_ptr v) { List_ptr l = MR_Vertices(r); int k = List_Contains(l, v); List_Delete(l); return k; }
#define A(c, msg) sx_assert(c, msg)
static int has(List_ptr l, void *e) { return l ? List_Contains(l, e) : 0; }
static int len(List_ptr l) { return l ? List_Num_Entries(l) : 0; }
static void drop(List_ptr l) { if (l) List_Delete(l); }
static void *ent[4][CMAX * 3]; static int nent[4];
static int isin(int d, void *e) { for (int i = 0; i < nent[d]; i++) if (ent[d][i] == e) return 1; return 0; }
static void gather(Mesh_ptr m, int withids) {
  void *(*nx[4])(Mesh_ptr, int *) = {(void *(*)(Mesh_ptr, int *))MESH_Next_Vertex, (void *(*)(Mesh_ptr, int *))MESH_Next_Edge, (void *(*)(Mesh_ptr, int *))MESH_Next_Face, (void *(*)(Mesh_ptr, int *))MESH_Next_Region};
  void *(*at[4])(Mesh_ptr, int) = {(void *(*)(Mesh_ptr, int))MESH_Vertex, (void *(*)(Mesh_ptr, int))MESH_Edge, (void *(*)(Mesh_ptr, int))MESH_Face, (void *(*)(Mesh_ptr, int))MESH_Region};
  int (*num[4])(Mesh_ptr) = {MESH_Num_Vertices, MESH_Num_Edges, MESH_Num_Faces, MESH_Num_Regions};
  for (int d = 0; d < 4; d++) {
    int i = 0; void *e; nent[d] = 0;
    while ((e = nx[d](m, &i))) { A(nent[d] < CMAX * 3, "iteration ends"); ent[d][nent[d]++] = e; }
    A(num[d](m) == nent[d], "entity count equals entities iterated");
    for (i = 0; i < nent[d]; i++) {
      A(at[d](m, i) == ent[d][i], "positional access agrees with iteration");
      A(MEnt_Dim(ent[d][i]) == d, "entity in the mesh is alive and of its kind"); A(MEnt_Mesh(ent[d][i]) == m, "entity knows its mesh");
      for (int j = 0; j < i; j++) { A(ent[d][j] != ent[d][i], "entity listed once"); if (withids) A(MEnt_ID(ent[d][i]) != MEnt_ID(ent[d][j]), "local IDs are unique"); }
      if (withids) A(MEnt_ID(ent[d][i]) > 0, "local ID is positive");
    }
  }
}
void cm_valid_ids(Mesh_ptr m) { gather(m, 1); }
static int ids[200];
static void sameids(int n, List_ptr l, const char *msg) { A(n == len(l), msg); for (int i = 0; i < n; i++) A(ids[i] == MEnt_ID(List_Entry(l, i)), msg); }
static int usesv(List_ptr fv, void *v) { return List_Contains(fv, v); }
int cm_types;
void cm_valid(Mesh_ptr m, const char *what) {
  int i, j, k;
  sx_note(what);
  gather(m, 1);
  for (i = 0; i < nent[1]; i++) {
    MEdge_ptr e = ent[1][i]; MVertex_ptr v0 = ME_Vertex(e, 0), v1 = ME_Vertex(e, 1);
    A(v0 && v1 && v0 != v1 && isin(0, v0) && isin(0, v1), "edge joins two distinct vertices of the mesh");
    A(ME_OppVertex(e, v0) == v1 && ME_OppVertex(e, v1) == v0, "opposite vertex");
    for (j = 0; j < i; j++) { MEdge_ptr o = ent[1][j]; A(!((ME_Vertex(o, 0) == v0 && ME_Vertex(o, 1) == v1) || (ME_Vertex(o, 0) == v1 && ME_Vertex(o, 1) == v0)), "no two edges join the same vertices"); }
    List_ptr ef = ME_Faces(e); A(!ef || !list_has_dups(ef), "edge's faces listed once"); A(ME_Num_Faces(e) == len(ef), "number of faces of an edge");
    int nu = 0; for (j = 0; j < nent[2]; j++) { List_ptr fe = MF_Edges(ent[2][j], 1, 0); int u = List_Contains(fe, e); A(u == has(ef, ent[2][j]), "edge lists exactly the faces that use it"); nu += u; List_Delete(fe); }
    A(nu == len(ef), "edge lists only faces of the mesh"); k = -1; ME_FaceIDs(e, &k, ids); sameids(k, ef, "face IDs of an edge"); drop(ef); A(ME_VertexID(e, 0) == MV_ID(v0) && ME_VertexID(e, 1) == MV_ID(v1) && ME_OppVertexID(e, MV_ID(v0)) == MV_ID(v1), "vertex IDs of an edge");
    List_ptr er = ME_Regions(e); A(!er || !list_has_dups(er), "edge's regions listed once"); nu = 0;
    for (j = 0; j < nent[3]; j++) { List_ptr re = MR_Edges(ent[3][j]); int u = List_Contains(re, e); A(u == has(er, ent[3][j]), "edge lists exactly the regions that use it"); nu += u; List_Delete(re); }
    A(nu == len(er), "edge lists only regions of the mesh"); A(ME_Num_Regions(e) == nu, "number of regions of an edge"); k = -1; ME_RegionIDs(e, &k, ids); sameids(k, er, "region IDs of an edge"); drop(er);
  }
  for (i = 0; i < nent[0]; i++) {
    MVertex_ptr v = ent[0][i]; List_ptr l = MV_Edges(v); int n = 0;
    A(!l || !list_has_dups(l), "vertex's edges listed once");
    for (j = 0; j < nent[1]; j++) { int u = ME_Vertex(ent[1][j], 0) == v || ME_Vertex(ent[1][j], 1) == v; A(u == has(l, ent[1][j]), "vertex lists exactly the edges that use it"); A(u == (ME_UsesEntity(ent[1][j], v, MVERTEX) != 0), "edge uses vertex"); n += u; }
    A(n == len(l) && MV_Num_Edges(v) == n, "vertex lists only edges of the mesh"); k = -1; MV_EdgeIDs(v, &k, ids); sameids(k, l, "edge IDs of a vertex"); drop(l);
    l = MV_AdjVertices(v); A(len(l) == n && MV_Num_AdjVertices(v) == n && (!l || !list_has_dups(l)), "number of adjacent vertices"); k = -1; MV_AdjVertexIDs(v, &k, ids); sameids(k, l, "adjacent vertex IDs");
    for (j = 0; j < nent[1]; j++) { if (ME_Vertex(ent[1][j], 0) == v) A(has(l, ME_Vertex(ent[1][j], 1)), "adjacent vertex"); else if (ME_Vertex(ent[1][j], 1) == v) A(has(l, ME_Vertex(ent[1][j], 0)), "adjacent vertex"); } drop(l);
    l = MV_Faces(v); n = 0; A(!l || !list_has_dups(l), "vertex's faces listed once");
    for (j = 0; j < nent[2]; j++) { List_ptr fv = MF_Vertices(ent[2][j], 1, 0); int u = usesv(fv, v); List_Delete(fv); A(u == has(l, ent[2][j]), "vertex lists exactly the faces that use it"); A(u == (MF_UsesEntity(ent[2][j], v, MVERTEX) != 0), "face uses vertex"); n += u; }
    A(n == len(l) && MV_Num_Faces(v) == n, "vertex lists only faces of the mesh"); k = -1; MV_FaceIDs(v, &k, ids); sameids(k, l, "face IDs of a vertex"); drop(l);
    l = MV_Regions(v); n = 0; A(!l || !list_has_dups(l), "vertex's regions listed once");
    for (j = 0; j < nent[3]; j++) { int u = cm_region_has(ent[3][j], v); A(u == has(l, ent[3][j]), "vertex lists exactly the regions that use it"); A(u == (MR_UsesEntity(ent[3][j], v, MVERTEX) != 0), "region uses vertex"); n += u; }
    A(n == len(l) && MV_Num_Regions(v) == n, "vertex lists only regions of the mesh"); k = -1; MV_RegionIDs(v, &k, ids); sameids(k, l, "region IDs of a vertex"); drop(l);
  }
  for (i = 0; i < nent[2]; i++) {
    MFace_ptr f = ent[2][i]; List_ptr fe = MF_Edges(f, 1, 0), fv = MF_Vertices(f, 1, 0); int n = List_Num_Entries(fe);
    A(n >= 3 && List_Num_Entries(fv) == n && MF_Num_Edges(f) == n && MF_Num_Vertices(f) == n, "face has as many vertices as edges");
    A(!list_has_dups(fe) && !list_has_dups(fv), "face's edges and vertices listed once");
    for (j = 0; j < n; j++) {
      MEdge_ptr e = List_Entry(fe, j); A(isin(1, e), "face uses only edges of the mesh"); int d = MF_EdgeDir(f, e); A(d == 0 || d == 1, "edge direction");
      A(MF_EdgeDir_i(f, j) == d, "edge direction by index");
      A(List_Entry(fv, j) == ME_Vertex(e, !d) && List_Entry(fv, (j + 1) % n) == ME_Vertex(e, d), "face's edges and vertices form one cycle");
      A(MF_UsesEntity(f, e, MEDGE) != 0, "face uses edge");
    }
    k = -1; MF_EdgeIDs(f, 1, 0, &k, ids); sameids(k, fe, "edge IDs of a face"); k = -1; MF_VertexIDs(f, 1, 0, &k, ids); sameids(k, fv, "vertex IDs of a face");
    for (j = 0; j < i; j++) { List_ptr gv = MF_Vertices(ent[2][j], 1, 0); int c = 0; if (List_Num_Entries(gv) == n) for (k = 0; k < n; k++) c += List_Contains(gv, List_Entry(fv, k)); A(c != n, "no two faces have the same vertices"); List_Delete(gv); }
    List_Delete(fe); List_Delete(fv);
    List_ptr fr = MF_Regions(f); int nr = 0;
    A(len(fr) <= 2 && (!fr || !list_has_dups(fr)), "at most two regions on a face");
    for (int s = 0; s < 2; s++) { MRegion_ptr r = MF_Region(f, s); if (r) { nr++; A(isin(3, r), "face lists only regions of the mesh"); A(has(fr, r), "face's sides and regions agree"); List_ptr rf = MR_Faces(r); A(List_Contains(rf, f), "region on a face's side uses the face"); List_Delete(rf); A(MR_FaceDir(r, f) == !s, "region lies on the side its face direction says"); } }
    A(nr == len(fr), "number of regions of a face"); k = -1; MF_RegionIDs(f, &k, ids); sameids(k, fr, "region IDs of a face"); for (int q = 0; q < 2; q++) { MRegion_ptr r = MF_Region(f, q); A(MF_RegionID(f, q) == (r ? MR_ID(r) : 0), "region ID on a side"); } drop(fr);
  }
  for (i = 0; i < nent[3]; i++) {
    MRegion_ptr r = ent[3][i]; List_ptr rf = MR_Faces(r), rv = MR_Vertices(r), re = MR_Edges(r), ra = MR_AdjRegions(r); int n = List_Num_Entries(rf);
    A(n >= 4 && MR_Num_Faces(r) == n && !list_has_dups(rf), "region's faces listed once");
    A(!list_has_dups(rv) && !list_has_dups(re) && MR_Num_Vertices(r) == List_Num_Entries(rv) && MR_Num_Edges(r) == List_Num_Entries(re), "region's vertices and edges listed once");
    A(List_Num_Entries(rv) - List_Num_Entries(re) + n == 2, "region boundary is a closed surface");
    if (cm_types) { int n3 = 0, n4 = 0; for (j = 0; j < n; j++) { int q = MF_Num_Vertices(List_Entry(rf, j)); n3 += q == 3; n4 += q == 4; A(MF_ElementType(List_Entry(rf, j)) == (q == 3 ? TRI : q == 4 ? QUAD : POLYGON), "element type of a face"); } A(MR_ElementType(r) == (n == 4 && n3 == 4 ? TET : n == 5 && n3 == 4 && n4 == 1 ? PYRAMID : n == 5 && n3 == 2 && n4 == 3 ? PRISM : n == 6 && n4 == 6 ? HEX : POLYHED), "region reports the element type its faces define"); }
    for (j = 0; j < n; j++) {
      MFace_ptr f = List_Entry(rf, j); A(isin(2, f), "region uses only faces of the mesh"); int d = MR_FaceDir_i(r, j); A(d == 0 || d == 1, "face direction"); A(MR_FaceDir(r, f) == d, "face direction by face"); A(MF_Region(f, !d) == r, "face knows the region on its side"); A(MR_UsesEntity(r, f, MFACE) != 0, "region uses face");
      List_ptr fv = MF_Vertices(f, 1, 0), fe = MF_Edges(f, 1, 0); for (k = 0; k < List_Num_Entries(fv); k++) { A(List_Contains(rv, List_Entry(fv, k)), "region's vertices include its faces' vertices"); A(List_Contains(re, List_Entry(fe, k)), "region's edges include its faces' edges"); } List_Delete(fv); List_Delete(fe);
      MRegion_ptr o = MF_Region(f, d); if (o) A(has(ra, o), "adjacent region");
    }
    for (k = 0; k < List_Num_Entries(re); k++) { MEdge_ptr e = List_Entry(re, k); int c = 0, s = 0; for (j = 0; j < n; j++) { MFace_ptr f = List_Entry(rf, j); if (MF_UsesEntity(f, e, MEDGE)) { c++; s += (MF_EdgeDir(f, e) == MR_FaceDir_i(r, j)) ? 1 : -1; } } A(c == 2 && s == 0, "each edge of a region is shared by two of its faces in opposite directions"); A(MR_UsesEntity(r, e, MEDGE) != 0, "region uses edge"); }
    for (k = 0; k < List_Num_Entries(rv); k++) { int c = 0; for (j = 0; j < n; j++) c += MF_UsesEntity(List_Entry(rf, j), List_Entry(rv, k), MVERTEX) != 0; A(c >= 2 && isin(0, List_Entry(rv, k)), "region's vertices come from its faces"); }
    int na = 0; for (j = 0; j < n; j++) na += MF_Region(List_Entry(rf, j), MR_FaceDir_i(r, j)) != NULL; A(len(ra) <= na && (na == 0 || len(ra) > 0) && (!ra || !list_has_dups(ra)), "number of adjacent regions");
    k = -1; MR_FaceIDs(r, &k, ids); sameids(k, rf, "face IDs of a region"); k = -1; MR_VertexIDs(r, &k, ids); sameids(k, rv, "vertex IDs of a region"); k = -1; MR_EdgeIDs(r, &k, ids); sameids(k, re, "edge IDs of a region"); k = -1; MR_AdjRegionIDs(r, &k, ids); sameids(k, ra, "adjacent region IDs");
    List_Delete(rf); List_Delete(rv); List_Delete(re); drop(ra);
  }
  sx_note("");
}
Snap snapA, snapB;
void cm_snap(Mesh_ptr m, Snap *s) {
  int i, j; MVertex_ptr v; MEdge_ptr e; MFace_ptr f; MRegion_ptr r; memset(s->n, 0, sizeof s->n);
#define COMMON(d, x) s->p[d][s->n[d]] = x; s->id[d][s->n[d]] = MEnt_ID(x); s->gdim[d][s->n[d]] = MEnt_GEntDim(x); s->gid[d][s->n[d]] = MEnt_GEntID(x);
  i = 0; while ((v = MESH_Next_Vertex(m, &i))) { COMMON(0, v) MV_Coords(v, s->x[s->n[0]]); s->n[0]++; }
  i = 0; while ((e = MESH_Next_Edge(m, &i))) { COMMON(1, e) s->ev[s->n[1]][0] = ME_VertexID(e, 0); s->ev[s->n[1]][1] = ME_VertexID(e, 1); s->n[1]++; }
  i = 0; while ((f = MESH_Next_Face(m, &i))) { COMMON(2, f) List_ptr l = MF_Edges(f, 1, 0); int n = List_Num_Entries(l); s->fe[s->n[2]][0] = n; for (j = 0; j < n && j < 9; j++) { s->fe[s->n[2]][j + 1] = ME_ID(List_Entry(l, j)); s->fd[s->n[2]][j + 1] = MF_EdgeDir_i(f, j); } List_Delete(l); s->n[2]++; }
  i = 0; while ((r = MESH_Next_Region(m, &i))) { COMMON(3, r) List_ptr l = MR_Faces(r); int n = List_Num_Entries(l); s->rf[s->n[3]][0] = n; for (j = 0; j < n && j < 9; j++) { s->rf[s->n[3]][j + 1] = MF_ID(List_Entry(l, j)); s->rd[s->n[3]][j + 1] = MR_FaceDir_i(r, j); } List_Delete(l); s->n[3]++; }
}
int cm_snap_eq(Snap *a, Snap *b, int classif) {
  for (int d = 0; d < 4; d++) { if (a->n[d] != b->n[d]) return 0;
    for (int i = 0; i < a->n[d]; i++) { if (a->p[d][i] != b->p[d][i] || a->id[d][i] != b->id[d][i]) return 0; if (classif && (a->gdim[d][i] != b->gdim[d][i] || a->gid[d][i] != b->gid[d][i])) return 0; } }
  for (int i = 0; i < a->n[0]; i++) for (int k = 0; k < 3; k++) if (!(a->x[i][k] == b->x[i][k])) return 0;
  for (int i = 0; i < a->n[1]; i++) for (int k = 0; k < 2; k++) if (a->ev[i][k] != b->ev[i][k]) return 0;
  for (int i = 0; i < a->n[2]; i++) { if (a->fe[i][0] != b->fe[i][0]) return 0; for (int k = 1; k <= a->fe[i][0]; k++) if (a->fe[i][k] != b->fe[i][k] || a->fd[i][k] != b->fd[i][k]) return 0; }
  for (int i = 0; i < a->n[3]; i++) { if (a->rf[i][0] != b->rf[i][0]) return 0; for (int k = 1; k <= a->rf[i][0]; k++) if (a->rf[i][k] != b->rf[i][k] || a->rd[i][k] != b->rd[i][k]) return 0; }
  return 1;
}
/* same content by position, in possibly different representations: compared through vertices only */
void cm_same_mesh(Mesh_ptr a, Mesh_ptr b, int classif, const char *what) {
  int i, j, k; sx_note(what);
  A(MESH_Num_Vertices(a) == MESH_Num_Vertices(b), "same number of vertices"); A(MESH_Num_Regions(a) == MESH_Num_Regions(b), "same number of regions");
  for (i = 0; i < MESH_Num_Vertices(a); i++) { double x[3], y[3]; MV_Coords(MESH_Vertex(a, i), x); MV_Coords(MESH_Vertex(b, i), y); for (k = 0; k < 3; k++) A(x[k] == y[k], "same coordinates");
    if (classif) { A(MV_GEntDim(MESH_Vertex(a, i)) == MV_GEntDim(MESH_Vertex(b, i)), "same vertex classification dimension"); A(MV_GEntID(MESH_Vertex(a, i)) == MV_GEntID(MESH_Vertex(b, i)), "same vertex classification ID"); } }
  if (MESH_Num_Regions(a) == 0) {
    A(MESH_Num_Faces(a) == MESH_Num_Faces(b), "same number of faces");
    for (i = 0; i < MESH_Num_Faces(a); i++) { List_ptr p = MF_Vertices(MESH_Face(a, i), 1, 0), q = MF_Vertices(MESH_Face(b, i), 1, 0); int n = List_Num_Entries(p); A(n == List_Num_Entries(q), "same face size");
      for (j = 0; j < n; j++) A(MV_ID(List_Entry(p, j)) == MV_ID(List_Entry(q, j)), "same face vertices in the same order"); List_Delete(p); List_Delete(q);
      if (classif) { A(MF_GEntDim(MESH_Face(a, i)) == MF_GEntDim(MESH_Face(b, i)), "same face classification dimension"); A(MF_GEntID(MESH_Face(a, i)) == MF_GEntID(MESH_Face(b, i)), "same face classification ID"); } }
  }
  for (i = 0; i < MESH_Num_Regions(a); i++) { List_ptr p = MR_Vertices(MESH_Region(a, i)), q = MR_Vertices(MESH_Region(b, i)); int n = List_Num_Entries(p); A(n == List_Num_Entries(q), "same region size");
    A(MR_ElementType(MESH_Region(a, i)) == MR_ElementType(MESH_Region(b, i)), "same element type");
    int t = MR_ElementType(MESH_Region(a, i)); (void)t;
    for (j = 0; j < n; j++) { int f = 0; for (k = 0; k < n; k++) f += MV_ID(List_Entry(p, j)) == MV_ID(List_Entry(q, k)); A(f == 1, "same region vertices"); } List_Delete(p); List_Delete(q);
    if (classif) { A(MR_GEntDim(MESH_Region(a, i)) == MR_GEntDim(MESH_Region(b, i)), "same region classification dimension"); A(MR_GEntID(MESH_Region(a, i)) == MR_GEntID(MESH_Region(b, i)), "same region classification ID"); } }
  sx_note("");
}
