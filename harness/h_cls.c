/* C23: derived classification */
#include "common.h"
#define N(d, m) ((d) == 0 ? MESH_Num_Vertices(m) : (d) == 1 ? MESH_Num_Edges(m) : (d) == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m))
static MEntity_ptr ent(Mesh_ptr m, int d, int i) { return d == 0 ? (MEntity_ptr)MESH_Vertex(m, i) : d == 1 ? (MEntity_ptr)MESH_Edge(m, i) : d == 2 ? (MEntity_ptr)MESH_Face(m, i) : (MEntity_ptr)MESH_Region(m, i); }
/* IDs may be symbolic: bring them to a concrete value on each path by comparing with the few there are */
static void dimid(MEntity_ptr e, int *o) { o[0] = MEnt_GEntDim(e); o[1] = MEnt_GEntID(e); }
static void setd(int d, MEntity_ptr e, int gd, int gi) { if (d == 0) { MV_Set_GEntDim(e, gd); MV_Set_GEntID(e, gi); } else if (d == 1) { ME_Set_GEntDim(e, gd); ME_Set_GEntID(e, gi); } else if (d == 2) { MF_Set_GEntDim(e, gd); MF_Set_GEntID(e, gi); } else { MR_Set_GEntDim(e, gd); MR_Set_GEntID(e, gi); } }
#define MX 160
typedef struct { int n, id[24]; } Ms;                      /* multiset of model entities around an entity, ascending */
static void ms_add(Ms *s, int v) { int j = s->n++; while (j > 0 && s->id[j - 1] > v) { s->id[j] = s->id[j - 1]; j--; } s->id[j] = v; }
static int ms_eq(Ms *a, Ms *b) { if (a->n != b->n) return 0; for (int i = 0; i < a->n; i++) if (a->id[i] != b->id[i]) return 0; return 1; }
static int cls[4][MX][2], was[4][MX][2]; static Ms ms[MX]; static int uf[MX];
static int fnd(int i) { while (uf[i] != i) i = uf[i]; return i; }
/* axis-aligned geometry: the plane of a face, the line of an edge */
static int plane(MFace_ptr f) { double x[MAXPV2][3]; int n; MF_Coords(f, &n, x); for (int k = 0; k < 3; k++) { int same = 1; for (int i = 1; i < n; i++) same &= x[i][k] == x[0][k]; if (same) return 3 * (int)(x[0][k] * 64) + k; } return -1; }
static int along(MEdge_ptr e) { double a[3], b[3]; MV_Coords(ME_Vertex(e, 0), a); MV_Coords(ME_Vertex(e, 1), b); for (int k = 0; k < 3; k++) if (a[k] != b[k]) return k; return -1; }
enum { P_NONE, P_STALE, P_FACES, P_SUB };
static void verify(Mesh_ptr m, int dim, int geo, int prior) {
  int i, j, k, n[4]; MEntity_ptr e; List_ptr l;
  for (int d = 0; d < 4; d++) { n[d] = N(d, m); for (i = 0; i < n[d]; i++) { e = ent(m, d, i); dimid(e, cls[d][i]); sx_assert(cls[d][i][0] >= d && cls[d][i][0] <= 3 && cls[d][i][1] > 0, "every entity is classified on an entity of its own or a higher dimension"); } }
  int maxr = 0; for (i = 0; i < n[3]; i++) if (was[3][i][1] > maxr) maxr = was[3][i][1];
  for (i = 0; i < n[3]; i++) { sx_assert(cls[3][i][0] == 3, "regions stay on model regions"); sx_assert(cls[3][i][1] == (was[3][i][1] > 0 ? was[3][i][1] : maxr + 1), "regions keep their model region, unclassified ones share a new one"); }
  /* faces */
  static int fr[MX], kept[MX]; memset(kept, 0, sizeof kept);
  for (i = 0; i < n[2]; i++) { e = ent(m, 2, i); ms[i].n = 0; l = MF_Regions(e); if (l) { for (j = 0; j < List_Num_Entries(l); j++) ms_add(&ms[i], MEnt_GEntID(List_Entry(l, j))); List_Delete(l); } uf[i] = i; fr[i] = ms[i].n == 2 && ms[i].id[0] == ms[i].id[1];
    if (fr[i]) sx_assert(cls[2][i][0] == 3 && cls[2][i][1] == ms[i].id[0], "a face inside a model region is classified on it");
    else { sx_assert(cls[2][i][0] == 2, "a boundary or interface face is classified on a model face"); kept[i] = (prior == P_FACES || dim == 2) && was[2][i][0] == 2 && was[2][i][1] > 0; if (kept[i] && !geo) sx_assert(cls[2][i][1] == was[2][i][1], "a classified model face keeps its ID"); } }
  if (geo) for (i = 0; i < n[1]; i++) { int f[24], c = 0; l = ME_Faces(ent(m, 1, i)); if (!l) continue; for (j = 0; j < List_Num_Entries(l); j++) { for (k = 0; k < n[2]; k++) if (ent(m, 2, k) == List_Entry(l, j)) break; if (!fr[k]) f[c++] = k; } List_Delete(l);
      if (c == 2 && plane(ent(m, 2, f[0])) == plane(ent(m, 2, f[1])) && (dim == 2 ? was[2][f[0]][1] == was[2][f[1]][1] : ms_eq(&ms[f[0]], &ms[f[1]]))) uf[fnd(f[0])] = fnd(f[1]); }
  for (i = 0; i < n[2]; i++) for (j = 0; j < i; j++) if (!fr[i] && !fr[j] && !kept[i] && !kept[j]) {
        int same = geo ? fnd(i) == fnd(j) : dim == 2 || ms_eq(&ms[i], &ms[j]); sx_assert((cls[2][i][1] == cls[2][j][1]) == same, "faces share a model face exactly when no feature separates them"); }
  if (dim == 2 && geo) for (i = 0; i < n[2]; i++) for (j = 0; j < i; j++) sx_assert((cls[2][i][1] == cls[2][j][1]) == (fnd(i) == fnd(j)), "faces share a model face exactly when no feature separates them");
  /* edges */
  for (i = 0; i < n[1]; i++) { e = ent(m, 1, i); ms[i].n = 0; uf[i] = i; int any = 0, r0 = 0; l = ME_Faces(e); if (l) { for (j = 0; j < List_Num_Entries(l); j++) { MFace_ptr f = List_Entry(l, j); any = 1; if (MF_GEntDim(f) == 2) ms_add(&ms[i], MF_GEntID(f)); else r0 = MF_GEntID(f); } List_Delete(l); }
    if (!any) { sx_assert(cls[1][i][0] == 1, "an edge no face uses is a model edge"); continue; }
    if (ms[i].n == 0) sx_assert(cls[1][i][0] == 3 && cls[1][i][1] == r0, "an edge inside a model region is classified on it");
    else if (ms[i].n == 2 && ms[i].id[0] == ms[i].id[1] && !(prior == P_SUB && was[1][i][0] == 1)) sx_assert(cls[1][i][0] == 2 && cls[1][i][1] == ms[i].id[0], "an edge inside a model face is classified on it");
    else sx_assert(cls[1][i][0] == 1, "an edge bounding model faces is classified on a model edge"); }
  if (geo) for (i = 0; i < n[0]; i++) { int f[24], c = 0; l = MV_Edges(ent(m, 0, i)); if (!l) continue; for (j = 0; j < List_Num_Entries(l); j++) { for (k = 0; k < n[1]; k++) if (ent(m, 1, k) == List_Entry(l, j)) break; if (cls[1][k][0] == 1) f[c++] = k; } List_Delete(l);
      if (c == 2 && along(ent(m, 1, f[0])) == along(ent(m, 1, f[1])) && ms_eq(&ms[f[0]], &ms[f[1]])) uf[fnd(f[0])] = fnd(f[1]); }
  for (i = 0; i < n[1]; i++) for (j = 0; j < i; j++) if (cls[1][i][0] == 1 && cls[1][j][0] == 1) { int same = geo ? fnd(i) == fnd(j) : ms_eq(&ms[i], &ms[j]);
        if (prior != P_SUB || (was[1][i][0] != 1 && was[1][j][0] != 1)) sx_assert((cls[1][i][1] == cls[1][j][1]) == same, "edges share a model edge exactly when no feature separates them"); else if (!same) sx_assert(cls[1][i][1] != cls[1][j][1], "edges of different model faces lie on different model edges"); }
  /* vertices */
  for (i = 0; i < n[0]; i++) { e = ent(m, 0, i); ms[i].n = 0; int any = 0, gf = 0, many = 0, r0 = 0; l = MV_Edges(e); if (l) { for (j = 0; j < List_Num_Entries(l); j++) { MEdge_ptr g = List_Entry(l, j); any = 1; int d = ME_GEntDim(g), id = ME_GEntID(g); if (d == 1) ms_add(&ms[i], id); else if (d == 2) { if (gf && gf != id) many = 1; gf = id; } else r0 = id; } List_Delete(l); }
    if (!any) { sx_assert(cls[0][i][0] == 0, "a vertex no edge uses is a model vertex"); continue; }
    if (ms[i].n == 0) { if (many) sx_assert(cls[0][i][0] == 0, "a point where model faces touch is a model vertex"); else if (gf) sx_assert(cls[0][i][0] == 2 && cls[0][i][1] == gf, "a vertex inside a model face is classified on it"); else sx_assert(cls[0][i][0] == 3 && cls[0][i][1] == r0, "a vertex inside a model region is classified on it"); }
    else if (ms[i].n == 2 && ms[i].id[0] == ms[i].id[1] && !(prior == P_SUB && was[0][i][0] == 0)) sx_assert(cls[0][i][0] == 1 && cls[0][i][1] == ms[i].id[0], "a vertex inside a model edge is classified on it");
    else { sx_assert(cls[0][i][0] == 0, "a vertex where model edges end or meet is a model vertex"); } }
  for (i = 0; i < n[0]; i++) for (j = 0; j < i; j++) if (cls[0][i][0] == 0 && cls[0][j][0] == 0 && !ms_eq(&ms[i], &ms[j])) sx_assert(cls[0][i][1] != cls[0][j][1], "vertices of different model edges are different model vertices");
}
static void prep(Mesh_ptr m, int dim, int geo, int prior, int ncol) {
  int n0 = N(dim, m); int sy = n0 <= 4 ? n0 : 4; int g[4], none = geo && dim == 2 ? sx_pick("unclassified", 0, 1) : -1; for (int i = 0; i < sy; i++) g[i] = none == 1 ? 0 : sx_int("g", none == 0 ? 1 : prior == P_STALE ? 0 : -1, ncol);
  for (int d = 0; d < 4; d++) for (int i = 0; i < N(d, m); i++) { MEntity_ptr e = ent(m, d, i); int gd = 4, gi = 0;
      if (d == dim) { gi = g[i % sy]; if (gi < 0 && dim == 3) gi = -5; if (dim == 2) { gd = gi > 0 ? 2 : 4; if (gi < 0) gi = 0; } else gd = 3; }
      else if (prior == P_STALE) { gd = 3; gi = 1; }
      else if (prior == P_FACES && d == 2) { List_ptr l = MF_Regions(e); if (List_Num_Entries(l) == 1 && i % 3) { gd = 2; gi = 7 + i % 2; } List_Delete(l); }
      else if (prior == P_SUB && d == 1 && i == 0) { gd = 1; gi = sx_int("ge", 0, 3); }
      else if (prior == P_SUB && d == 0 && i == 0) { gd = 0; gi = sx_int("gv", 0, 3); }
      if (gd != 4 || d == dim) setd(d, e, gd, gi); else { if (d == 0) MV_Set_GEntDim(e, 4); else if (d == 1) ME_Set_GEntDim(e, 4); else if (d == 2) MF_Set_GEntDim(e, 4); }
      was[d][i][0] = MEnt_GEntDim(e); was[d][i][1] = MEnt_GEntID(e); }
}
static void build(Mesh_ptr m, int dim, int geo, int prior, int ncol) {
  prep(m, dim, geo, prior, ncol); cm_snap(m, &snapA); 
  sx_assert(MESH_BuildClassfn(m, geo) == 1, "classification succeeds");
  sx_assert(MESH_Num_Attribs(m) == 0, "no attribute left behind");
  cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 0), "nothing but classification changes"); verify(m, dim, geo, prior); MESH_Delete(m); sx_check_leaks(0, "no memory left behind"); sx_cover("end");
}
static void cat(int rep, int ncat, const int *c, int dim) {
  CM b; int k = c[sx_pick("mesh", 0, ncat - 1)], prior = sx_pick("prior", 0, 3), extra = sx_pick("extra", 0, 2); if (dim == 2 && prior == P_FACES) return; cm_build(&b, rep, k, 0);
  if (extra == 1) { MVertex_ptr v = MV_New(b.m), w = MV_New(b.m); (void)v; (void)w; }
  if (extra == 2) { MVertex_ptr v = MV_New(b.m), w = MV_New(b.m); for (int i = 0; i < 2; i++) { MEdge_ptr e = ME_New(b.m); ME_Set_Vertex(e, 0, v); ME_Set_Vertex(e, 1, w); } MEdge_ptr e = ME_New(b.m); ME_Set_Vertex(e, 0, w); ME_Set_Vertex(e, 1, b.v[0]); }
  build(b.m, dim, 0, prior, TH(2, 3));
}
static const int c2[] = {C_QUAD22, C_FAN4, C_TRIQUAD, C_STRIP3, C_TRI, C_TRI6, C_PENTTRI}, c3[] = {C_TET3E, C_HEX2, C_PYRHEX, C_TET, C_TET4, C_PRISMTET, C_TET6};
void h_cls2_F1(void) { cat(F1, TH(3, 7), c2, 2); }
void h_cls2_F4(void) { cat(F4, TH(1, 7), c2, 2); }
void h_cls3_F1(void) { cat(F1, TH(4, 7), c3, 3); }
void h_cls3_F4(void) { cat(F4, TH(1, 7), c3, 3); }
/* boxes: sharp edges and corners */
void h_geo2(void) { int nx = sx_pick("nx", 1, TH(2, 3)), ny = sx_pick("ny", 1, 2), rep = sx_pick("F4", 0, 1) ? F4 : F1; (void)rep; Mesh_ptr m = MESH_Gen_Structured(0, 0, 0, nx, ny, 0, nx, ny, 0); build(m, 2, 1, P_NONE, 2); }
void h_geo3(void) { int nx = sx_pick("nx", 1, 2), ny = sx_pick("ny", 1, TH(2, 2)), nz = sx_pick("nz", 1, TH(1, 2)); Mesh_ptr m = MESH_Gen_Structured(0, 0, 0, nx, ny, nz, nx, ny, nz); build(m, 3, 1, P_NONE, 2); }
/* more model entities than the first tables hold; classifying again changes nothing */
static void many(Mesh_ptr m, int dim) {
  int n0 = N(dim, m), d, i, rep = 0, g = sx_int("g", 1, n0 + 1), at = sx_pick("at", 0, 1) * (n0 / 2);
  for (d = 0; d < 4; d++) for (i = 0; i < N(d, m); i++) { MEntity_ptr e = ent(m, d, i); if (d == dim) setd(d, e, dim, i == at ? g : n0 - i); else if (d == 0) MV_Set_GEntDim(e, 4); else if (d == 1) ME_Set_GEntDim(e, 4); else if (d == 2) MF_Set_GEntDim(e, 4); was[d][i][0] = MEnt_GEntDim(e); was[d][i][1] = MEnt_GEntID(e); }
  cm_snap(m, &snapA); sx_assert(MESH_BuildClassfn(m, 0) == 1, "classification succeeds"); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 0), "nothing but classification changes"); verify(m, dim, 0, P_NONE);
  int vid[64], nv = N(0, m); for (i = 0; i < nv; i++) vid[i] = MV_GEntID(MESH_Vertex(m, i)); cm_snap(m, &snapA); sx_assert(MESH_BuildClassfn(m, 0) == 1, "classification succeeds");
  for (i = 0; i < nv; i++) { MVertex_ptr v = MESH_Vertex(m, i); List_ptr l = MV_Edges(v); if (l) List_Delete(l); else { sx_assert(MV_GEntDim(v) == 0, "a lone vertex is a model vertex"); MV_Set_GEntID(v, vid[i]); } } /* each lone vertex is given a model vertex of its own, numbered anew each time */
  cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "a second classification changes nothing");
  MESH_Delete(m); sx_check_leaks(0, "no memory left behind"); sx_cover("end");
}
void h_many2(void) { Mesh_ptr m = MESH_Gen_Structured(0, 0, 0, 1, 1, 0, 4, 3, 0); many(m, 2); }
void h_many3(void) { Mesh_ptr m = MESH_Gen_Structured(0, 0, 0, 1, 1, 1, 3, 2, 2); many(m, 3); }
void h_manyfan(void) { int i, n = 13; Mesh_ptr m = MESH_New(F1); MVertex_ptr c = MV_New(m), v[13]; double x[3] = {0, 0, 0}; MV_Set_Coords(c, x); for (i = 0; i < n; i++) { x[0] = i < 7 ? 5 - i : i - 10; x[1] = i < 7 ? 1 + i : -2 - i; v[i] = MV_New(m); MV_Set_Coords(v[i], x); } for (i = 0; i < n; i++) { MVertex_ptr t[3] = {c, v[i], v[(i + 1) % n]}; MFace_ptr f = MF_New(m); MF_Set_Vertices(f, 3, t); } many(m, 2); }
/* a block around an interior vertex, two of its corner cells of arbitrary material (their surfaces may touch in the point) */
void h_touch3(void) { Mesh_ptr m = MESH_Gen_Structured(0, 0, 0, 1, 1, 1, 2, 2, 2); int d, i, g0 = sx_int("g0", 1, 3), g7 = sx_int("g7", 1, 3), o = sx_pick("other", 1, TH(7, 7)), rep = 0; for (d = 0; d < 4; d++) for (i = 0; i < N(d, m); i++) { MEntity_ptr e = ent(m, d, i); if (d == 3) setd(d, e, 3, i == 0 ? g0 : i == o ? g7 : 1); else if (d == 0) MV_Set_GEntDim(e, 4); else if (d == 1) ME_Set_GEntDim(e, 4); else MF_Set_GEntDim(e, 4); was[d][i][0] = MEnt_GEntDim(e); was[d][i][1] = MEnt_GEntID(e); }
  sx_assert(MESH_BuildClassfn(m, 0) == 1, "classification succeeds"); verify(m, 3, 0, P_NONE); MESH_Delete(m); sx_check_leaks(0, "no memory left behind"); sx_cover("end"); }
/* many faces on one edge, many unused edges and vertices */
void h_manywire(void) { int i, n = 14; Mesh_ptr m = MESH_New(F1); MVertex_ptr v[44]; for (i = 0; i < 44; i++) { double x[3] = {i, i * i, i % 5}; v[i] = MV_New(m); MV_Set_Coords(v[i], x); } for (i = 0; i < n; i++) { MVertex_ptr t[3] = {v[0], v[1], v[2 + i]}; MFace_ptr f = MF_New(m); MF_Set_Vertices(f, 3, t); } for (i = 0; i < 12; i++) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, v[16 + i]); ME_Set_Vertex(e, 1, v[17 + i]); } many(m, 2); }
