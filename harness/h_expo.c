/* C18: exchange files */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "topo.h"
static Topo TA, TB;
static int vals3[3];
/* a mesh with arbitrary coordinates, possibly with a cell missing; numbering may have gaps */
static int prep(CM *b, int rep, int k, int opts, int hole) {
  cm_build(b, rep, k, opts); Mesh_ptr m = b->m; int i, q, d; for (i = 0; i < NE(0, m); i++) { double y[3]; for (q = 0; q < 3; q++) y[q] = sx_dint("x", -9999, 9999); MV_Set_Coords(MESH_Vertex(m, i), y); }
  if (hole && b->c->nc > 1) { int w = hole == 1 ? 0 : b->c->nc - 1; if (b->c->dim == 3) MR_Delete(b->cell[w], 0); else MF_Delete(b->cell[w], 0);
    for (d = 2; d >= 1; d--) for (i = NE(d, m) - 1; i >= 0; i--) { MEntity_ptr e = ent(m, d, i); List_ptr l = d == 1 ? ME_Faces(e) : b->c->dim == 3 ? MF_Regions(e) : NULL; if (l) List_Delete(l); else if (d == 1) ME_Delete(e, 0); else if (b->c->dim == 3) MF_Delete(e, 0); } }
  for (i = 0; i < NE(0, m); i++) MV_Set_GEntDim(MESH_Vertex(m, i), i % 4);
  int D = b->c->dim; for (i = 0; i < NE(D, m); i++) { MEntity_ptr e = ent(m, D, i); q = i == 1 ? 17 : 5; if (D == 2) { MF_Set_GEntDim(e, 2); MF_Set_GEntID(e, q); } else { MR_Set_GEntDim(e, 3); MR_Set_GEntID(e, q); } }
  return D; }
static MAttrib_ptr A[4];
static const char *AN[] = {"vi", "vd", "ci", "cd"};
static void attput(Mesh_ptr m, int D) { int i, a; for (a = 0; a < 3; a++) vals3[a] = sx_int("value", -1000, 1000); for (a = 0; a < 4; a++) { A[a] = MAttrib_New(m, AN[a], a % 2 ? DOUBLE : INT, (MType)(a < 2 ? 0 : D)); for (i = 0; i < NE(a < 2 ? 0 : D, m); i++) if (i != 1) { int v = vals3[(a + i) % 3]; if (a % 2) MEnt_Set_AttVal(ent(m, a < 2 ? 0 : D, i), A[a], 0, (double)v, NULL); else MEnt_Set_AttVal(ent(m, a < 2 ? 0 : D, i), A[a], v, 0, NULL); } } }
static void attchk(Mesh_ptr c, int D, int from) { int i, a; for (a = from; a < 4; a++) { MAttrib_ptr B = MESH_AttribByName(c, AN[a]); sx_assert(B != NULL && MAttrib_Get_EntDim(B) == (MType)(a < 2 ? 0 : D), "attributes are read back"); for (i = 0; i < NE(a < 2 ? 0 : D, c); i++) { int iv = 0; double dv = 0; void *pv; MEnt_Get_AttVal(ent(c, a < 2 ? 0 : D, i), B, &iv, &dv, &pv); double w = i != 1 ? (double)vals3[(a + i) % 3] : 0.0; sx_assert((MAttrib_Get_Type(B) == INT ? (double)iv : dv) == w, "attribute values are read back"); } } }
static void same(Mesh_ptr m, Mesh_ptr c, const char *w) { int i, j, D = MESH_Num_Regions(m) ? 3 : 2; sx_assert(MESH_Num_Vertices(m) == MESH_Num_Vertices(c), w); sx_assert(NE(D, m) == NE(D, c), w);
  memset(&TA, 0, sizeof TA); memset(&TB, 0, sizeof TB); tp_read(m, &TA, NULL); tp_read(c, &TB, NULL); tp_match(&TA, &TB, 0); cm_valid(c, "read");
  for (i = 0; i < NE(D, m); i++) { List_ptr x = D == 2 ? MF_Vertices(ent(m, 2, i), 1, 0) : MR_Vertices(ent(m, 3, i)), y = D == 2 ? MF_Vertices(ent(c, 2, i), 1, 0) : MR_Vertices(ent(c, 3, i)); int n = List_Num_Entries(x), s = 0, k; sx_assert(n == List_Num_Entries(y), "cells keep their order and vertices");
    for (j = 0; j < n; j++) for (k = 0; k < n; k++) s += MV_ID(List_Entry(y, j)) == 1 + tp_v(&TA, List_Entry(x, k)); sx_assert(s == n, "cells keep their order and vertices"); List_Delete(x); List_Delete(y); }
  for (i = 0; i < NE(D, m); i++) for (j = 0; j < i; j++) { int p = D == 2 ? MF_GEntID(ent(m, 2, i)) == MF_GEntID(ent(m, 2, j)) : MR_GEntID(ent(m, 3, i)) == MR_GEntID(ent(m, 3, j)), q = D == 2 ? MF_GEntID(ent(c, 2, i)) == MF_GEntID(ent(c, 2, j)) : MR_GEntID(ent(c, 3, i)) == MR_GEntID(ent(c, 3, j)); sx_assert(p == q, "cells of one material stay together"); } }
static int nexti(FILE *f) { int x = -99; sx_assert(fscanf(f, "%d", &x) == 1, "the announced number is there"); return x; }
static double nextd(FILE *f) { double x = 0; sx_assert(fscanf(f, "%lf", &x) == 1, "the announced coordinate is there"); return x; }
static int word(FILE *f, const char *w) { char t[64] = ""; fscanf(f, "%60s", t); return strcmp(t, w) == 0; }
/* GMV: the cells as the format defines them: outward faces of standard cells in terms of their listed nodes */
static const struct { const char *n; int nv, nf, f[6][5]; } GC[] = {{"tet", 4, 4, {{3, 1, 2, 3}, {3, 1, 3, 4}, {3, 1, 4, 2}, {3, 2, 4, 3}}}, {"pyramid", 5, 5, {{3, 1, 2, 3}, {3, 1, 3, 4}, {3, 1, 4, 5}, {3, 1, 5, 2}, {4, 2, 5, 4, 3}}}, {"prism", 6, 5, {{3, 1, 2, 3}, {4, 1, 4, 5, 2}, {4, 2, 5, 6, 3}, {4, 3, 6, 4, 1}, {3, 4, 6, 5}}}, {"hex", 8, 6, {{4, 1, 2, 3, 4}, {4, 1, 5, 6, 2}, {4, 2, 6, 7, 3}, {4, 3, 7, 8, 4}, {4, 4, 8, 5, 1}, {4, 5, 8, 7, 6}}}, {"tri", 3, 0, {{0}}}, {"quad", 4, 0, {{0}}}};
static int vx(Mesh_ptr m, int id) { sx_assert(id >= 1 && id <= MESH_Num_Vertices(m), "references are to vertices of the file"); return id; }
static int cyc(List_ptr l, Mesh_ptr m, int n, int *w) { MVertex_ptr p[12]; for (int k = 0; k < n; k++) p[k] = MESH_Vertex(m, vx(m, w[k]) - 1); return List_Num_Entries(l) == n ? cm_same_cycle(l, n, p) : 0; }
static void gmvtext(Mesh_ptr m, int D, int *o) { FILE *f = fopen("e.gmv", "r"); int i, j, k, q, n, nv = MESH_Num_Vertices(m); char t[64]; double y[3];
  sx_assert(word(f, "gmvinput") && word(f, "ascii"), "header"); do { t[0] = 0; sx_assert(fscanf(f, "%60s", t) == 1, "nodes follow"); } while (strcmp(t, o[0] ? "nodes" : "nodev")); sx_assert(nexti(f) == nv, "number of vertices");
  for (j = 0; j < (o[0] ? 3 : 1); j++) for (i = 0; i < nv; i++) { MV_Coords(MESH_Vertex(m, i), y); if (o[0]) sx_assert(nextd(f) == y[j], "vertex coordinates"); else for (k = 0; k < 3; k++) sx_assert(nextd(f) == y[k], "vertex coordinates"); }
  sx_assert(word(f, "cells"), "cells"); sx_assert(nexti(f) == NE(D, m), "number of cells");
  for (i = 0; i < NE(D, m); i++) { MEntity_ptr c = ent(m, D, i); List_ptr fl = D == 3 ? MR_Faces(c) : NULL; int nf = fl ? List_Num_Entries(fl) : 0, w[12], hit = 0; fscanf(f, "%60s", t);
    if (!strcmp(t, "general")) { int fn[12]; n = nexti(f); sx_assert(n == (D == 3 ? nf : 1), "number of faces"); for (j = 0; j < n; j++) fn[j] = nexti(f); for (j = 0; j < n; j++) { for (k = 0; k < fn[j]; k++) w[k] = nexti(f); if (D == 2) { List_ptr l = MF_Vertices(c, 1, 0); hit += cyc(l, m, fn[j], w) == 1; List_Delete(l); } else for (q = 0; q < nf; q++) { List_ptr l = MF_Vertices(List_Entry(fl, q), MR_FaceDir_i(c, q), 0); hit += cyc(l, m, fn[j], w) == 1; List_Delete(l); } } sx_assert(hit == n, "the faces of the cell, outward"); }
    else { for (k = 0; k < 6 && strcmp(t, GC[k].n); k++) ; sx_assert(k < 6 && (k >= 4) == (D == 2), "a cell type of the format"); n = nexti(f); sx_assert(n == GC[k].nv, "number of nodes of the cell"); for (j = 0; j < n; j++) w[j] = nexti(f);
      if (D == 2) { List_ptr l = MF_Vertices(c, 1, 0); sx_assert(cyc(l, m, n, w) == 1, "the vertices of the cell in order"); List_Delete(l); }
      else { sx_assert(nf == GC[k].nf, "number of faces"); for (j = 0; j < nf; j++) { int g[4]; for (q = 0; q < GC[k].f[j][0]; q++) g[q] = w[GC[k].f[j][q + 1] - 1]; for (q = 0; q < nf; q++) { List_ptr l = MF_Vertices(List_Entry(fl, q), MR_FaceDir_i(c, q), 0); hit += cyc(l, m, GC[k].f[j][0], g) == 1; List_Delete(l); } } sx_assert(hit == nf, "the faces of the cell, outward"); } }
    if (fl) List_Delete(fl); }
  fclose(f); }
static void gmv(int rep, int ncat, const int *cats) {
  CM b; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], hole = sx_pick("hole", 0, 2), o[2]; int D = prep(&b, rep, k, CM_FDIR, hole); o[0] = sx_pick("by coordinate", 0, 1); o[1] = D == 3 ? sx_pick("by faces", 0, 1) : 0; Mesh_ptr m = b.m; cm_snap(m, &snapA); attput(m, D); int n0 = MESH_Num_Attribs(m);
  sx_assert((rep == F4 ? MESH_ExportToFile(m, "e.gmv", hole ? "gmv" : NULL, 0, NULL, o, NULL) : MESH_ExportToGMV(m, "e.gmv", 0, NULL, o, NULL)) == 1, "exported"); sx_assert(MESH_Num_Attribs(m) == n0, "no attribute left"); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "exporting does not change the mesh"); attchk(m, D, 0); if (!o[1]) gmvtext(m, D, o);
  Mesh_ptr c = MESH_New(rep); sx_assert((rep == F4 ? MESH_ImportFromFile(c, "e.gmv", hole ? NULL : "gmv", NULL, NULL) : MESH_ImportFromGMV(c, "e.gmv", NULL)) == 1, "imported"); sx_unlink("e.gmv"); same(m, c, "same number of vertices and cells"); for (int i = 0; i < NE(0, m); i++) sx_assert(MV_GEntDim(MESH_Vertex(c, i)) == MV_GEntDim(MESH_Vertex(m, i)), "dimension of the model entity of vertices"); attchk(c, D, 0);
  MESH_Delete(m); MESH_Delete(c); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static void off(int rep, int ncat, const int *cats) {
  CM b; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], hole = sx_pick("hole", 0, 2), i, j; prep(&b, rep, k, CM_FDIR, hole); Mesh_ptr m = b.m; if (hole && NE(0, m) > 3) { MVertex_ptr v = MESH_Vertex(m, 0); List_ptr l = MV_Faces(v); if (l) List_Delete(l); else MV_Delete(v, 0); } cm_snap(m, &snapA);
  sx_assert((rep == F4 ? MESH_ExportToFile(m, "e.off", hole ? "off" : NULL, 0, NULL, NULL, NULL) : MESH_ExportToOFF(m, "e.off")) == 1, "exported"); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1) && MESH_Num_Attribs(m) == 0, "exporting does not change the mesh");
  FILE *f = fopen("e.off", "r"); sx_assert(word(f, "OFF"), "header"); sx_assert(nexti(f) == NE(0, m), "number of vertices"); sx_assert(nexti(f) == NE(2, m), "number of faces"); nexti(f);
  for (i = 0; i < NE(0, m); i++) { double y[3]; MV_Coords(MESH_Vertex(m, i), y); for (j = 0; j < 3; j++) sx_assert(nextd(f) == y[j], "vertex coordinates"); }
  for (i = 0; i < NE(2, m); i++) { int n = nexti(f), w[12]; List_ptr l = MF_Vertices(MESH_Face(m, i), 1, 0); sx_assert(n == List_Num_Entries(l), "number of vertices of the face"); for (j = 0; j < n; j++) w[j] = nexti(f) + 1; sx_assert(cyc(l, m, n, w) == 1, "the face references its vertices in order, counted from zero"); List_Delete(l); }
  sx_assert(fscanf(f, "%d", &j) != 1, "nothing more in the file"); fclose(f); sx_unlink("e.off"); MESH_Delete(m); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static void stl(int rep, int ncat, const int *cats) {
  CM b; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], hole = sx_pick("hole", 0, 2), flat = sx_pick("fixed", 0, 1), i, j, q; if (flat) cm_build(&b, rep, k, CM_FDIR); else prep(&b, rep, k, CM_FDIR, hole); Mesh_ptr m = b.m; cm_snap(m, &snapA);
  int tri = 1; for (i = 0; i < NE(2, m); i++) tri &= MF_Num_Edges(MESH_Face(m, i)) == 3; int ok = rep == F4 ? MESH_ExportToFile(m, "e.stl", "stl", 0, NULL, NULL, NULL) : MESH_ExportToSTL(m, "e.stl"); sx_assert(ok == (tri && NE(3, m) == 0), "exactly triangulated surfaces are exported"); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "exporting does not change the mesh");
  if (ok) { FILE *f = fopen("e.stl", "r"); sx_assert(word(f, "solid"), "header"); for (i = 0; i < NE(2, m); i++) { double n[3], x[3][3], u[3], w[3]; sx_assert(word(f, "facet") && word(f, "normal"), "one facet per face"); for (j = 0; j < 3; j++) n[j] = nextd(f); sx_assert(word(f, "outer") && word(f, "loop"), "the loop follows"); List_ptr l = MF_Vertices(MESH_Face(m, i), 1, 0);
      for (q = 0; q < 3; q++) { double y[3]; sx_assert(word(f, "vertex"), "three vertices"); MV_Coords(List_Entry(l, q), y); for (j = 0; j < 3; j++) { x[q][j] = nextd(f); sx_assert(flat ? fabs(x[q][j] - y[j]) < 1e-9 : x[q][j] == y[j], "the corners of the face in order"); } } List_Delete(l); sx_assert(word(f, "endloop"), "the loop ends"); sx_assert(word(f, "endfacet"), "the facet ends");
      if (flat) { double s = 0; for (j = 0; j < 3; j++) { u[j] = x[1][j] - x[0][j]; w[j] = x[2][j] - x[0][j]; } double z[3] = {u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]}; s = sqrt(z[0] * z[0] + z[1] * z[1] + z[2] * z[2]); for (j = 0; j < 3; j++) sx_assert(fabs(n[j] - z[j] / s) < 1e-6, "unit normal by the right hand rule"); } }
    sx_assert(word(f, "endsolid"), "the solid ends"); char t[8]; sx_assert(fscanf(f, "%5s", t) != 1, "nothing more in the file"); fclose(f); sx_cover("written"); }
  sx_unlink("e.stl"); MESH_Delete(m); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
static const int c2[] = {C_TRIQUAD, C_PENTTRI, C_QUAD22, C_FAN4, C_TRI6}, c3[] = {C_PYRHEX, C_PRISMTET, C_TET2, C_HEX2, C_TET4, C_TET6}, ct[] = {C_FAN4, C_TET, C_TRIQUAD, C_TRI2, C_TRI, C_TRI6};
void h_gmv2_F1(void) { gmv(F1, TH(2, 5), c2); }
void h_gmv3_F1(void) { gmv(F1, TH(2, 6), c3); }
void h_gmv2_F4(void) { gmv(F4, TH(1, 5), c2); }
void h_gmv3_F4(void) { gmv(F4, TH(2, 6), c3); }
void h_off_F1(void) { off(F1, TH(3, 5), c2); }
void h_off_F4(void) { off(F4, TH(2, 5), c2); }
void h_stl_F1(void) { stl(F1, TH(3, 6), ct); }
void h_stl_F4(void) { stl(F4, TH(3, 6), ct); }
static void x3d(int rep, int ncat, const int *cats) {
  CM b; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], hole = sx_pick("hole", 0, 2); int D = prep(&b, rep, k, CM_FDIR, hole), o[2] = {0, 0}; Mesh_ptr m = b.m; cm_snap(m, &snapA); attput(m, D); int n0 = MESH_Num_Attribs(m); char fn[] = "e.x3d";
  sx_assert((rep == F4 ? MESH_ExportToFile(m, fn, "x3d", 0, NULL, NULL, MPI_COMM_WORLD) : MESH_ExportToFLAGX3D(m, fn, 0, NULL, NULL, MPI_COMM_WORLD)) == 1, "exported"); sx_assert(MESH_Num_Attribs(m) == n0, "no attribute left"); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "exporting does not change the mesh");
  sx_assert(strcmp(fn, "e.x3d") == 0, "the name of the file is left alone");
  Mesh_ptr c = MESH_New(rep); sx_assert((rep == F4 ? MESH_ImportFromFile(c, "e.x3d", hole ? NULL : "x3d", o, MPI_COMM_WORLD) : MESH_ImportFromFLAGX3D(c, "e.x3d", o, MPI_COMM_WORLD)) == 1, "imported"); sx_unlink("e.x3d"); same(m, c, "same number of vertices and cells"); attchk(c, D, 2);
  MESH_Delete(m); MESH_Delete(c); sx_check_leaks(lb, "nothing left behind"); sx_cover("end"); }
void h_x3d2_F1(void) { x3d(F1, TH(2, 5), c2); }
void h_x3d3_F1(void) { x3d(F1, TH(2, 6), c3); }
void h_x3d2_F4(void) { x3d(F4, TH(1, 5), c2); }
void h_x3d3_F4(void) { x3d(F4, TH(1, 6), c3); }
