/* C20 structured generation, C21 general description, C26 element graph, C27 element conversion */
#include "topo.h"
static Topo X, Z;
static int base;
/* ---------------- C20 */
static int G[5][5][5];
static const int vid3[3][3][3] = {{{1,4,5},{9,6,12},{3,8,7}},{{1,1,3},{3,1,4},{5,2,7}},{{2,2,6},{10,5,11},{4,6,8}}};   /* the model numbering drawn in MESH_Gen_Structured.c */
static int cls1(int i, int n) { return i == 0 ? 0 : i == n ? 2 : 1; }
static void gcls(int *c, int a, int b, int d) { c[0] = (a == 1) + (b == 1) + (d == 1); c[1] = vid3[a][b][d]; }
static void gexp3(int nx, int ny, int nz) {
  int i, j, k, g[2], e;
#define C3(a, b, d) gcls(g, a, b, d)
  for (i = 0; i <= nx; i++) for (j = 0; j <= ny; j++) for (k = 0; k <= nz; k++) { int a = cls1(i, nx), b = cls1(j, ny), d = cls1(k, nz), v = G[i][j][k]; C3(a, b, d); X.vg[v][0] = g[0]; X.vg[v][1] = g[1];
    if (i < nx) { C3(1, b, d); tp_adde(&X, v, G[i + 1][j][k], g[0], g[1]); } if (j < ny) { C3(a, 1, d); tp_adde(&X, v, G[i][j + 1][k], g[0], g[1]); } if (k < nz) { C3(a, b, 1); tp_adde(&X, v, G[i][j][k + 1], g[0], g[1]); }
    if (i < nx && j < ny) { C3(1, 1, d); int c[4] = {v, G[i + 1][j][k], G[i + 1][j + 1][k], G[i][j + 1][k]}; tp_addf(&X, 4, c, g[0], g[1]); }
    if (i < nx && k < nz) { C3(1, b, 1); int c[4] = {v, G[i + 1][j][k], G[i + 1][j][k + 1], G[i][j][k + 1]}; tp_addf(&X, 4, c, g[0], g[1]); }
    if (j < ny && k < nz) { C3(a, 1, 1); int c[4] = {v, G[i][j + 1][k], G[i][j + 1][k + 1], G[i][j][k + 1]}; tp_addf(&X, 4, c, g[0], g[1]); } }
  static const int hf[6][4] = {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}};
  for (i = 0; i < nx; i++) for (j = 0; j < ny; j++) for (k = 0; k < nz; k++) { int h[8] = {G[i][j][k], G[i+1][j][k], G[i+1][j+1][k], G[i][j+1][k], G[i][j][k+1], G[i+1][j][k+1], G[i+1][j+1][k+1], G[i][j+1][k+1]}, c[6][12], n[6]; for (e = 0; e < 6; e++) { n[e] = 4; for (int q = 0; q < 4; q++) c[e][q] = h[hf[e][q]]; } tp_addr(&X, 6, c, n, 3, 1); }
}
static void gexp2(int nx, int ny) {
  static const int id2[3][3] = {{1,4,4},{1,1,3},{2,2,3}}; int i, j;
  for (i = 0; i <= nx; i++) for (j = 0; j <= ny; j++) { int a = cls1(i, nx), b = cls1(j, ny), v = G[i][j][0]; X.vg[v][0] = (a == 1) + (b == 1); X.vg[v][1] = id2[a][b];
    if (i < nx) tp_adde(&X, v, G[i + 1][j][0], 1 + (b == 1), id2[1][b]); if (j < ny) tp_adde(&X, v, G[i][j + 1][0], 1 + (a == 1), id2[a][1]);
    if (i < nx && j < ny) { int c[4] = {v, G[i + 1][j][0], G[i + 1][j + 1][0], G[i][j + 1][0]}; tp_addf(&X, 4, c, 2, 1); } } }
static void gen(int D) {
  base = sx_live_blocks(); int nx = sx_pick("nx", 1, 3), ny = sx_pick("ny", 1, TH(2, 3)), nz = D == 3 ? sx_pick("nz", 1, TH(2, 3)) : 0, i, j, k; if (D == 3) sx_assume(nx * ny * nz <= TH(8, 12));
  Mesh_ptr m = MESH_Gen_Structured(10, 20, D == 3 ? 30 : 0, 10 + 2 * nx, 20 + 4 * ny, D == 3 ? 30 + nz : 0, nx, ny, nz); MVertex_ptr v; int idx = 0; static int gi[TN][3];
  tp_read(m, &Z, NULL); memset(&X, 0, sizeof X); X.nv = Z.nv; for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) for (k = 0; k < 5; k++) G[i][j][k] = -1;
  sx_assert(Z.nv == (nx + 1) * (ny + 1) * (nz + 1), "number of vertices of the grid");
  for (int q = 0; q < Z.nv; q++) { double *x = Z.x[q]; int a = -1, b = -1, c = D == 3 ? -1 : 0; for (i = 0; i <= nx; i++) if (x[0] == 10 + 2 * i) a = i; for (i = 0; i <= ny; i++) if (x[1] == 20 + 4 * i) b = i; if (D == 3) { for (i = 0; i <= nz; i++) if (x[2] == 30 + i) c = i; } else sx_assert(x[2] == 0, "planar grid"); sx_assert(a >= 0 && b >= 0 && c >= 0, "every vertex is a grid point"); sx_assert(G[a][b][c] < 0, "every grid point once"); G[a][b][c] = q; gi[q][0] = a; gi[q][1] = b; gi[q][2] = c; X.va[q] = 1; X.v[q] = Z.v[q]; for (k = 0; k < 3; k++) X.x[q][k] = x[k]; }
  if (D == 3) gexp3(nx, ny, nz); else gexp2(nx, ny);
  tp_match(&X, &Z, TC_ALL); cm_valid(m, "structured"); sx_assert(MESH_CheckTopo(m), "the checker accepts the grid");
  if (D == 2) { idx = 0; MFace_ptr f; while ((f = MESH_Next_Face(m, &idx))) { double x[12][3]; int n; MF_Coords(f, &n, x); double ar = (x[1][0] - x[0][0]) * (x[2][1] - x[1][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[1][0]); sx_assert(ar > 0, "cells face up"); } }
  if (nx == 3 || ny == 3 || nz == 3) { MESH_Delete(m); sx_check_leaks(base, "structured generation leaks"); sx_cover("end"); return; }
  /* arbitrary box; powers of two keep the exact positions representable */
  double lo[3], hi[3]; for (k = 0; k < 3; k++) { lo[k] = sx_dint("lo", -4096, 4096); hi[k] = sx_dint("hi", -4096, 4096); } if (D == 2) lo[2] = hi[2] = 0;
  Mesh_ptr s = MESH_Gen_Structured(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], nx, ny, nz); int n[3] = {nx, ny, nz}, p = 0; sx_assert(MESH_Num_Vertices(s) == Z.nv, "same grid for any box");
  idx = 0; while ((v = MESH_Next_Vertex(s, &idx))) { double x[3]; MV_Coords(v, x); for (k = 0; k < D; k++) { int g = gi[p][k]; if (g == 0) sx_assert(x[k] == lo[k], "the box's lower corner"); else if (g == n[k]) sx_assert(x[k] == hi[k], "the box's upper corner"); else if (n[k] == 2) sx_assert(x[k] == (lo[k] + hi[k]) / 2, "interpolated coordinates"); else { double e = lo[k] + g * ((hi[k] - lo[k]) / n[k]); sx_assert((x[k] <= e + 1e-9) & (x[k] >= e - 1e-9), "interpolated coordinates"); } } p++; }
  MESH_Delete(s); MESH_Delete(m); sx_check_leaks(base, "structured generation leaks"); sx_cover("end");
}
void h_gen2(void) { gen(2); }
void h_gen3(void) { gen(3); }
/* ---------------- C21 */
static const int tfv[5][6][5] = {{{0}}, {{3,0,2,1},{3,0,1,3},{3,1,2,3},{3,0,3,2},{0},{0}}, {{4,0,3,2,1},{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4},{0}}, {{3,0,2,1},{3,3,4,5},{4,0,1,4,3},{4,1,2,5,4},{4,2,0,3,5},{0}}, {{4,0,3,2,1},{4,4,5,6,7},{4,0,1,5,4},{4,1,2,6,5},{4,2,3,7,6},{4,3,0,4,7}}};
static int rtyp(int n) { return n == 4 ? 1 : n == 5 ? 2 : n == 6 ? 3 : 4; }
static void gendesc(int rep, int ncat, const int *cats) {
  base = sx_live_blocks(); MSTK_Init(); const CMesh *c = &cm_cat[cats[sx_pick("mesh", 0, ncat - 1)]]; Mesh_ptr m = MESH_New(rep); int i, j, k, shift = sx_pick("numbering", 0, 1), tmpl = c->dim == 3 && rep != R1 && rep != R2 ? sx_pick("templates", 0, 1) : 0, perm[32], order = c->nc > 1 ? sx_pick("cell order", 0, 1) : 0;
  double x[32][3]; int n[24], ids[24][8], *idp[24], nrf[24], *tp[24][6], **tpp[24], tb[24][6][5];
  for (i = 0; i < c->nv; i++) perm[i] = shift ? (i * (c->nv == 5 ? 2 : c->nv % 2 ? 2 : 1) + 1) % c->nv : i;
  { int seen[32] = {0}; for (i = 0; i < c->nv; i++) { sx_assume(!seen[perm[i]]); seen[perm[i]] = 1; } }
  for (i = 0; i < c->nv; i++) for (k = 0; k < 3; k++) x[perm[i]][k] = sx_double("x");
  for (i = 0; i < c->nc; i++) { int q = order ? c->nc - 1 - i : i, t; n[q] = c->c[i][0]; for (j = 0; j < n[q]; j++) ids[q][j] = perm[c->c[i][1 + j]]; idp[q] = ids[q]; t = rtyp(n[q]); nrf[q] = t == 1 ? 4 : t == 4 ? 6 : 5; for (j = 0; j < nrf[q]; j++) { for (k = 0; k < 5; k++) tb[q][j][k] = tfv[t][j][k]; tp[q][j] = tb[q][j]; } tpp[q] = tp[q]; }
  int ok = c->dim == 2 ? MESH_InitFromGenDesc(m, c->nv, x, c->nc, n, idp, 0, NULL, NULL, NULL, NULL) : MESH_InitFromGenDesc(m, c->nv, x, 0, NULL, NULL, c->nc, n, idp, tmpl ? nrf : NULL, tmpl ? tpp : NULL);
  sx_assert(ok == 1, "building from the description succeeds"); sx_assert(MESH_Num_Vertices(m) == c->nv, "number of vertices"); sx_assert((c->dim == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m)) == c->nc, "number of cells"); if (c->dim == 2) sx_assert(MESH_Num_Regions(m) == 0, "no regions");
  for (i = 0; i < c->nv; i++) { double y[3]; MVertex_ptr v = MESH_Vertex(m, i); sx_assert(MV_ID(v) == i + 1, "vertices numbered as given"); MV_Coords(v, y); for (k = 0; k < 3; k++) sx_assert(y[k] == x[i][k], "coordinates as given"); }
  for (i = 0; i < c->nc; i++) { void *e = c->dim == 2 ? (void *) MESH_Face(m, i) : (void *) MESH_Region(m, i); sx_assert(MEnt_ID(e) == i + 1, "cells numbered as given"); List_ptr l = c->dim == 2 ? MF_Vertices(e, 1, 0) : MR_Vertices(e); sx_assert(List_Num_Entries(l) == n[i], "number of vertices of the cell"); if (c->dim == 2) { MVertex_ptr w[9]; for (j = 0; j < n[i]; j++) w[j] = MESH_Vertex(m, ids[i][j]); sx_assert(cm_same_cycle(l, n[i], w) == 1, "vertex cycle as given"); } else { for (j = 0; j < n[i]; j++) { if (tmpl) sx_assert(List_Contains(l, MESH_Vertex(m, ids[i][j])), "vertices as given"); else sx_assert(List_Entry(l, j) == MESH_Vertex(m, ids[i][j]), "vertices in the given order"); } static const int et[5] = {0, TET, PYRAMID, PRISM, HEX}; sx_assert(MR_ElementType(e) == et[rtyp(n[i])], "standard cells recognised"); } List_Delete(l); }
  if (rep == F1 || rep == F4) {
    tp_read(m, &Z, NULL); memset(&X, 0, sizeof X); X.nv = Z.nv; for (i = 0; i < Z.nv; i++) { X.v[i] = Z.v[i]; X.va[i] = 1; for (k = 0; k < 3; k++) X.x[i][k] = Z.x[i][k]; }
    for (i = 0; i < c->nc; i++) if (c->dim == 2) tp_addf(&X, n[i], ids[i], ANYC, 0); else { int cy[6][12], cn[6], t = rtyp(n[i]); for (j = 0; j < nrf[i]; j++) { cn[j] = tfv[t][j][0]; for (k = 0; k < cn[j]; k++) cy[j][k] = ids[i][tfv[t][j][1 + k]]; } tp_addr(&X, nrf[i], cy, cn, ANYC, 0); }
    tp_close(&X); tp_match(&X, &Z, 0); cm_valid(m, "general description"); }
  MESH_Delete(m); sx_check_leaks(base, "general description leaks"); sx_cover("end");
}
static const int c2[] = {C_TRI2, C_TRIQUAD, C_PENTTRI, C_FAN4, C_QUAD22, C_STRIP3, C_TRI6}, c3[] = {C_TET2, C_HEX2, C_PYRHEX, C_PRISMTET, C_TET3E, C_TET4, C_TET6};
void h_desc2_F1(void) { gendesc(F1, TH(5, 7), c2); }
void h_desc2_F4(void) { gendesc(F4, TH(5, 7), c2); }
void h_desc2_R1(void) { gendesc(R1, TH(5, 7), c2); }
void h_desc3_F1(void) { gendesc(F1, TH(5, 7), c3); }
void h_desc3_F4(void) { gendesc(F4, TH(5, 7), c3); }
void h_desc3_R1(void) { gendesc(sx_pick("R2", 0, 1) ? R2 : R1, TH(5, 7), c3); }
/* a polyhedron (pentagonal or hexagonal prism) sharing a face with a tet-like cell, by templates; and refused descriptions */
void h_descpoly(void) {
  base = sx_live_blocks(); MSTK_Init(); int rep = sx_pick("rep", 0, 1) ? F4 : F1, n = sx_pick("n", 5, 6), i, j, k; Mesh_ptr m = MESH_New(rep); double x[13][3]; int nv = 2 * n + 1, ids0[12], ids1[8], *idp[2] = {ids0, ids1}, nrv[2] = {2 * n, n + 1}, nrf[2] = {n + 2, n + 1}, t[2][8][8], *tp[2][8], **tpp[2];
  for (i = 0; i < nv; i++) for (k = 0; k < 3; k++) x[i][k] = sx_double("x");
  for (i = 0; i < 2 * n; i++) ids0[i] = i; for (i = 0; i < n; i++) ids1[i] = n + i; ids1[n] = 2 * n;
  t[0][0][0] = n; for (j = 0; j < n; j++) t[0][0][1 + j] = n - 1 - j; t[0][1][0] = n; for (j = 0; j < n; j++) t[0][1][1 + j] = n + j; for (i = 0; i < n; i++) { int q = (i + 1) % n; t[0][2 + i][0] = 4; t[0][2 + i][1] = i; t[0][2 + i][2] = q; t[0][2 + i][3] = n + q; t[0][2 + i][4] = n + i; }
  t[1][0][0] = n; for (j = 0; j < n; j++) t[1][0][1 + j] = n - 1 - j; for (i = 0; i < n; i++) { t[1][1 + i][0] = 3; t[1][1 + i][1] = i; t[1][1 + i][2] = (i + 1) % n; t[1][1 + i][3] = n; }
  for (i = 0; i < 2; i++) { for (j = 0; j < nrf[i]; j++) tp[i][j] = t[i][j]; tpp[i] = tp[i]; }
  int bad = sx_pick("bad", 0, 3), nf2[1] = {3}, *fv[1] = {ids0}, ok = MESH_InitFromGenDesc(m, nv, x, bad == 1, bad == 1 ? nf2 : NULL, bad == 1 ? fv : NULL, bad == 3 ? 0 : 2, nrv, idp, bad == 2 ? NULL : nrf, bad == 2 ? NULL : tpp);
  sx_assert(ok == (bad == 0), "exactly the supported descriptions are accepted");
  if (!bad) { tp_read(m, &Z, NULL); memset(&X, 0, sizeof X); X.nv = Z.nv; for (i = 0; i < Z.nv; i++) { X.v[i] = Z.v[i]; X.va[i] = 1; for (k = 0; k < 3; k++) { X.x[i][k] = x[i][k]; } }
    for (i = 0; i < 2; i++) { int cy[8][12], cn[8]; for (j = 0; j < nrf[i]; j++) { cn[j] = t[i][j][0]; for (k = 0; k < cn[j]; k++) cy[j][k] = idp[i][t[i][j][1 + k]]; } tp_addr(&X, nrf[i], cy, cn, ANYC, 0); } tp_close(&X); tp_match(&X, &Z, 0); cm_valid(m, "polyhedra"); sx_assert(MR_ElementType(MESH_Region(m, 0)) == POLYHED && MR_ElementType(MESH_Region(m, 1)) == POLYHED, "polyhedra recognised"); }
  MESH_Delete(m); sx_check_leaks(base, "general description leaks"); sx_cover("end");
}
/* ---------------- C26 */
static void graph(int rep, int ncat, const int *cats, int ndel) {
  base = sx_live_blocks(); CM b; cm_build(&b, rep, cats[sx_pick("mesh", 0, ncat - 1)], rep == F1 ? CM_ROT : 0); Mesh_ptr m = b.m; int D = b.c->dim, i, j, n, *beg = NULL, *adj = NULL; cm_snap(m, &snapA);
  if (ndel && b.c->nc > 1) { int d = sx_pick("delete", 0, b.c->nc); if (d < b.c->nc) { if (D == 3) MR_Delete(b.cell[d], 0); else MF_Delete(b.cell[d], 0); cm_snap(m, &snapA); } }
  void *cell[24]; int nc = 0, idx = 0; void *p; while ((p = D == 3 ? (void *) MESH_Next_Region(m, &idx) : (void *) MESH_Next_Face(m, &idx))) cell[nc++] = p;
  sx_assert(MESH_GetElementGraph(m, &n, &beg, &adj) == 1, "the graph is returned"); sx_assert(n == nc, "one entry per cell"); sx_assert(beg[0] == 0, "offsets start at zero"); for (i = 0; i < n; i++) sx_assert(beg[i + 1] >= beg[i], "offsets are monotone");
  for (i = 0; i < n; i++) { int cnt[24] = {0}; for (j = beg[i]; j < beg[i + 1]; j++) { sx_assert(adj[j] >= 0 && adj[j] < n, "neighbours are cells"); sx_assert(adj[j] != i, "no self loops"); cnt[adj[j]]++; }
    for (j = 0; j < n; j++) { int sh = 0, k; if (i != j) { List_ptr l = D == 3 ? MR_Faces(cell[i]) : MF_Edges(cell[i], 1, 0), q = D == 3 ? MR_Faces(cell[j]) : MF_Edges(cell[j], 1, 0); for (k = 0; k < List_Num_Entries(l); k++) sh += List_Contains(q, List_Entry(l, k)); List_Delete(l); List_Delete(q); } sx_assert((cnt[j] > 0) == (sh > 0), "cells are neighbours exactly when they share a side"); if (sh == 1) sx_assert(cnt[j] == 1, "neighbours listed once"); } }
  free(beg); free(adj); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "the mesh is unchanged"); MESH_Delete(m); sx_check_leaks(base, "element graph leaks"); sx_cover("end");
}
static const int g2[] = {C_TRI, C_TRI2, C_FAN4, C_TRIQUAD, C_PENTTRI, C_QUAD22, C_STRIP3, C_FAN6}, g3[] = {C_TET, C_TET2, C_HEX2, C_PYRHEX, C_TET3E, C_TET4, C_TET6};
void h_graph2_F1(void) { graph(F1, TH(7, 8), g2, 1); }
void h_graph2_F4(void) { graph(F4, TH(7, 8), g2, 1); }
void h_graph3_F1(void) { graph(F1, 7, g3, 1); }
void h_graph3_F4(void) { graph(F4, 7, g3, 1); }
/* many neighbours per cell: a prism with n sides surrounded on all sides; three faces on an edge */
void h_graphbig(void) {
  base = sx_live_blocks(); MSTK_Init(); Mesh_ptr m = MESH_New(F1); int i, j, n = sx_pick("n", 5, TH(6, 8)), k = sx_pick("kind", 0, 1), nn, *beg, *adj; MVertex_ptr v[20]; for (i = 0; i < 20; i++) { double x[3] = {i, i * i, 0}; v[i] = MV_New(m); MV_Set_Coords(v[i], x); }
  if (k == 0) { /* polygon surrounded by triangles */ MFace_ptr f = MF_New(m); MF_Set_Vertices(f, n, v); for (i = 0; i < n; i++) { MVertex_ptr t[3] = {v[(i + 1) % n], v[i], v[n + i]}; f = MF_New(m); MF_Set_Vertices(f, 3, t); } }
  else { /* n triangles around one edge */ for (i = 0; i < n; i++) { MVertex_ptr t[3] = {v[0], v[1], v[2 + i]}; MFace_ptr f = MF_New(m); MF_Set_Vertices(f, 3, t); } }
  MESH_GetElementGraph(m, &nn, &beg, &adj); sx_assert(nn == (k == 0 ? n + 1 : n), "one entry per cell"); for (i = 0; i < nn; i++) { int c[20] = {0}; for (j = beg[i]; j < beg[i + 1]; j++) { sx_assert(adj[j] >= 0 && adj[j] < nn, "neighbours are cells"); c[adj[j]]++; } for (j = 0; j < nn; j++) sx_assert(c[j] == (i != j && (k == 1 || i == 0 || j == 0)), "cells are neighbours exactly when they share a side"); }
  free(beg); free(adj); MESH_Delete(m); sx_check_leaks(base, "element graph leaks"); sx_cover("end");
}
/* n-gonal prism with a pyramid-like cell on each of its n+2 faces */
void h_graphbig3(void) {
  base = sx_live_blocks(); MSTK_Init(); Mesh_ptr m = MESH_New(F1); int i, j, n = sx_pick("n", 3, TH(4, 6)), nn, *beg, *adj; MVertex_ptr v[20]; for (i = 0; i < 20; i++) { double x[3] = {i, i * i, 0}; v[i] = MV_New(m); MV_Set_Coords(v[i], x); }
  MFace_ptr F[8]; F[0] = MF_New(m); MF_Set_Vertices(F[0], n, v); F[1] = MF_New(m); MF_Set_Vertices(F[1], n, v + n); for (i = 0; i < n; i++) { int q = (i + 1) % n; MVertex_ptr t[4] = {v[i], v[q], v[n + q], v[n + i]}; F[2 + i] = MF_New(m); MF_Set_Vertices(F[2 + i], 4, t); } int d[8] = {0, 1, 1, 1, 1, 1, 1, 1}; MRegion_ptr r = MR_New(m); MR_Set_Faces(r, n + 2, F, d);
  for (i = 0; i < n + 2; i++) { List_ptr l = MF_Vertices(F[i], 1, 0); int k = List_Num_Entries(l); MFace_ptr g[8]; int gd[8]; g[0] = F[i]; gd[0] = !d[i]; for (j = 0; j < k; j++) { MVertex_ptr t[3] = {List_Entry(l, j), List_Entry(l, (j + 1) % k), v[2 * n + i]}; if (!d[i]) { void *s = t[0]; t[0] = t[1]; t[1] = s; } g[1 + j] = MF_New(m); gd[1 + j] = 1; MF_Set_Vertices(g[1 + j], 3, t); } List_Delete(l); r = MR_New(m); MR_Set_Faces(r, k + 1, g, gd); }
  MESH_GetElementGraph(m, &nn, &beg, &adj); sx_assert(nn == n + 3, "one entry per cell"); for (i = 0; i < nn; i++) { int c[20] = {0}; for (j = beg[i]; j < beg[i + 1]; j++) { sx_assert(adj[j] >= 0 && adj[j] < nn, "neighbours are cells"); c[adj[j]]++; } for (j = 0; j < nn; j++) sx_assert(c[j] == ((i == 0) != (j == 0)), "cells are neighbours exactly when they share a side"); }
  free(beg); free(adj); MESH_Delete(m); sx_check_leaks(base, "element graph leaks"); sx_cover("end");
}
/* a grid in which the neighbours outgrow the first allocation */
void h_graphgrid(void) {
  base = sx_live_blocks(); int nz = sx_pick("nz", 4, TH(4, 5)), i, j, k, nn, *beg, *adj; Mesh_ptr m = MESH_Gen_Structured(0, 0, 0, 1, 1, 1, 3, 3, nz); MESH_GetElementGraph(m, &nn, &beg, &adj); sx_assert(nn == 9 * nz, "one entry per cell");
  static double c[64][3]; for (i = 0; i < nn; i++) { List_ptr l = MR_Vertices(MESH_Region(m, i)); double x[3]; for (k = 0; k < 3; k++) c[i][k] = 0; for (j = 0; j < 8; j++) { MV_Coords(List_Entry(l, j), x); for (k = 0; k < 3; k++) c[i][k] += x[k] / 8; } List_Delete(l); }
  for (i = 0; i < nn; i++) { int cnt[64] = {0}; for (j = beg[i]; j < beg[i + 1]; j++) { sx_assert(adj[j] >= 0 && adj[j] < nn, "neighbours are cells"); cnt[adj[j]]++; }
    for (j = 0; j < nn; j++) { int st = 0; for (k = 0; k < 3; k++) { double d = fabs(c[i][k] - c[j][k]) * (k == 2 ? nz : 3); st += (int)(d + 0.5); } sx_assert(cnt[j] == (st == 1), "cells are neighbours exactly when they share a side"); } }
  free(beg); free(adj); MESH_Delete(m); sx_check_leaks(base, "element graph leaks"); sx_cover("end");
}
/* ---------------- C27 */
static int gidp; static int ngid(int n) { return gidp == 3 ? sx_int("gid", 0, 99) : gidp == 0 ? 7 : gidp == 1 ? 7 + n : 1 + n % 2; }
static void symclass(Mesh_ptr m) { int i, n = 0; void *p; gidp = MESH_Num_Regions(m) ? sx_pick("ids", 0, 2) : 3; i = 0; while ((p = MESH_Next_Vertex(m, &i))) { MV_Set_GEntDim(p, n++ % 4); MV_Set_GEntID(p, ngid(n)); } i = 0; while ((p = MESH_Next_Edge(m, &i))) { ME_Set_GEntDim(p, 1 + n++ % 3); ME_Set_GEntID(p, ngid(n)); } i = 0; while ((p = MESH_Next_Face(m, &i))) { MF_Set_GEntDim(p, 2 + n++ % 2); MF_Set_GEntID(p, ngid(n)); } i = 0; while ((p = MESH_Next_Region(m, &i))) { MR_Set_GEntDim(p, 3); MR_Set_GEntID(p, ngid(n++)); } }
static Topo S; static int used[TN];
static int at(int n, int *vv, int gd, int gi) { /* the converted mesh's vertex at the mean of n source vertices */
  double c[3] = {0, 0, 0}; int i, k; for (i = 0; i < n; i++) for (k = 0; k < 3; k++) c[k] += S.x[vv[i]][k]; for (k = 0; k < 3; k++) c[k] /= n;
  for (i = 0; i < Z.nv; i++) { int ok = 1; for (k = 0; k < 3; k++) ok = ok && fabs(Z.x[i][k] - c[k]) < 1e-9; if (ok) { if (!used[i]) { used[i] = 1; X.va[i] = 1; X.v[i] = Z.v[i]; for (k = 0; k < 3; k++) X.x[i][k] = Z.x[i][k]; X.vg[i][0] = gd; X.vg[i][1] = gi; } return i; } }
  sx_assert(0, "a new vertex at the centre of every edge, face and cell"); return -1; }
static int amid(int a, int b) { int e = tp_e(&S, a, b), w[2] = {a, b}; return at(2, w, S.eg[e][0], S.eg[e][1]); }
static void conv(int rep, int D, int ncat, const int *cats) {
  base = sx_live_blocks(); CM b; cm_build(&b, rep, cats[sx_pick("mesh", 0, ncat - 1)], rep == F1 ? CM_ROT : 0); Mesh_ptr m = b.m, q = NULL; symclass(m); cm_snap(m, &snapA); int i, j, k, bad = 0; for (i = 0; i < b.c->nc; i++) if (b.c->c[i][0] != D + 1) bad = 1;
  int nat = MESH_Num_Attribs(m), un = sx_pick("user attribute", 0, 1); MAttrib_ptr ua = NULL; if (un) { ua = MAttrib_New(m, "vertex", INT, MVERTEX); MEnt_Set_AttVal(b.v[0], ua, 77, 0, 0); }
  int ok = D == 2 ? MESH_Tri2Quad(m, &q) : MESH_Tet2Hex(m, &q);
  sx_assert(ok == !bad, "exactly simplicial meshes are converted"); sx_assert(MESH_Num_Attribs(m) == nat + un, "no attribute is left behind"); if (un) { int iv = 0; double dv; void *pv; MEnt_Get_AttVal(b.v[0], ua, &iv, &dv, &pv); sx_assert(iv == 77, "the user's attributes are untouched"); }
  cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "the source mesh is unchanged");
  if (ok) { sx_assert(MESH_RepType(q) == rep, "same representation");
    tp_read(m, &S, NULL); tp_read(q, &Z, NULL); memset(&X, 0, sizeof X); memset(used, 0, sizeof used); X.nv = Z.nv; int o[TN];
    for (i = 0; i < S.nv; i++) { int w[1] = {i}; o[i] = at(1, w, S.vg[i][0], S.vg[i][1]); } for (i = 0; i < S.ne; i++) amid(S.e[i][0], S.e[i][1]); int fc[TN]; for (i = 0; i < S.nf; i++) fc[i] = at(3, S.f[i], S.fg[i][0], S.fg[i][1]);
    if (D == 2) { for (i = 0; i < S.nf; i++) for (j = 0; j < 3; j++) { int a = S.f[i][j], p = S.f[i][(j + 2) % 3], n = S.f[i][(j + 1) % 3], c[4]; c[0] = o[a]; c[1] = amid(a, n); c[2] = fc[i]; c[3] = amid(a, p); tp_addf(&X, 4, c, S.fg[i][0], S.fg[i][1]); } }
    else for (i = 0; i < S.nr; i++) { int w[4], nw = 0; for (j = 0; j < S.nv; j++) if (tp_rhas(&S, i, j)) w[nw++] = j; int cc = at(4, w, S.rg[i][0], S.rg[i][1]);
      for (j = 0; j < 4; j++) { int cy[6][12], cn[6] = {4,4,4,4,4,4}, nf = 0, v = w[j], t[4], fi[3], fa[3], fb[3], nn = 0; for (k = 0; k < 4; k++) { tp_outward(&S, i, k, t); int s = -1; for (int z = 0; z < 3; z++) if (t[z] == v) s = z; if (s < 0) continue; fa[nn] = t[(s + 1) % 3]; fb[nn] = t[(s + 2) % 3]; fi[nn] = fc[S.r[i][k]]; cy[nf][0] = o[v]; cy[nf][1] = amid(v, fa[nn]); cy[nf][2] = fi[nn]; cy[nf][3] = amid(v, fb[nn]); nf++; nn++; }
        for (k = 0; k < 3; k++) for (int z = 0; z < 3; z++) if (fa[k] == fb[z]) { cy[nf][0] = fi[k]; cy[nf][1] = amid(v, fa[k]); cy[nf][2] = fi[z]; cy[nf][3] = cc; nf++; } sx_assert(nf == 6, "harness: six faces"); tp_addr(&X, 6, cy, cn, S.rg[i][0], S.rg[i][1]); } }
    tp_close(&X); tp_match(&X, &Z, D == 2 ? TC_V | TC_F : TC_V | TC_R); cm_valid(q, "converted"); }
  if (q) MESH_Delete(q); MESH_Delete(m); sx_check_leaks(base, "conversion leaks"); sx_cover("end");
}
static const int k2[] = {C_TRI2, C_FAN4, C_STRIP3, C_TRIQUAD, C_TRI6}, k3[] = {C_TET, C_TET2, C_TET3E, C_PRISMTET, C_TET4, C_TET6};
void h_quad_F1(void) { conv(F1, 2, TH(4, 5), k2); }
void h_quad_F4(void) { conv(F4, 2, TH(4, 5), k2); }
void h_hex_F1(void) { conv(F1, 3, TH(4, 5), k3); }
void h_hex_F4(void) { conv(F4, 3, TH(4, 5), k3); }
/* only the boundary remains */
static void delint(int rep, int ncat, const int *cats) {
  base = sx_live_blocks(); CM b; cm_build(&b, rep, cats[sx_pick("mesh", 0, ncat - 1)], rep == F1 ? CM_ROT : 0); Mesh_ptr m = b.m; int D = b.c->dim, i, k, one = sx_pick("features", 0, 1); tp_read(m, &Z, NULL); X = Z;
  int be[TN * 2] = {0}, bf[TN] = {0}, bv[TN] = {0};
  if (D == 3) { for (i = 0; i < X.nf; i++) { int n = 0; for (k = 0; k < X.nr; k++) for (int q = 0; q < X.rn[k]; q++) n += X.r[k][q] == i; bf[i] = n == 1; if (bf[i]) for (k = 0; k < X.fn[i]; k++) { be[tp_e(&X, X.f[i][k], X.f[i][(k + 1) % X.fn[i]])] = 1; bv[X.f[i][k]] = 1; } } }
  else for (i = 0; i < X.ne; i++) { int n = 0; for (k = 0; k < X.nf; k++) for (int q = 0; q < X.fn[k]; q++) n += tp_e(&X, X.f[k][q], X.f[k][(q + 1) % X.fn[k]]) == i; be[i] = n == 1; if (be[i]) bv[X.e[i][0]] = bv[X.e[i][1]] = 1; }
  for (i = 0; i < X.nv; i++) { int d = bv[i] ? (one ? i % D : D - 1) : D, g = sx_int("gid", 0, 99); MV_Set_GEntDim(X.v[i], d); MV_Set_GEntID(X.v[i], g); X.vg[i][0] = d; X.vg[i][1] = g; }
  for (i = 0; i < X.ne; i++) { int d = be[i] ? (one ? 1 + i % (D - 1) : D - 1) : D, g = sx_int("gid", 0, 99); ME_Set_GEntDim(X.ep[i], d); ME_Set_GEntID(X.ep[i], g); X.eg[i][0] = d; X.eg[i][1] = g; }
  for (i = 0; i < X.nf; i++) { int d = bf[i] ? 2 : D, g = sx_int("gid", 0, 99); MF_Set_GEntDim(X.fp[i], d); MF_Set_GEntID(X.fp[i], g); X.fg[i][0] = d; X.fg[i][1] = g; }
  for (i = 0; i < X.nr; i++) { MR_Set_GEntDim(X.rp[i], 3); X.ra[i] = 0; }
  for (i = 0; i < X.nv; i++) X.va[i] = bv[i]; for (i = 0; i < X.ne; i++) X.ea[i] = be[i]; for (i = 0; i < X.nf; i++) X.fa[i] = bf[i];
  sx_assert(MESH_DelInterior(m) == 1, "the interior is deleted"); tp_read(m, &Z, &X); tp_match(&X, &Z, TC_ALL | TC_PTR); cm_valid(m, "boundary");
  MESH_Delete(m); sx_check_leaks(base, "deleting the interior leaks"); sx_cover("end");
}
static const int d23[] = {C_TET2, C_PYRHEX, C_FAN4, C_TRIQUAD, C_TET4, C_QUAD22, C_TET3E, C_HEX2, C_PRISMTET, C_TET6};
void h_bdry_F1(void) { delint(F1, TH(7, 10), d23); }
void h_bdry_F4(void) { delint(F4, TH(7, 10), d23); }

/* one-dimensional meshes keep their end points, meshes of vertices are left alone */
static void delint1(int rep) {
  base = sx_live_blocks(); Mesh_ptr m = MESH_New(rep); int n = sx_pick("edges", 0, TH(4, 6)), closed = n > 2 ? sx_pick("closed", 0, 1) : 0, nv = n + 1 - closed, i, k = 0; MVertex_ptr v[8]; int keep[8], g[8];
  for (i = 0; i < nv; i++) { double x[3] = {i, i * i, 0}; v[i] = MV_New(m); MV_Set_Coords(v[i], x); keep[i] = !n || sx_int("model vertex", 0, 1); g[i] = sx_int("gid", 1, 9); MV_Set_GEntDim(v[i], keep[i] ? 0 : 1); MV_Set_GEntID(v[i], g[i]); }
  for (i = 0; i < n; i++) { MEdge_ptr e = ME_New(m); int s = sx_pick("dir", 0, 1); ME_Set_Vertex(e, s, v[i]); ME_Set_Vertex(e, !s, v[(i + 1) % nv]); ME_Set_GEntDim(e, 1); ME_Set_GEntID(e, 1 + i % 2); }
  int ret = MESH_DelInterior(m); sx_assert(ret == (n > 0), "a mesh with edges loses its interior"); sx_assert(MESH_Num_Edges(m) == 0, "no edges remain");
  for (i = 0; i < nv; i++) if (keep[i]) { sx_assert(k < MESH_Num_Vertices(m) && MESH_Vertex(m, k) == v[i], "vertices of model vertices remain"); sx_assert(MV_GEntDim(v[i]) == 0 && MV_GEntID(v[i]) == g[i], "classification unchanged"); List_ptr l = MV_Edges(v[i]); sx_assert(!l || !List_Num_Entries(l), "no edges at the vertex"); if (l) List_Delete(l); k++; }
  sx_assert(k == MESH_Num_Vertices(m), "vertices inside edges go"); MESH_Delete(m); sx_check_leaks(base, "deleting the interior leaks"); sx_cover("end");
}
void h_wire_F1(void) { delint1(F1); }
void h_wire_F4(void) { delint1(F4); }
