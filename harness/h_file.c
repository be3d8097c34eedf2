/* C17: native files */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
static Snap S0, C0;
static void seqids(Mesh_ptr m) { for (int d = 0; d < 4; d++) for (int i = 0; i < NE(d, m); i++) { MEntity_ptr e = ent(m, d, i); if (d == 0) MV_Set_ID(e, i + 1); else if (d == 1) ME_Set_ID(e, i + 1); else if (d == 2) MF_Set_ID(e, i + 1); else MR_Set_ID(e, i + 1); } }
/* source representation, representation in the file, representation read into */
static void rt(int rs, int wt, int rd, int ncat, const int *cats) {
  CM b; int k = cats[sx_pick("mesh", 0, ncat - 1)], ft = wt == UNKNOWN_REP ? rs : wt, tt = rd == UNKNOWN_REP ? ft : rd, full = rs <= F4 && ft <= F4 && tt <= F4, i, d, ad = sx_pick("attdim", 0, 4), lb = sx_live_blocks(); if (ad == 4) ad = MALLTYPE;
  cm_build(&b, rs, k, (full ? CM_FDIR | TH(0, CM_ROT | CM_EDIR) : 0)); Mesh_ptr m = b.m; for (i = 1; i < NE(0, m); i++) { double y[3]; for (int q = 0; q < 3; q++) y[q] = sx_dint("x", -9999, 9999); MV_Set_Coords(MESH_Vertex(m, i), y); } for (i = 0; i < 3; i++) vals[i] = sx_int("val", -1000, 1000); int dim = b.c->dim;
  int hole = full ? sx_pick("hole", 0, 2) : 0; if (hole) { MEntity_ptr c = b.cell[hole == 1 ? 0 : b.c->nc - 1]; if (dim == 2) MF_Delete(c, 0); else MR_Delete(c, 0); }
  int gd = sx_pick("gdim", TH(2, 0), TH(2, 4)), g = sx_int("gid", -3, 100);
  for (d = 0; d < 4; d++) for (i = 0; i < NE(d, m); i++) { MEntity_ptr e = ent(m, d, i); int q = gd < d ? d : gd; if (d == 0) { MV_Set_GEntDim(e, q); MV_Set_GEntID(e, g + i % 2); } else if (d == 1) { ME_Set_GEntDim(e, q); ME_Set_GEntID(e, g + i % 2); } else if (d == 2) { MF_Set_GEntDim(e, q); MF_Set_GEntID(e, g + i % 2); } else { MR_Set_GEntDim(e, 3); MR_Set_GEntID(e, g + i % 2); } }
  double fr[3] = {0.1234567890123456, -12345.678901234567, 1.0 / 3}, x[3]; MV_Set_Coords(MESH_Vertex(m, 0), fr);
  if (full) { MV_Set_ID(MESH_Vertex(m, NE(0, m) - 1), 500); ME_Set_ID(MESH_Edge(m, 0), 600); }
  putatts(m, ad); int n0 = MESH_Num_Attribs(m); if (rs <= F4) cm_snap(m, &S0);
  sx_assert(MESH_WriteToFile(m, "m.mstk", wt, NULL) == 1, "writing succeeds"); sx_assert(MESH_Num_Attribs(m) == n0, "writing leaves no attribute behind"); if (rs <= F4) { cm_snap(m, &C0); sx_assert(cm_snap_eq(&S0, &C0, 1), "writing does not change the mesh"); } chkatts(m, NULL, ad, 0);
  if (full) seqids(m);
  Mesh_ptr c = MESH_New(rd); int ok = MESH_InitFromFile(c, "m.mstk", NULL); sx_unlink("m.mstk");
  if (ft <= F4 && tt > F4) { sx_assert(ok == 0, "a file the representation cannot hold is refused"); sx_cover("end"); return; }
  sx_assert(ok == 1, "reading succeeds"); sx_assert(MESH_RepType(c) == tt, "representation asked for or of the file");
  MV_Coords(MESH_Vertex(c, 0), x); for (i = 0; i < 3; i++) { sx_assert(fabs(x[i] - fr[i]) <= 1e-15, "coordinates to the written precision"); } MV_Set_Coords(MESH_Vertex(c, 0), fr);
  if (full) { cm_snap(m, &S0); cm_snap(c, &C0); memcpy(C0.p, S0.p, sizeof S0.p); sx_assert(cm_snap_eq(&S0, &C0, 1), "same entities, order, connectivity, coordinates and classification"); cm_valid(c, "read"); }
  else cm_same_mesh(m, c, 1, "read");
  int k2 = 0; for (i = 0; i < 5; i++) k2 += at[i] != POINTER; int has = full || ad == 0 || (ad == dim);
  if (has) { if (!MESH_AttribByName(c, "pa")) MAttrib_New(c, "pa", POINTER, (MType)ad); int used = 0; for (d = 0; d < 4; d++) used += ad == MALLTYPE || ad == d ? NE(d, m) : 0;
    if (used) chkatts(c, NULL, ad, 1); else sx_assert(MESH_Num_Attribs(c) == 1, "an attribute without values is not written"); }
  if (full) { MESH_Delete(m); MESH_Delete(c); sx_check_leaks(lb, "nothing left behind"); }
  sx_cover("end");
}
static const int c2[] = {C_TRIQUAD, C_FAN4, C_PENTTRI, C_QUAD22, C_TRI6}, c3[] = {C_PYRHEX, C_TET2, C_PRISMTET, C_TET, C_HEX2, C_TET4};
void h_rt2_F1(void) { rt(F1, UNKNOWN_REP, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_F1(void) { rt(F1, UNKNOWN_REP, UNKNOWN_REP, TH(1, 6), c3); }
void h_rt2_F4(void) { rt(F4, UNKNOWN_REP, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_F4(void) { rt(F4, UNKNOWN_REP, UNKNOWN_REP, TH(1, 6), c3); }
void h_rt2_F1asF4(void) { rt(F1, F4, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_F1asF4(void) { rt(F1, F4, UNKNOWN_REP, TH(1, 6), c3); }
void h_rt2_F4asF1(void) { rt(F4, F1, F4, TH(2, 5), c2); }
void h_rt3_F4asF1(void) { rt(F4, F1, F4, TH(1, 6), c3); }
void h_rt2_F1toF4(void) { rt(F1, UNKNOWN_REP, F4, TH(2, 5), c2); }
void h_rt3_F1toF4(void) { rt(F1, UNKNOWN_REP, F4, TH(1, 6), c3); }
void h_rt2_R1(void) { rt(R1, UNKNOWN_REP, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_R1(void) { rt(R1, UNKNOWN_REP, UNKNOWN_REP, TH(1, 6), c3); }
void h_rt2_R2(void) { rt(R2, UNKNOWN_REP, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_R2(void) { rt(R2, UNKNOWN_REP, UNKNOWN_REP, TH(1, 6), c3); }
void h_rt2_R4(void) { rt(R4, UNKNOWN_REP, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt2_R1toF1(void) { rt(R1, UNKNOWN_REP, F1, TH(2, 5), c2); }
void h_rt3_R1toF1(void) { rt(R1, UNKNOWN_REP, F1, TH(1, 6), c3); }
void h_rt2_F1asR1(void) { rt(F1, R1, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_F1asR1(void) { rt(F1, R1, UNKNOWN_REP, TH(1, 6), c3); }
void h_rt2_F1asR1toF1(void) { rt(F1, R1, F1, TH(2, 5), c2); }
void h_rt3_F1asR1toF1(void) { rt(F1, R1, F1, TH(1, 6), c3); }
void h_rt2_F4asR4(void) { rt(F4, R4, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt2_F1asR4toF1(void) { rt(F1, R4, F1, TH(2, 5), c2); }
void h_rt3_F1asR4toF1(void) { rt(F1, R4, F1, TH(1, 6), c3); }
void h_rt2_F1toR1(void) { rt(F1, UNKNOWN_REP, R1, TH(2, 5), c2); }
void h_rt3_F1toR1(void) { rt(F1, UNKNOWN_REP, R1, TH(1, 6), c3); }
void h_rt2_F1asR2(void) { rt(F1, R2, UNKNOWN_REP, TH(2, 5), c2); }
void h_rt3_F1asR2(void) { rt(F1, R2, UNKNOWN_REP, TH(1, 6), c3); }
/* meshes without faces, with free vertices and edges, and files that must be refused */
static void small(int rep) {
  int nv = sx_pick("nv", rep <= F4 ? 2 : 1, 3), ne = rep <= F4 ? sx_pick("ne", 0, nv - 1) : 0, withatt = sx_pick("att", 0, 1), lb = sx_live_blocks(), i, x; Mesh_ptr m = MESH_New(rep); MVertex_ptr v[3]; int wv = sx_int("wv", -99, 99);
  for (i = 0; i < nv; i++) { double c[3] = {sx_dint("c", -999, 999), i, 0.5}; v[i] = MV_New(m); MV_Set_Coords(v[i], c); MV_Set_GEntDim(v[i], i % 3); MV_Set_GEntID(v[i], i + 1); }
  for (i = 0; i < ne; i++) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, v[i + 1]); ME_Set_Vertex(e, 1, v[i]); ME_Set_GEntDim(e, 1); ME_Set_GEntID(e, 7); }
  if (withatt) { MAttrib_ptr a = MAttrib_New(m, "w", INT, ne ? MALLTYPE : MVERTEX); MEnt_Set_AttVal(v[nv - 1], a, wv, 0, NULL); if (ne) MEnt_Set_AttVal(MESH_Edge(m, 0), a, 44, 0, NULL); }
  sx_assert(MESH_WriteToFile(m, "s.mstk", UNKNOWN_REP, NULL) == 1, "writing succeeds");
  Mesh_ptr c = MESH_New(UNKNOWN_REP); sx_assert(MESH_InitFromFile(c, "s.mstk", NULL) == 1, "reading succeeds"); sx_unlink("s.mstk");
  sx_assert(MESH_RepType(c) == rep && MESH_Num_Vertices(c) == nv && (rep > F4 || MESH_Num_Edges(c) == ne) && MESH_Num_Faces(c) == 0 && MESH_Num_Regions(c) == 0, "entity counts");
  for (i = 0; i < nv; i++) { double p[3], q[3]; MVertex_ptr w = MESH_Vertex(c, i); MV_Coords(v[i], p); MV_Coords(w, q); sx_assert(p[0] == q[0] && p[1] == q[1] && p[2] == q[2], "coordinates"); sx_assert(MV_GEntDim(w) == i % 3 && MV_GEntID(w) == i + 1, "classification"); }
  for (i = 0; i < ne; i++) { MEdge_ptr e = MESH_Edge(c, i); sx_assert(ME_Vertex(e, 0) == MESH_Vertex(c, i + 1) && ME_Vertex(e, 1) == MESH_Vertex(c, i) && ME_GEntDim(e) == 1 && ME_GEntID(e) == 7, "edges"); }
  MAttrib_ptr a = MESH_AttribByName(c, "w"); sx_assert((a != NULL) == withatt, "attribute present"); if (a) { double r; void *p; sx_assert(MEnt_Get_AttVal(MESH_Vertex(c, nv - 1), a, &x, &r, &p) == 1 && x == wv, "vertex value"); sx_assert(MEnt_Get_AttVal(MESH_Vertex(c, 0), a, &x, &r, &p) == (nv == 1), "only where it was set"); if (ne) sx_assert(MEnt_Get_AttVal(MESH_Edge(c, 0), a, &x, &r, &p) == 1 && x == 44, "edge value"); }
  MESH_Delete(m); MESH_Delete(c); if (rep <= F4) sx_check_leaks(lb, "nothing left behind"); sx_cover("end");
}
void h_small_F1(void) { small(F1); }
void h_small_F4(void) { small(F4); }
void h_small_R1(void) { small(R1); }
void h_small_R2(void) { small(R2); }
void h_small_R4(void) { small(R4); }
static const char *TX[] = {
 "MSTK 3.0 F1 3 3 1 0 vertices 0 0 0 2 1 1 0 0 2 1 0 1 0 2 1 edges 1 2 2 1 2 3 2 1 3 1 2 1 faces edge 3 1 2 3 2 1 | attributes | a INT 1 MVERTEX 2 0 1 5 0 2 6 | v VECTOR 2 MFACE 1 2 1 0.5 0.25 |",
 "MSTK 3.0 F4 4 6 4 1 vertices 0 0 0 3 1 1 0 0 3 1 0 1 0 3 1 0 0 1 3 1 edges 1 2 3 1 2 3 3 1 3 1 3 1 1 4 3 1 2 4 3 1 3 4 3 1 faces edge 3 1 2 3 2 1 3 1 5 -4 2 1 3 2 6 -5 2 1 3 3 4 -6 2 1 regions face 4 -1 2 3 4 3 1 | attributes | d DOUBLE 1 MREGION 1 3 1 0.5 | n INT 1 MALLTYPE 1 1 6 2 |",
 "MSTK 3.0 R1 3 0 1 0 vertices 0 0 0 2 1 1 0 0 2 1 0 1 0 2 1 faces vertex 3 1 2 3 2 1 |",
 "MSTK 3.0 R2 4 0 0 1 vertices 0 0 0 3 1 1 0 0 3 1 0 1 0 3 1 0 0 1 3 1 adjvertices 3 2 3 4 3 1 3 4 3 1 2 4 3 1 2 3 regions vertex 4 1 2 3 4 3 1 adjregions 4 0 0 0 0 |"};
static void cutfile(int which) {
  const char *t = TX[which], *q; char w[20]; int n = 0, nt = 0, whole = 0; for (q = t; *q; ) { while (*q == ' ') q++; if (!*q) break; if (*q != '|') nt++; while (*q && *q != ' ') q++; }
  int k = sx_pick("tokens kept", 0, nt); FILE *f = fopen("k.mstk", "w");
  for (q = t; *q; ) { while (*q == ' ') q++; if (!*q) break; int l = 0; while (*q && *q != ' ') { if (l < 19) w[l++] = *q; q++; } w[l] = 0; if (w[0] == '|') { if (n == k) whole = 1; continue; } if (n == k) break; fprintf(f, "%s\n", w); n++; }
  fclose(f); Mesh_ptr m = MESH_New(UNKNOWN_REP); sx_cover("end"); if (!whole) sx_allow_exit(1);
  int ok = MESH_InitFromFile(m, "k.mstk", NULL); sx_unlink("k.mstk");
  sx_assert(ok == whole, "a file is accepted exactly when all it announces is there");
  if (ok) { sx_assert(MESH_Num_Vertices(m) == (which % 2 ? 4 : 3) && MESH_Num_Faces(m) == (which == 3 ? 0 : which == 1 ? 4 : 1) && MESH_Num_Regions(m) == which % 2, "counts of the file"); sx_cover("accepted"); }
}
void h_cutF1(void) { cutfile(0); }
void h_cutF4(void) { cutfile(1); }
void h_cutR1(void) { cutfile(2); }
void h_cutR2(void) { cutfile(3); }
void h_refuse(void) {
  static const char *bad[] = {"MSTZ 3.0 F1 0 0 0 0 vertices\n", "GMV 3.0 F1 0 0 0 0 vertices\n", "MSTK 3.0 X1 1 0 0 0 vertices 0 0 0 0 1\n", "MSTK 3.0 F1 1 0 0 0 nodes 0 0 0 0 1\n", "MSTK 3.0 F1 3 3 1 0 vertices 0 0 0 2 1 1 0 0 2 1 0 1 0 2 1 faces vertex 3 1 2 3 2 1\n", "MSTK 3.0 F1 3 3 1 0 vertices 0 0 0 2 1 1 0 0 2 1 0 1 0 2 1 edges 1 2 2 1 2 3 2 1 3 1 2 1 faces vertex 3 1 2 3 2 1\n"};
  int k = sx_pick("text", -1, 5); Mesh_ptr m = MESH_New(UNKNOWN_REP); if (k >= 0) { FILE *f = fopen("b.mstk", "w"); fprintf(f, "%s", bad[k]); fclose(f); }
  int ok = MESH_InitFromFile(m, "b.mstk", NULL); sx_assert(ok == 0, "refused"); if (k >= 0) sx_unlink("b.mstk"); sx_cover("end");
}
