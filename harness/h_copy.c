/* C22: mesh duplication */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
static void del(Mesh_ptr m) { MESH_Delete(m); }
static Snap S0, C0;
static int eqpos(Snap *a, Snap *b) { memcpy(b->p, a->p, sizeof a->p); return cm_snap_eq(a, b, 1); }
static void copy(int rs, int rd, int ncat, const int *cats) {
  CM b; int k = cats[sx_pick("mesh", 0, ncat - 1)], full = rs <= F4 && rd <= F4, i, d, wa = sx_pick("with_attr", 0, 1), wset = sx_pick("with_sets", 0, 1), ad = sx_pick("attdim", 0, 4), lb = sx_live_blocks(); if (ad == 4) ad = MALLTYPE; if (!wa && ad) return;
  cm_build(&b, rs, k, CM_SYMX | (rs <= F4 ? TH(0, CM_ROT | CM_FDIR) : 0)); Mesh_ptr m = b.m; for (i = 0; i < 3; i++) vals[i] = sx_int("val", -1000, 1000);
  int hole = full ? sx_pick("hole", 0, 1) : 0; if (hole) { if (b.c->dim == 2) MF_Delete(b.cell[0], 0); else MR_Delete(b.cell[0], 0); }
  int g = sx_int("gid", 1, 100), gd = sx_pick("gdim", TH(2, 0), TH(2, 3)), pt = sx_int("ptype", 0, 3), mp = sx_int("owner", 0, 20);
  for (d = 0; d < 4; d++) for (i = 0; i < NE(d, m); i++) { MEntity_ptr e = ent(m, d, i); int q = gd < d ? d : gd; if (d == 0) { MV_Set_GEntDim(e, q); MV_Set_GEntID(e, g + i % 2); MV_Set_PType(e, i ? PINTERIOR : pt); MV_Set_MasterParID(e, mp + i % 2); if (i == 1) MV_Flag_OnParBoundary(e); } else if (d == 1) { ME_Set_GEntDim(e, q); ME_Set_GEntID(e, g + i % 2); ME_Set_PType(e, i ? PINTERIOR : pt); ME_Set_MasterParID(e, mp); } else if (d == 2) { MF_Set_GEntDim(e, q); MF_Set_GEntID(e, g + i % 2); MF_Set_PType(e, i ? PINTERIOR : pt); MF_Set_MasterParID(e, mp); } else { MR_Set_GEntDim(e, q); MR_Set_GEntID(e, g + i % 2); MR_Set_PType(e, i ? PINTERIOR : pt); MR_Set_MasterParID(e, mp); } MEnt_Set_GlobalID(e, 5 * i + d + 1); if (d == 1 && i % 3 == 1) ME_Flag_OnParBoundary(e); if (d == 2 && i % 2 == 1) MF_Flag_OnParBoundary(e); }
  if (NE(0, m)) MV_Set_ID(MESH_Vertex(m, NE(0, m) - 1), 500);
  MESH_Build_GhostLists(m, dimof(m)); putatts(m, ad); putsets(m); if (rs <= F4) cm_snap(m, &S0);
  Mesh_ptr c = MESH_New(rd); sx_assert(MESH_Copy(m, c, wa, wset) == 1, "copying succeeds");
  sx_assert(MESH_Num_Attribs(m) == 5, "no attribute is left on the source"); if (rs <= F4) { cm_snap(m, &C0); sx_assert(cm_snap_eq(&S0, &C0, 1), "the source does not change"); } chkatts(m, NULL, ad, 0); chksets(m); sx_assert(MESH_RepType(c) == rd, "the copy has the requested representation");
  if (full) { cm_snap(c, &C0); sx_assert(eqpos(&S0, &C0), "same entities, order, connectivity, coordinates, classification and IDs"); cm_valid(c, "copy"); par(m, c); ghosts(m, c); } else cm_same_mesh(m, c, 1, "copy");
  int hasall = full || (ad != 1 && ad != 2 && ad != MALLTYPE); /* edges and faces need not exist in both representations */
  if (wa && hasall) chkatts(c, m, ad, 1); else if (!wa) sx_assert(MESH_Num_Attribs(c) == 0, "no attributes unless asked for"); if (wset && full) chksets(c); else if (!wset) sx_assert(MESH_Num_MSets(c) == 0, "no sets unless asked for");
  /* independence */
  if (sx_pick("which", 0, 1)) { double y[3] = {9, 9, 9}; MV_Set_Coords(MESH_Vertex(c, 0), y); MV_Set_GEntID(MESH_Vertex(c, 0), 77); MEntity_ptr x = full ? ent(c, dimof(c), 0) : NULL; if (!full) { } else if (dimof(c) == 3) MR_Delete(x, 0); else MF_Delete(x, 0); if (wa && ad == 0) { int iv; double dv; void *pv; MEnt_Get_AttVal(MESH_Vertex(c, 0), MESH_AttribByName(c, "va"), &iv, &dv, &pv); ((double *)pv)[0] = -7777; } del(c);
    if (rs <= F4) { cm_snap(m, &C0); sx_assert(cm_snap_eq(&S0, &C0, 1), "changing the copy does not change the source"); cm_valid(m, "source"); } chkatts(m, NULL, ad, 0); chksets(m); del(m); }
  else { del(m); if (full) { cm_snap(c, &C0); sx_assert(eqpos(&S0, &C0), "deleting the source does not change the copy"); cm_valid(c, "copy"); } if (wa && hasall) chkatts(c, NULL, ad, 1); if (wset && full) chksets(c); del(c); }
  if (full) sx_check_leaks(lb, "nothing left behind"); sx_cover("end");
}
static const int c2[] = {C_TRIQUAD, C_FAN4, C_PENTTRI, C_QUAD22, C_TRI6}, c3[] = {C_PYRHEX, C_TET2, C_PRISMTET, C_TET, C_HEX2, C_TET4};
void h_cp2_F1F1(void) { copy(F1, F1, TH(2, 5), c2); }
void h_cp3_F1F1(void) { copy(F1, F1, TH(1, 6), c3); }
void h_cp2_F4F4(void) { copy(F4, F4, TH(2, 5), c2); }
void h_cp3_F4F4(void) { copy(F4, F4, TH(1, 6), c3); }
void h_cp2_F1F4(void) { copy(F1, F4, TH(2, 5), c2); }
void h_cp3_F1F4(void) { copy(F1, F4, TH(1, 6), c3); }
void h_cp2_F4F1(void) { copy(F4, F1, TH(2, 5), c2); }
void h_cp3_F4F1(void) { copy(F4, F1, TH(1, 6), c3); }
void h_cp2_R1R1(void) { copy(R1, R1, TH(2, 5), c2); }
void h_cp3_R1R1(void) { copy(R1, R1, TH(1, 6), c3); }
void h_cp2_R2R2(void) { copy(R2, R2, TH(2, 5), c2); }
void h_cp3_R2R2(void) { copy(R2, R2, TH(1, 6), c3); }
void h_cp2_R4R4(void) { copy(R4, R4, TH(2, 5), c2); }
void h_cp2_R1F1(void) { copy(R1, F1, TH(2, 5), c2); }
void h_cp3_R1F1(void) { copy(R1, F1, TH(1, 6), c3); }
void h_cp2_F1R1(void) { copy(F1, R1, TH(2, 5), c2); }
void h_cp3_F1R1(void) { copy(F1, R1, TH(1, 6), c3); }
void h_cp2_F4R4(void) { copy(F4, R4, TH(2, 5), c2); }
void h_cp2_R4F1(void) { copy(R4, F1, TH(2, 5), c2); }

/* a region of more faces than one word of direction bits holds, a polygon of as many sides as faces may have */
static void cpbig(int rs, int rd) {
  int lb = sx_live_blocks(), nf = sx_pick("nf", 31, 34), at = sx_pick("at", 0, 3), nv = nf + 2, i, j, fd[40]; Mesh_ptr m = MESH_New(rs), c; MVertex_ptr v[40]; MFace_ptr f[40];
  for (i = 0; i < nv; i++) { double x[3] = {i, i * i, i % 7}; v[i] = MV_New(m); MV_Set_Coords(v[i], x); }
  for (i = 0; i < 30; i++) { MEdge_ptr e = ME_New(m); int s = (i % 3 == 0) ^ (i > 28); ME_Set_Vertex(e, s, v[i]); ME_Set_Vertex(e, !s, v[(i + 1) % 30]); ME_Set_ID(e, i + 1); }
  int at0 = at == 0 ? 0 : at == 1 ? 15 : at == 2 ? 29 : nf - 2; for (i = 0; i < nf; i++) { MVertex_ptr t[3] = {v[i], v[i + 1], v[i + 2]}; f[i] = MF_New(m); MF_Set_Vertices(f[i], 3, t); fd[i] = i % 3 != 1; if (i == at0 || i == at0 + 1) fd[i] = sx_int("dir", 0, 1); }
  MFace_ptr p = MF_New(m); MF_Set_Vertices(p, 30, v); MRegion_ptr r = MR_New(m); MR_Set_Faces(r, nf, f, fd); int nw = sx_pick("second", 0, 1); if (nw) { int d2[2] = {!fd[nf - 2], !fd[nf - 1]}; MRegion_ptr q = MR_New(m); MR_Set_Faces(q, 2, f + nf - 2, d2); }
  c = MESH_New(rd); sx_assert(MESH_Copy(m, c, 0, 0) == 1, "copying succeeds"); sx_assert(MESH_Num_Regions(c) == 1 + nw && MESH_Num_Faces(c) == nf + 1 && MESH_Num_Edges(c) == MESH_Num_Edges(m) && MESH_Num_Vertices(c) == nv, "same number of entities");
  for (i = 0; i < 1 + nw; i++) { MRegion_ptr a = MESH_Region(m, i), b = MESH_Region(c, i); List_ptr la = MR_Faces(a), lb2 = MR_Faces(b); int n = List_Num_Entries(la); sx_assert(n == List_Num_Entries(lb2), "as many faces"); for (j = 0; j < n; j++) { sx_assert(MF_ID(List_Entry(la, j)) == MF_ID(List_Entry(lb2, j)), "the same faces"); sx_assert(MR_FaceDir_i(a, j) == MR_FaceDir_i(b, j) && MR_FaceDir(b, List_Entry(lb2, j)) == MR_FaceDir_i(a, j), "the same face directions"); } if (!i) for (j = 0; j < nf; j++) sx_assert(MR_FaceDir_i(b, j) == fd[j], "the given face directions"); List_Delete(la); List_Delete(lb2); }
  for (i = 0; i <= nf; i++) { MFace_ptr a = MESH_Face(m, i), b = MESH_Face(c, i); List_ptr la = MF_Edges(a, 1, 0), le = MF_Edges(b, 1, 0); int n = List_Num_Entries(la); sx_assert(n == List_Num_Entries(le), "as many edges"); for (j = 0; j < n; j++) { MEdge_ptr ea = List_Entry(la, j), eb = List_Entry(le, j); sx_assert(ME_ID(ea) == ME_ID(eb) && MF_EdgeDir_i(a, j) == MF_EdgeDir_i(b, j) && MV_ID(ME_Vertex(ea, 0)) == MV_ID(ME_Vertex(eb, 0)) && MV_ID(ME_Vertex(ea, 1)) == MV_ID(ME_Vertex(eb, 1)), "the same edges in the same directions"); } List_Delete(la); List_Delete(le); }
  MESH_Delete(m); MESH_Delete(c); sx_check_leaks(lb, "nothing left behind"); sx_cover("end");
}
void h_cpbig_F1F1(void) { cpbig(F1, F1); }
void h_cpbig_F1F4(void) { cpbig(F1, F4); }
void h_cpbig_F4F1(void) { cpbig(F4, F1); }
