/* C24: the topology checker accepts valid, fully classified meshes and rejects single corruptions */
#include "MSTK_private.h"
#include "common.h"
#define NE(d, m) ((d) == 0 ? MESH_Num_Vertices(m) : (d) == 1 ? MESH_Num_Edges(m) : (d) == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m))
static int alt;
static Mesh_ptr mk(int rep, int ncat, const int *cats, int sym) {
  int k = cats[sx_pick("mesh", 0, ncat - 1)]; CM b; if (k < 0) { Mesh_ptr m = k == -1 ? MESH_Gen_Structured(0, 0, 0, 2, 2, 0, 2, 2, 0) : MESH_Gen_Structured(0, 0, 0, 2, 2, 2, 2, 2, 2); return m; }
  alt = sym < 0 ? sx_pick("materials", 0, 1) : 0; cm_build(&b, rep, k, sym > 0 ? CM_FDIR : TH(0, CM_ROT)); Mesh_ptr m = b.m; int i, n = b.c->dim == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m);
  for (i = 0; i < n; i++) { int g = sym > 0 ? sx_int("g", 1, TH(2, 3)) : 1 + (i & 1) * ((sym < 0 && alt)); if (b.c->dim == 2) { MF_Set_GEntDim(MESH_Face(m, i), 2); MF_Set_GEntID(MESH_Face(m, i), g); } else { MR_Set_GEntDim(MESH_Region(m, i), 3); MR_Set_GEntID(MESH_Region(m, i), g); } }
  for (i = 0; i < MESH_Num_Vertices(m); i++) MV_Set_GEntDim(MESH_Vertex(m, i), 4); for (i = 0; i < MESH_Num_Edges(m); i++) ME_Set_GEntDim(MESH_Edge(m, i), 4); if (b.c->dim == 3) for (i = 0; i < MESH_Num_Faces(m); i++) MF_Set_GEntDim(MESH_Face(m, i), 4);
  return m;
}
static int check(Mesh_ptr m) { int lb = sx_live_blocks(), r; cm_snap(m, &snapA); r = MESH_CheckTopo(m); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "checking does not modify the mesh"); sx_check_leaks(lb, "checking leaves no memory behind"); return r; }
static const int c2[] = {C_QUAD22, C_FAN4, -1, C_TRIQUAD, C_STRIP3, C_TRI, C_TRI6, C_PENTTRI, C_FAN6}, c3[] = {C_TET3E, C_HEX2, C_TET4, C_PYRHEX, C_TET, C_PRISMTET, C_TET2, C_TET6, -2};
static void ok_(int rep, int n, const int *c) { Mesh_ptr m = mk(rep, n, c, 1); if (sx_pick("classified", 0, 1)) MESH_BuildClassfn(m, 0); int r = check(m); sx_assert(r == 1, "a valid mesh is accepted"); sx_cover("end"); }
void h_ok2_F1(void) { ok_(F1, TH(5, 9), c2); }
void h_ok2_F4(void) { ok_(F4, TH(2, 9), c2); }
void h_ok3_F1(void) { ok_(F1, TH(5, 9), c3); }
void h_ok3_F4(void) { ok_(F4, TH(2, 9), c3); }
/* a single corruption: returns 0 when it does not apply at the chosen place */
enum { K_EVDIM, K_EVID, K_FEDIM, K_EFID, K_FR, K_VE, K_VEX, K_EF, K_RFDIR, K_LOOP, K_VRING, K_FR1, K_SENSE, K_VDIM, K_EHIGH, K_RREM, K_TWO, K_ISO, K_INOUT, K_NK };
static int hit;
static int corrupt(Mesh_ptr m, int kind, int dim, int rep) {
  int i, j, p; MVertex_ptr v; MEdge_ptr e; MFace_ptr f; MRegion_ptr r; List_ptr l; hit = 0;
  switch (kind) {
  case K_EVDIM: p = sx_pick("edge", 0, NE(1, m) - 1); e = MESH_Edge(m, p); j = sx_pick("end", 0, 1); v = ME_Vertex(e, j); i = MV_GEntDim(v); if (i < 2) return 0; ME_Set_GEntDim(e, i - 1); return 1;                       /* edge below its vertex */
  case K_VDIM: p = sx_pick("edge", 0, NE(1, m) - 1); e = MESH_Edge(m, p); j = sx_pick("end", 0, 1); v = ME_Vertex(e, j); i = ME_GEntDim(e); if (i > 2) return 0; MV_Set_GEntDim(v, i + 1); return 1;
  case K_EVID: p = sx_pick("edge", 0, NE(1, m) - 1); e = MESH_Edge(m, p); j = sx_pick("end", 0, 1); v = ME_Vertex(e, j); if (MV_GEntDim(v) != ME_GEntDim(e)) return 0; if (sx_pick("which", 0, 1)) ME_Set_GEntID(e, ME_GEntID(e) + sx_int("delta", 1, 50)); else MV_Set_GEntID(v, MV_GEntID(v) + sx_int("delta", 1, 50)); return 1;
  case K_FEDIM: if (dim == 2) return 0; f = MESH_Face(m, sx_pick("face", 0, NE(2, m) - 1)); l = MF_Edges(f, 1, 0); for (i = j = 0; i < List_Num_Entries(l); i++) j |= ME_GEntDim(List_Entry(l, i)) == 3; List_Delete(l); if (!j) return 0; MF_Set_GEntDim(f, 2); return 1;
  case K_EFID: f = MESH_Face(m, sx_pick("face", 0, NE(2, m) - 1)); if (MF_GEntDim(f) != 2) return 0; l = MF_Edges(f, 1, 0); for (i = j = 0; i < List_Num_Entries(l); i++) j |= ME_GEntDim(List_Entry(l, i)) == 2; List_Delete(l); if (!j) return 0; MF_Set_GEntID(f, MF_GEntID(f) + sx_int("delta", 1, 50)); return 1;
  case K_FR: if (dim == 2) return 0; f = MESH_Face(m, sx_pick("face", 0, NE(2, m) - 1)); if (MF_GEntDim(f) != 2) return 0; l = MF_Regions(f); i = List_Num_Entries(l); List_Delete(l); if (i == 2) return 0; MF_Set_GEntDim(f, 3); return 1;
  case K_VE: e = MESH_Edge(m, sx_pick("edge", 0, NE(1, m) - 1)); v = ME_Vertex(e, sx_pick("end", 0, 1)); MV_Rem_Edge(v, e); return 1;
  case K_VEX: e = MESH_Edge(m, sx_pick("edge", 0, NE(1, m) - 1)); v = MESH_Vertex(m, sx_pick("vertex", 0, NE(0, m) - 1)); if (ME_Vertex(e, 0) == v || ME_Vertex(e, 1) == v) return 0; MV_Add_Edge(v, e); return 1;
  case K_EF: if (rep != F1) return 0; f = MESH_Face(m, sx_pick("face", 0, NE(2, m) - 1)); l = MF_Edges(f, 1, 0); i = sx_pick("side", 0, 4); if (i >= List_Num_Entries(l)) { List_Delete(l); return 0; } e = List_Entry(l, i); List_Delete(l); ME_Rem_Face(e, f); return 1;
  case K_RFDIR: if (dim == 2) return 0; r = MESH_Region(m, sx_pick("region", 0, NE(3, m) - 1)); i = sx_pick("side", 0, 5); if (i >= MR_Num_Faces(r)) return 0; MR_Rev_FaceDir_i(r, i); return 1;
  case K_LOOP: v = MESH_Vertex(m, sx_pick("vertex", 0, NE(0, m) - 1)); e = ME_New(m); ME_Set_Vertex(e, 0, v); ME_Set_Vertex(e, 1, v); ME_Set_GEntDim(e, MV_GEntDim(v) ? MV_GEntDim(v) : 1); ME_Set_GEntID(e, MV_GEntID(v)); return 1;
  case K_VRING: v = MESH_Vertex(m, sx_pick("vertex", 0, NE(0, m) - 1)); i = MV_GEntDim(v); if (i == 2) { MV_Set_GEntID(v, MV_GEntID(v) + sx_int("delta", 1, 50)); return 1; } if (i == 3) { MV_Set_GEntDim(v, 2); return 1; } return 0;
  case K_FR1: if (dim == 2 || rep != F1) return 0; f = MESH_Face(m, sx_pick("face", 0, NE(2, m) - 1)); j = sx_pick("side", 0, 1); r = MF_Region(f, j); if (!r) return 0; MF_Rem_Region(f, r); return 1;
  case K_SENSE: if (dim == 2) return 0; r = MESH_Region(m, sx_pick("region", 0, NE(3, m) - 1)); l = MR_Faces(r); j = 0; for (i = 0; i < List_Num_Entries(l); i++) { List_ptr q = MF_Regions(List_Entry(l, i)); j |= List_Num_Entries(q) == 2; List_Delete(q); } if (j) for (i = 0; i < List_Num_Entries(l); i++) MR_Rev_FaceDir_i(r, i); List_Delete(l); return j;  /* inside out: a shared face is used twice in one sense */
  case K_EHIGH: e = MESH_Edge(m, sx_pick("edge", 0, NE(1, m) - 1)); l = ME_Faces(e); for (i = j = 0; l && i < List_Num_Entries(l); i++) j |= MF_GEntDim(List_Entry(l, i)) == 2; if (l) List_Delete(l); if (!j || ME_GEntDim(e) == 3) return 0; ME_Set_GEntDim(e, 3); return 1;   /* edge above a face using it */
  case K_RREM: if (dim == 2) return 0; r = MESH_Region(m, sx_pick("region", 0, NE(3, m) - 1)); i = sx_pick("side", 0, 5); if (i >= MR_Num_Faces(r)) return 0; l = MR_Faces(r); f = List_Entry(l, i); List_Delete(l); MR_Rem_Face(r, f); return 1;   /* region that is not closed */
  case K_TWO: { MEdge_ptr fe[2]; int fd[2]; e = MESH_Edge(m, sx_pick("edge", 0, NE(1, m) - 1)); fe[0] = e; fd[0] = 1; fe[1] = ME_New(m); fd[1] = 0; ME_Set_Vertex(fe[1], 0, ME_Vertex(e, 0)); ME_Set_Vertex(fe[1], 1, ME_Vertex(e, 1)); ME_Set_GEntDim(fe[1], ME_GEntDim(e)); ME_Set_GEntID(fe[1], ME_GEntID(e)); f = MF_New(m); MF_Set_Edges(f, 2, fe, fd); MF_Set_GEntDim(f, 2); MF_Set_GEntID(f, 77); return 1; }   /* two-sided face */
  case K_INOUT: { MFace_ptr rf[8]; int rd[8], n, g; if (dim == 2 || rep != F4) return 0; r = MESH_Region(m, sx_pick("region", 0, NE(3, m) - 1)); l = MR_Faces(r); n = List_Num_Entries(l); j = 0; for (i = 0; i < n; i++) { List_ptr q = MF_Regions(List_Entry(l, i)); j |= List_Num_Entries(q) == 2; List_Delete(q); rf[i] = List_Entry(l, i); rd[i] = !MR_FaceDir_i(r, i); } List_Delete(l); g = MR_GEntID(r); MR_Delete(r, 0); r = MR_New(m); MR_Set_Faces(r, n, rf, rd); MR_Set_GEntDim(r, 3); MR_Set_GEntID(r, g); return j; }   /* a region inside out, its neighbours as before */
  case K_ISO: { MVertex_ptr w[3]; if (dim == 2) return 0; for (i = 0; i < 3; i++) { w[i] = MV_New(m); MV_Set_GEntDim(w[i], 0); MV_Set_GEntID(w[i], 90 + i); } f = MF_New(m); MF_Set_Vertices(f, 3, w); l = MF_Edges(f, 1, 0); for (i = 0; i < 3; i++) { ME_Set_GEntDim(List_Entry(l, i), 1); ME_Set_GEntID(List_Entry(l, i), 95 + i); } List_Delete(l); MF_Set_GEntDim(f, 3); MF_Set_GEntID(f, 1); return 1; }   /* interior face without regions */
  }
  return 0;
}
static void bad(int rep, int n, const int *c, int dim) { Mesh_ptr m = mk(rep, n, c, TH(-1, -1)); MESH_BuildClassfn(m, 0); sx_assert(MESH_CheckTopo(m) == 1, "valid before"); int kind = sx_pick("kind", 0, K_NK - 1); if (!corrupt(m, kind, dim, rep)) return; int r = kind == K_LOOP ? MESH_CheckTopo(m) : check(m); sx_assert(r == 0, "a corrupted mesh is rejected"); sx_cover("end"); }
void h_bad2_F1(void) { bad(F1, TH(4, 9), c2, 2); }
void h_bad2_F4(void) { bad(F4, TH(2, 9), c2, 2); }
void h_bad3_F1(void) { bad(F1, TH(5, 9), c3, 3); }
void h_bad3_F4(void) { bad(F4, TH(2, 9), c3, 3); }
