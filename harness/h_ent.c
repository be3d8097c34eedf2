#include "common.h"
void MEnt_Set_PType(MEntity_ptr, PType); void MEnt_Flag_OnParBoundary(MEntity_ptr); void MEnt_Unflag_OnParBoundary(MEntity_ptr); void MEnt_Set_MasterParID(MEntity_ptr, int);
void MV_Set_PType(MEntity_ptr, PType); void ME_Set_PType(MEntity_ptr, PType); void MF_Set_PType(MEntity_ptr, PType); void MR_Set_PType(MEntity_ptr, PType);
void MV_Set_MasterParID(MEntity_ptr, int); void ME_Set_MasterParID(MEntity_ptr, int); void MF_Set_MasterParID(MEntity_ptr, int); void MR_Set_MasterParID(MEntity_ptr, int);
void MV_Flag_OnParBoundary(MEntity_ptr); void ME_Flag_OnParBoundary(MEntity_ptr); void MF_Flag_OnParBoundary(MEntity_ptr); void MEnt_Set_DelFlag(MEntity_ptr); void MEnt_Rem_DelFlag(MEntity_ptr); RepType MEnt_RepType(MEntity_ptr);
void MV_Unflag_OnParBoundary(MEntity_ptr); void ME_Unflag_OnParBoundary(MEntity_ptr); void MF_Unflag_OnParBoundary(MEntity_ptr);
static CM b; static MEntity_ptr t[5]; static int dimof[5] = {0, 0, 1, 2, 3};
static struct { int id, gd, gi, pt, pb, mp, gl, del; unsigned mk; double x[3]; } M[5];
static void rd(int i) { MEntity_ptr e = t[i]; M[i].id = MEnt_ID(e); M[i].gd = MEnt_GEntDim(e); M[i].gi = MEnt_GEntID(e); M[i].pt = MEnt_PType(e); M[i].pb = MEnt_OnParBoundary(e); M[i].mp = MEnt_MasterParID(e); M[i].gl = MEnt_GlobalID(e); M[i].mk = 0; M[i].del = 0; if (i < 2) MV_Coords(e, M[i].x); }
static void cmp(int rep) {
  for (int i = 0; i < 5; i++) { MEntity_ptr e = t[i]; if (!e) continue;
    sx_assert(MEnt_ID(e) == M[i].id, "local ID is as last set"); sx_assert(MEnt_GEntDim(e) == M[i].gd, "classification dimension is as last set"); sx_assert(MEnt_GEntID(e) == M[i].gi, "classification ID is as last set");
    sx_assert((int)MEnt_PType(e) == M[i].pt, "parallel type is as last set"); sx_assert((MEnt_OnParBoundary(e) != 0) == M[i].pb, "boundary flag is as last set"); sx_assert(MEnt_MasterParID(e) == M[i].mp, "owning partition is as last set"); sx_assert(MEnt_GlobalID(e) == M[i].gl, "global ID is as last set");
    sx_assert((int)MEnt_Dim(e) == (M[i].del ? -1 : dimof[i]), "dimension or deleted state"); if (M[i].del) sx_assert((int)MEnt_OrigDim(e) == dimof[i], "original dimension of a deleted entity"); sx_assert(MEnt_Mesh(e) == b.m, "entity's mesh"); sx_assert((int)MEnt_RepType(e) == rep, "representation type"); sx_assert(!MEnt_IsVolatile(e), "entity is not volatile");
    switch (dimof[i]) {
    case 0: { double x[3]; MV_Coords(e, x); for (int k = 0; k < 3; k++) sx_assert(x[k] == M[i].x[k], "coordinates are as last set"); sx_assert(MV_ID(e) == M[i].id && MV_GEntDim(e) == M[i].gd && MV_GEntID(e) == M[i].gi && (int)MV_PType(e) == M[i].pt && MV_MasterParID(e) == M[i].mp && MV_GlobalID(e) == M[i].gl && MV_Mesh(e) == b.m && (MV_OnParBoundary(e) != 0) == M[i].pb, "vertex accessors agree"); break; }
    case 1: sx_assert(ME_ID(e) == M[i].id && ME_GEntDim(e) == M[i].gd && ME_GEntID(e) == M[i].gi && (int)ME_PType(e) == M[i].pt && ME_MasterParID(e) == M[i].mp && ME_GlobalID(e) == M[i].gl && ME_Mesh(e) == b.m && (ME_OnParBoundary(e) != 0) == M[i].pb, "edge accessors agree"); break;
    case 2: sx_assert(MF_ID(e) == M[i].id && MF_GEntDim(e) == M[i].gd && MF_GEntID(e) == M[i].gi && (int)MF_PType(e) == M[i].pt && MF_MasterParID(e) == M[i].mp && MF_GlobalID(e) == M[i].gl && MF_Mesh(e) == b.m && (MF_OnParBoundary(e) != 0) == M[i].pb, "face accessors agree"); break;
    case 3: sx_assert(MR_ID(e) == M[i].id && MR_GEntDim(e) == M[i].gd && MR_GEntID(e) == M[i].gi && (int)MR_PType(e) == M[i].pt && MR_MasterParID(e) == M[i].mp && MR_GlobalID(e) == M[i].gl && MR_Mesh(e) == b.m, "region accessors agree"); break;
    }
#ifdef MSTK_USE_MARKERS
    for (int k = 1; k <= 31; k += 6) sx_assert((MEnt_IsMarked(e, k) != 0) == ((M[i].mk >> (k - 1)) & 1), "marks are as last set");
#endif
  }
}
static int init;
static void field(int i, int op, int gen) {
  MEntity_ptr e = t[i]; int d = dimof[i], v;
#define SET(fn, ...) (gen ? MEnt_##fn(e, __VA_ARGS__) : d == 0 ? MV_##fn(e, __VA_ARGS__) : d == 1 ? ME_##fn(e, __VA_ARGS__) : d == 2 ? MF_##fn(e, __VA_ARGS__) : MR_##fn(e, __VA_ARGS__))
  switch (op) {
  case 0: v = !init ? sx_int("id", 1, 134217727) : i == 1 ? sx_int("id", 1, 5) : sx_int("id", 10, 134217727); SET(Set_ID, v); M[i].id = v; break;
  case 1: v = sx_int("gdim", 0, 4); SET(Set_GEntDim, v); M[i].gd = v; break;
  case 2: v = sx_int("gid", 0, 67108863); SET(Set_GEntID, v); M[i].gi = v; break;
  case 3: v = sx_int("ptype", 0, 3); SET(Set_PType, v); M[i].pt = v; break;
  case 4: v = sx_int("master", 0, 536870911); SET(Set_MasterParID, v); M[i].mp = v; break;
  case 5: v = sx_int("global", 0, 2147483647); SET(Set_GlobalID, v); M[i].gl = v; break;
  case 6: v = sx_pick("flag", 0, 1); if (d == 3 && !gen) break; if (v) { if (gen) MEnt_Flag_OnParBoundary(e); else if (d == 0) MV_Flag_OnParBoundary(e); else if (d == 1) ME_Flag_OnParBoundary(e); else MF_Flag_OnParBoundary(e); } else { if (gen) MEnt_Unflag_OnParBoundary(e); else if (d == 0) MV_Unflag_OnParBoundary(e); else if (d == 1) ME_Unflag_OnParBoundary(e); else MF_Unflag_OnParBoundary(e); } M[i].pb = v; break;
  case 7: if (d == 0) { for (int k = 0; k < 3; k++) M[i].x[k] = sx_double("x"); MV_Set_Coords(e, M[i].x); } break;
  case 8: if (gen) { MEnt_Set_DelFlag(e); M[i].del = 1; } else { MEnt_Rem_DelFlag(e); M[i].del = 0; } break;
#ifdef MSTK_USE_MARKERS
  case 9: v = 1 + 6 * sx_pick("marker", 0, 5); if (gen) { MEnt_Mark(e, v); M[i].mk |= 1u << (v - 1); } else { MEnt_Unmark(e, v); M[i].mk &= ~(1u << (v - 1)); } break;
#endif
  }
}
static void setup(int rep, int cat) { cm_build(&b, rep, cat, 0); t[0] = b.v[0]; t[1] = b.v[2]; t[2] = rep == F1 || rep == F4 ? MESH_Edge(b.m, 0) : NULL; t[3] = rep == F1 || rep == F4 ? MESH_Face(b.m, 1) : NULL; t[4] = MESH_Region(b.m, 0); for (int i = 0; i < 5; i++) if (t[i]) rd(i); }
static void fields(int rep, int nops) { /* any sequence of settings of any fields of any entities to any values */
  setup(rep, C_TET2); cmp(rep); init = 1;
  for (int i = 0; i < 5; i++) if (t[i]) for (int op = 0; op < 8; op++) if (op != 6) field(i, op, (i + op) & 1);   /* every field of everything holds an arbitrary value */
  cmp(rep); init = 0;
  int last = 0;
  for (int k = 0; k < nops; k++) {
#ifdef MSTK_USE_MARKERS
    int op = sx_pick("field", 0, 9);
#else
    int op = sx_pick("field", 0, 8);
#endif
    int i = k && !TH(0, 1) ? last : sx_pick("entity", 0, 4), gen = sx_pick("generic", 0, 1); last = i; if (!t[i]) continue; field(i, op, gen); }
  cmp(rep); sx_cover("end");
}
void h_ent_F1(void) { fields(F1, TH(2, 3)); }
void h_ent_F4(void) { fields(F4, TH(2, 3)); }
void h_ent_R(void) { int rep = sx_pick("rep", 0, 1) ? R1 : R2; fields(rep, TH(2, 3)); }
/* changing adjacency leaves every field alone */
void h_ent_adj(void) {
  int rep = sx_pick("rep", 0, 1) ? F4 : F1; setup(rep, C_TET2); init = 1;
  int fl = sx_pick("bdry", 0, 4);
  for (int i = 0; i < 5; i++) { for (int op = 0; op < 8; op++) if (op != 6 && op != 3) field(i, op, 0); if (i < 4 && fl == i) { MEnt_Flag_OnParBoundary(t[i]); M[i].pb = 1; } int pt = sx_int("ptype", 0, 2); MEnt_Set_PType(t[i], pt); M[i].pt = pt; }
  int op = sx_pick("change", 0, 5);
  switch (op) {
  case 0: { MEdge_ptr e = ME_New(b.m); ME_Set_Vertex(e, 0, b.v[0]); ME_Set_Vertex(e, 1, b.v[4]); break; }
  case 1: { MVertex_ptr v = MV_New(b.m); ME_Set_Vertex(t[2], 0, v); break; }
  case 2: { MVertex_ptr v[3] = {b.v[0], b.v[1], b.v[4]}; MFace_ptr f = MF_New(b.m); MF_Set_Vertices(f, 3, v); break; }
  case 3: { MVertex_ptr v[4] = {b.v[0], b.v[1], b.v[3], b.v[4]}; MRegion_ptr r = MR_New(b.m); MR_Set_Vertices(r, 4, v, 0, NULL); break; }
  case 4: MR_Delete(MESH_Region(b.m, 1), 0); break;
  case 5: { int d = MR_FaceDir(t[4], t[3]); MR_Set_FaceDir(t[4], t[3], d); break; }
  }
  cmp(rep); sx_cover("end");
}
