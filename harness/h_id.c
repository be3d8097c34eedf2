#include "common.h"
static Mesh_ptr m; static int K; static MVertex_ptr bv[6]; static MEdge_ptr be[6]; static MFace_ptr bf[4];
static MEntity_ptr lv[16], kp[8]; static int nl, nk, id[16], kid[8];
static int num(void) { return K == 0 ? MESH_Num_Vertices(m) : K == 1 ? MESH_Num_Edges(m) : K == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static MEntity_ptr at(int i) { return K == 0 ? MESH_Vertex(m, i) : K == 1 ? MESH_Edge(m, i) : K == 2 ? MESH_Face(m, i) : MESH_Region(m, i); }
static MEntity_ptr nx(int *i) { return K == 0 ? MESH_Next_Vertex(m, i) : K == 1 ? MESH_Next_Edge(m, i) : K == 2 ? MESH_Next_Face(m, i) : MESH_Next_Region(m, i); }
static MEntity_ptr fromid(int i) { return K == 0 ? MESH_VertexFromID(m, i) : K == 1 ? MESH_EdgeFromID(m, i) : K == 2 ? MESH_FaceFromID(m, i) : MESH_RegionFromID(m, i); }
static MEntity_ptr fromgid(int i) { return K == 0 ? MESH_VertexFromGlobalID(m, i) : K == 1 ? MESH_EdgeFromGlobalID(m, i) : K == 2 ? MESH_FaceFromGlobalID(m, i) : MESH_RegionFromGlobalID(m, i); }
static MEntity_ptr mknew(void) {
  static int fa; MEntity_ptr e;
  if (K == 0) return MV_New(m);
  if (K == 1) { e = ME_New(m); ME_Set_Vertex(e, 0, bv[0]); ME_Set_Vertex(e, 1, bv[1]); return e; }
  if (K == 2) { int d[3] = {1, 1, 1}; e = MF_New(m); MF_Set_Edges(e, 3, be, d); return e; }
  { MVertex_ptr v[4]; for (int i = 0; i < 4; i++) { double x[3] = {i == 1, i == 2, i == 3}; v[i] = MV_New(m); MV_Set_Coords(v[i], x); } e = MR_New(m); MR_Set_Vertices(e, 4, v, 0, NULL); return e; }
}
static void base_ents(int k) { K = k; if (k == 0) return; for (int i = 0; i < 3; i++) { double x[3] = {i == 1, i == 2, 0}; bv[i] = MV_New(m); MV_Set_Coords(bv[i], x); } if (k == 1) return; for (int i = 0; i < 3; i++) { be[i] = ME_New(m); ME_Set_Vertex(be[i], 0, bv[i]); ME_Set_Vertex(be[i], 1, bv[(i + 1) % 3]); } }
static void check_ids(int probe, int search) {
  sx_assert(num() == nl, "count equals the number of live entities");
  int i = 0, c = 0; MEntity_ptr e; int seen[16] = {0};
  while ((e = nx(&i))) { sx_assert(c < nl, "iteration visits no entity twice"); sx_assert(at(c) == e, "positional access agrees with iteration"); c++; int h = -1; for (int j = 0; j < nl; j++) if (lv[j] == e) h = j; sx_assert(h >= 0, "iteration visits only live entities"); sx_assert(!seen[h], "iteration visits each entity once"); seen[h] = 1; }
  sx_assert(c == nl, "iteration visits every live entity");
  for (int j = 0; j < nl; j++) { sx_assert(MEnt_ID(lv[j]) == id[j], "IDs are as assigned"); if (search) { sx_assert(fromid(id[j]) == lv[j], "look-up by ID returns the entity carrying it"); sx_assert(MESH_EntityFromID(m, K, id[j]) == lv[j], "look-up by kind and ID"); } }
  if (search) { int free = 1; for (int j = 0; j < nl; j++) free &= probe != id[j]; if (free) sx_assert(fromid(probe) == NULL, "look-up of an ID nothing carries returns nothing"); }
  sx_assert(fromid(0) == NULL && fromid(-1) == NULL, "look-up of an impossible ID returns nothing");
}
static void add(void) { MEntity_ptr e = mknew(); int d = MEnt_ID(e); sx_assert(d > 0, "new entity gets an ID"); for (int j = 0; j < nl; j++) { sx_assert(e != lv[j], "new entity is new"); sx_assert(d != id[j], "new entity's ID is held by no live entity"); } lv[nl] = e; id[nl++] = d; }
static void ids(int k, int n0, int nops, int maxid) {
  int base = sx_live_blocks(); MSTK_Init(); m = MESH_New(F1); base_ents(k); nl = nk = 0; for (int i = 0; i < n0; i++) add();
  for (int t = 0; t < nops; t++) {
    int op = sx_pick("op", 0, 6), j;
    switch (op) {
    case 0: add(); break;
    case 1: case 2: if (nl) { j = sx_pick("which", 0, nl - 1); MEntity_ptr e = lv[j]; if (op == 2) { kp[nk] = e; kid[nk++] = id[j]; } lv[j] = lv[nl - 1]; id[j] = id[--nl]; if (k == 0) MV_Delete(e, op == 2); else if (k == 1) ME_Delete(e, op == 2); else if (k == 2) MF_Delete(e, op == 2); else MR_Delete(e, op == 2); if (op == 2) sx_assert((int)MEnt_Dim(e) == -1, "deleted entity is marked deleted"); } break;
    case 3: if (nk) { int ok = 1; nk--; for (j = 0; j < nl; j++) ok &= id[j] != kid[nk]; if (!ok) { MEnt_Delete(kp[nk], 0); break; } MEntity_ptr e = kp[nk]; if (k == 0) MV_Restore(e); else if (k == 1) ME_Restore(e); else if (k == 2) MF_Restore(e); else MR_Restore(e); lv[nl] = e; id[nl++] = kid[nk]; } break;
    case 4: if (nl) { j = sx_pick("which", 0, nl - 1); int v = sx_int("newid", 1, maxid); for (int q = 0; q < nl; q++) if (q != j) sx_assume(v != id[q]); MEnt_Set_ID(lv[j], v); id[j] = v; } break;
    case 5: MESH_Enable_LocalIDSearch(m); break;
    case 6: MESH_Renumber(m, 0, K); for (j = 0; j < nl; j++) { id[j] = MEnt_ID(lv[j]); sx_assert(id[j] >= 1 && id[j] <= nl, "renumbering gives 1..n"); for (int q = 0; q < j; q++) sx_assert(id[q] != id[j], "renumbering gives distinct IDs"); } break;
    }
    check_ids(sx_int("probe", 1, maxid + 2), t == nops - 1);
  }
  for (int i = 0; i < nk; i++) MEnt_Delete(kp[i], 0);
  MESH_Delete(m); sx_check_leaks(base, "mesh leaks"); sx_cover("end");
}
void h_id_v(void) { ids(0, 3, TH(3, 4), 8); }
void h_id_e(void) { ids(1, 2, TH(3, 4), 8); }
void h_id_f(void) { ids(2, 2, TH(3, 4), 8); }
void h_id_r(void) { ids(3, 2, TH(3, 4), 8); }
void h_id_v0(void) { ids(0, 0, TH(4, 5), 6); }
/* global IDs: arbitrary distinct values, look-up enabled before or after edits */
void h_id_global(void) {
  int base = sx_live_blocks(); MSTK_Init(); m = MESH_New(F1); int k = sx_pick("kind", 0, 3); base_ents(k); nl = nk = 0; int n0 = sx_pick("n", 1, TH(k ? 2 : 3, 3)), g[16]; for (int i = 0; i < n0; i++) add();
  for (int i = 0; i < nl; i++) { g[i] = sx_int("gid", 1, 2147483646); for (int j = 0; j < i; j++) sx_assume(g[j] != g[i]); MEnt_Set_GlobalID(lv[i], g[i]); }
  int early = sx_pick("early", 0, 2), dele = sx_pick("delete", 0, 1), addn = sx_pick("add", 0, 1);
  if (early) MESH_Enable_GlobalIDSearch(m);
  int gone = 0;
  if (dele) { int j = sx_pick("which", 0, nl - 1); MEnt_Delete(lv[j], 0); gone = g[j]; lv[j] = lv[nl - 1]; id[j] = id[nl - 1]; g[j] = g[--nl]; }
  if (addn) { add(); g[nl - 1] = sx_int("gid", 1, 2147483646); for (int j = 0; j < nl - 1; j++) sx_assume(g[j] != g[nl - 1]); MEnt_Set_GlobalID(lv[nl - 1], g[nl - 1]); }
  if (early != 1) MESH_Enable_GlobalIDSearch(m);
  int p = sx_int("probe", 1, 2147483646), hit = -1; for (int j = 0; j < nl; j++) if (g[j] == p) hit = j;
  if (nl) { MEntity_ptr e = fromgid(p); if (e) { sx_assert(hit >= 0 && e == lv[hit], "look-up by global ID returns an entity carrying it"); sx_assert(MEnt_GlobalID(e) == p && MESH_EntityFromGlobalID(m, k, p) == e, "look-up by kind and global ID"); } else sx_assert(hit < 0 || (early == 1 && addn && hit == nl - 1), "look-up by global ID finds the entity"); }
  (void)gone; MESH_Disable_GlobalIDSearch(m); MESH_Delete(m); sx_check_leaks(base, "mesh leaks"); sx_cover("end");
}
