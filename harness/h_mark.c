/* C37: marks of entities; every entry is built with -DMSTK_USE_MARKERS */
#include "MSTK_private.h"
#include "common.h"
#define NM 4
#define NENT 4
static Mesh_ptr m; static MEntity_ptr e[NENT];
static int full(int held, int *ids) { int k, n = 0, seen = 0; for (k = held; k < 32; k++) { int q = MSTK_GetMarker(); sx_assert(q > 0, "a marker is obtained while fewer than 32 are held"); for (int i = 0; i < n; i++) sx_assert(ids[i] != q, "live markers are distinct"); ids[n++] = q; (void)seen; } return n; }
static void mk(void) { MSTK_Init(); m = MESH_New(F1); double x[3] = {0, 0, 0}; for (int i = 0; i < NENT; i++) if (i < 2) { e[i] = (MEntity_ptr)MV_New(m); MV_Set_Coords((MVertex_ptr)e[i], x); x[0]++; } else if (i == 2) { e[i] = (MEntity_ptr)ME_New(m); ME_Set_Vertex((MEdge_ptr)e[i], 0, (MVertex_ptr)e[0]); ME_Set_Vertex((MEdge_ptr)e[i], 1, (MVertex_ptr)e[1]); } else e[i] = (MEntity_ptr)MF_New(m); }
/* any history of obtaining, marking, unmarking and releasing */
void h_mark_hist(void) {
  int base = sx_live_blocks(), id[NM] = {0}, on[NM][NENT], order[NM], t, i, k, n; memset(on, 0, sizeof on); mk(); (void)order;
  int pre = sx_pick("held", 0, 3); for (k = 0; k < pre; k++) { id[k] = MSTK_GetMarker(); for (i = 0; i < NENT; i++) if ((i + k) % 2) { MEnt_Mark(e[i], id[k]); on[k][i] = 1; } }
  for (t = 0; t < TH(2, 3); t++) {
    int op = sx_pick("op", 0, 3); k = sx_pick("marker", 0, NM - 1); if (!id[k] && op) continue;
    if (op == 0) { if (id[k]) { for (i = 0; i < NENT; i++) { MEnt_Unmark(e[i], id[k]); on[k][i] = 0; } MSTK_FreeMarker(id[k]); id[k] = 0; } else { id[k] = MSTK_GetMarker(); sx_assert(id[k] > 0, "marker obtained"); } }
    else if (op == 1) { i = sx_pick("entity", 0, NENT - 1); MEnt_Mark(e[i], id[k]); on[k][i] = 1; }
    else if (op == 2) { i = sx_pick("entity", 0, NENT - 1); MEnt_Unmark(e[i], id[k]); on[k][i] = 0; }
    else { int w = sx_pick("subset", 0, 3), hole = sx_pick("hole", 0, 1), un = sx_pick("un", 0, 1); List_ptr l = List_New(4); MSet_ptr s = MSet_New(m, "s", MALLTYPE); for (i = 0; i < 3; i++) { List_Add(l, e[i + 1]); MSet_Add(s, e[i + 1]); }
      if (hole) { List_Rem(l, e[2]); MSet_Rem(s, e[2]); } if (w & 1) { if (un) List_Unmark(l, id[k]); else List_Mark(l, id[k]); } else { if (un) MSet_Unmark(s, id[k]); else MSet_Mark(s, id[k]); } for (i = 1; i < 4; i++) if (!(hole && i == 2)) on[k][i] = !un; List_Delete(l); MSet_Delete(s); }
    for (k = n = 0; k < NM; k++) if (id[k]) { n++; for (i = 0; i < NENT; i++) sx_assert((MEnt_IsMarked(e[i], id[k]) != 0) == on[k][i], "an entity is marked exactly with the markers it was marked with"); for (i = 0; i < k; i++) sx_assert(id[i] != id[k], "live markers are distinct"); }
  }
  for (k = n = 0; k < NM; k++) n += id[k] != 0;
  int ids[32], q = full(n, ids); for (i = 0; i < q; i++) { for (k = 0; k < NM; k++) sx_assert(!id[k] || id[k] != ids[i], "a new marker is not one in use"); for (k = 0; k < NENT; k++) sx_assert(!MEnt_IsMarked(e[k], ids[i]), "no entity carries a new marker"); }
  for (i = 0; i < q; i++) MSTK_FreeMarker(ids[i]);
  for (k = 0; k < NM; k++) if (id[k]) MSTK_FreeMarker(id[k]);
  MESH_Delete(m); sx_check_leaks(base, "memory left behind"); sx_cover("end");
}
/* all 32 markers, any pattern of six of them released in either order, obtained again */
void h_mark_pool(void) {
  int base = sx_live_blocks(), ids[32], n, i, k, freed = 0; mk(); n = full(0, ids); for (i = 0; i < n; i++) { MEnt_Mark(e[0], ids[i]); if (i % 2) MEnt_Mark(e[1], ids[i]); }
  static const int w[6] = {0, 1, 15, 29, 30, 31}; int back = sx_pick("order", 0, 1), gone[32] = {0};
  for (i = 0; i < 6; i++) { k = w[back ? 5 - i : i]; if (sx_pick("free", 0, 1)) { MEnt_Unmark(e[0], ids[k]); MEnt_Unmark(e[1], ids[k]); MSTK_FreeMarker(ids[k]); gone[k] = 1; freed++; } }
  for (i = 0; i < n; i++) if (!gone[i]) { sx_assert(MEnt_IsMarked(e[0], ids[i]), "marks of other markers survive"); sx_assert((MEnt_IsMarked(e[1], ids[i]) != 0) == (i % 2), "marks of other markers survive"); }
  int again[32], q = full(32 - freed, again); sx_assert(q == freed, "as many markers as were released");
  for (i = 0; i < q; i++) { sx_assert(!MEnt_IsMarked(e[0], again[i]) && !MEnt_IsMarked(e[1], again[i]), "a marker obtained again marks nothing"); for (k = 0; k < n; k++) sx_assert(gone[k] || ids[k] != again[i], "a new marker is not one in use"); }
  for (i = 0; i < q; i++) MSTK_FreeMarker(again[i]); for (i = 0; i < n; i++) if (!gone[i]) { MEnt_Unmark(e[0], ids[i]); MEnt_Unmark(e[1], ids[i]); MSTK_FreeMarker(ids[i]); }
  n = full(0, ids); for (i = 0; i < n; i++) MSTK_FreeMarker(ids[i]);
  MESH_Delete(m); sx_check_leaks(base, "memory left behind"); sx_cover("end");
}
/* library operations that use markers leave the caller's marks alone and none of their own behind */
static MEntity_ptr nx(Mesh_ptr g, int d, int *i) { return d == 0 ? (MEntity_ptr)MESH_Next_Vertex(g, i) : d == 1 ? (MEntity_ptr)MESH_Next_Edge(g, i) : d == 2 ? (MEntity_ptr)MESH_Next_Face(g, i) : (MEntity_ptr)MESH_Next_Region(g, i); }
static void *mp[200]; static int mo[200][2], nmp;
static void lib(int rep, int ncat, const int *cats) {
  CM b; int base = sx_live_blocks(), um[2], d, i, k; cm_build(&b, rep, cats[sx_pick("mesh", 0, ncat - 1)], CM_RECORD); MEntity_ptr x; int D = b.c->dim; m = b.m; nmp = 0; int lone = sx_pick("lone edge", 0, 1); if (lone) { MEdge_ptr le = ME_New(m); ME_Set_Vertex(le, 0, b.v[0]); MVertex_ptr lv = MV_New(m); double xx[3] = {9, 9, 9}; MV_Set_Coords(lv, xx); ME_Set_Vertex(le, 1, lv); if (D == 3) { MVertex_ptr lw = MV_New(m), tr[3]; xx[1] = 5; MV_Set_Coords(lw, xx); tr[0] = b.v[0]; tr[1] = lv; tr[2] = lw; MFace_ptr lf = MF_New(m); MF_Set_Vertices(lf, 3, tr); } }
  um[0] = MSTK_GetMarker(); um[1] = MSTK_GetMarker(); int pat = sx_pick("pattern", 0, TH(3, 7)); int drop = sx_pick("drop", 0, 1);
  for (d = 0; d <= D; d++) for (i = 0, k = 0; (x = nx(m, d, &i)); k++) { mp[nmp] = x; mo[nmp][0] = (pat >> (k % 3)) & 1; mo[nmp][1] = (k + d) % 2 && !drop; if (mo[nmp][0]) MEnt_Mark(x, um[0]); if (mo[nmp][1]) MEnt_Mark(x, um[1]); nmp++; }
  if (drop) { MSTK_FreeMarker(um[0]); um[0] = um[1]; for (i = 0; i < nmp; i++) { MEnt_Unmark(mp[i], 1); MEnt_Unmark(mp[i], 2); mo[i][0] = 0; if (i % 3 == 0) { MEnt_Mark(mp[i], um[1]); mo[i][0] = mo[i][1] = 1; } } }
  for (int t = 0; t < TH(1, 2); t++) {
    int op = sx_pick("op", 0, 7);
    if (op < 3) { MSet_ptr s[2], r; s[0] = MSet_New(m, "a", MVERTEX); s[1] = MSet_New(m, "b", MVERTEX); for (i = k = 0; (x = nx(m, 0, &i)) && k < 4; k++) for (int w = 0; w < 2; w++) if (k < 3 ? sx_pick("in", 0, 1) : 1) MSet_Add(s[w], x);
      r = op == 0 ? MSets_Union(s[0], s[1]) : op == 1 ? MSets_Intersect(s[0], s[1]) : MSets_Subtract(s[0], s[1]);
      for (i = 0; (x = nx(m, 0, &i)); ) { int A = MSet_Contains(s[0], x), B = MSet_Contains(s[1], x), W = op == 0 ? A || B : op == 1 ? A && B : A && !B, c = 0; for (k = 0; r && k < MSet_Num_Entries(r); k++) c += MSet_Entry(r, k) == x; sx_assert(c == W, "sets combine correctly whatever the caller has marked"); }
      if (r) MSet_Delete(r); MSet_Delete(s[0]); MSet_Delete(s[1]); }
    else if (op == 3) { for (d = 0; d <= D; d++) { MESH_Renumber(m, sx_pick("how", 0, 1), (MType)d); int seen[64] = {0}, n = 0; for (i = 0; (x = nx(m, d, &i)); n++) { int q = MEnt_ID(x); sx_assert(q >= 1 && q < 64 && !seen[q], "IDs are distinct"); seen[q] = 1; } for (k = 1; k <= n; k++) sx_assert(seen[k], "IDs are contiguous"); if (t || d == 1) break; } }
    else if (op == 4) { int g = sx_pick("geometry", 0, 1); sx_assert(MESH_BuildClassfn(m, g) == 1, "classified"); }
    else if (op == 5) { List_ptr l = List_New(2); for (i = k = 0; (x = nx(m, D, &i)); k++) { List_Add(l, x); } int w = MSTK_GetMarker(); List_Mark(l, w); for (i = 0; (x = nx(m, D, &i));) sx_assert(MEnt_IsMarked(x, w), "marked through a list"); List_Unmark(l, w); List_Delete(l); MSTK_FreeMarker(w); }
    else if (op == 7) { int part[24], np = 2, ring = sx_pick("ring", 0, TH(1, 2)), nc = D == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); Mesh_ptr sub[2]; MAttrib_ptr A = MAttrib_New(m, "Global2Local", POINTER, MALLTYPE); for (i = 0; i < nc; i++) part[i] = i < TH(2, 4) ? sx_pick("part", 0, 1) : 1;
      sx_assert(MESH_Partition(m, np, part, sub) == 1, "partitioned"); for (i = 0; i < np; i++) { MESH_BuildPBoundary(m, sub[i]); MESH_AddGhost(m, sub[i], i, ring); }
      for (d = 0; d <= D; d++) for (i = 0; (x = nx(m, d, &i));) { List_ptr l = NULL; MEnt_Get_AttVal(x, A, NULL, NULL, &l); if (l) List_Delete(l); } MAttrib_Delete(A);
      for (i = 0; i < np; i++) { for (d = 0; d <= D; d++) for (k = 0; (x = nx(sub[i], d, &k));) for (int w = 1; w <= 8; w++) sx_assert(!MEnt_IsMarked(x, w), "new partitions carry no marks"); MESH_Delete(sub[i]); } }
    else { int o[2] = {t % 2, D == 3 && !lone}; if (sx_pick("by coordinate", 0, 1)) o[0] = !o[0]; sx_assert(MESH_ExportToGMV(m, "mk.gmv", 0, NULL, o, NULL) == 1, "exported"); }
    for (i = 0; i < nmp; i++) for (k = 0; k < 2; k++) sx_assert((MEnt_IsMarked(mp[i], um[k]) != 0) == mo[i][um[0] == um[1] ? 0 : k], "the caller's marks are untouched by library operations");
    int ids[32], q = full(um[0] == um[1] ? 1 : 2, ids); for (i = 0; i < q; i++) for (d = 0; d <= D; d++) for (k = 0; (x = nx(m, d, &k));) sx_assert(!MEnt_IsMarked(x, ids[i]), "library operations leave no marks behind");
    for (i = 0; i < q; i++) MSTK_FreeMarker(ids[i]);
  }
  MSTK_FreeMarker(um[1]); if (um[0] != um[1]) MSTK_FreeMarker(um[0]); MESH_Delete(m); sx_check_leaks(base, "memory left behind"); sx_cover("end");
}
static const int c2[] = {C_QUAD22, C_TRIQUAD, C_FAN4, C_PENTTRI}, c3[] = {C_TET2, C_PYRHEX, C_HEX2, C_TET4};
void h_mark_lib2(void) { lib(F1, TH(1, 4), c2); }
void h_mark_lib3(void) { lib(F1, TH(1, 4), c3); }
void h_mark_lib3_F4(void) { lib(F4, TH(1, 4), c3); }
