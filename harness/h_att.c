#include "common.h"
void MEnt_Rem_AllAttVals(MEntity_ptr);
#define NA 5
#define NE 4
static Mesh_ptr m; static MEntity_ptr e[NE]; static int edim[NE] = {0, 0, 1, 2}; static MAttrib_ptr at[NA]; static int live[NA]; static CM b;
static const int adim[NA] = {MVERTEX, MALLTYPE, MVERTEX, MALLTYPE, MEDGE}, atype[NA] = {INT, DOUBLE, VECTOR, TENSOR, POINTER}, nc[NA] = {1, 1, 3, 2, 1};
static const char *nm[NA] = {"att", "at", "attr", "b", "pointer_attribute"};
static struct { int set, iv; double dv[3]; void *pv; } V[NA][NE]; static int dummy[4];
static int ok(int a, int i) { return e[i] && (adim[a] == MALLTYPE || adim[a] == edim[i]); }
static void newatt(int a) { at[a] = nc[a] > 1 ? MAttrib_New(m, nm[a], atype[a], adim[a], nc[a]) : MAttrib_New(m, nm[a], atype[a], adim[a]); live[a] = 1; for (int i = 0; i < NE; i++) V[a][i].set = 0; }
static void mk(void) { cm_build(&b, F1, C_TRI2, 0); m = b.m; e[0] = b.v[0]; e[1] = b.v[3]; e[2] = MESH_Edge(m, 1); e[3] = b.cell[0]; memset(live, 0, sizeof live); }
static void check_all(void) {
  int n = 0;
  for (int a = 0; a < NA; a++) {
    MAttrib_ptr f = MESH_AttribByName(m, nm[a]); sx_assert(live[a] ? f == at[a] : f == NULL, "attributes are found by name exactly while they exist");
    if (!live[a]) continue; n++;
    char s[256]; MAttrib_Get_Name(at[a], s); sx_assert(!strcmp(s, nm[a]) && (int)MAttrib_Get_Type(at[a]) == atype[a] && (int)MAttrib_Get_EntDim(at[a]) == adim[a] && MAttrib_Get_NumComps(at[a]) == nc[a], "attribute keeps its declared name, type, entity type and component count");
    for (int i = 0; i < NE; i++) { if (!ok(a, i)) continue;
      int iv = 77; double dv = 77; void *pv = &dummy[3]; int got = MEnt_Get_AttVal(e[i], at[a], &iv, &dv, &pv);
      sx_assert(got == (V[a][i].set != 0), "a value is reported exactly where one was set");
      if (!V[a][i].set) { sx_assert(iv == 0 && dv == 0 && pv == NULL, "absent values read as zero"); continue; }
      if (atype[a] == INT) sx_assert(iv == V[a][i].iv && MEnt_Get_IntAttVal(e[i], at[a]) == V[a][i].iv, "integer value is as last set");
      else if (atype[a] == DOUBLE) sx_assert(dv == V[a][i].dv[0] && MEnt_Get_DblAttVal(e[i], at[a]) == V[a][i].dv[0], "real value is as last set");
      else if (atype[a] == POINTER) sx_assert(pv == V[a][i].pv && MEnt_Get_PtrAttVal(e[i], at[a]) == pv, "pointer value is as last set");
      else if (V[a][i].set == 2) sx_assert(pv == NULL, "cleared vector or tensor reads as null");
      else { double *x = atype[a] == VECTOR ? MEnt_Get_VecAttVal(e[i], at[a]) : MEnt_Get_TnsrAttVal(e[i], at[a]); sx_assert((void *)x == pv && x != NULL, "vector value"); for (int k = 0; k < nc[a]; k++) sx_assert(x[k] == V[a][i].dv[k], "vector or tensor components are as last set"); } }
  }
  sx_assert(MESH_Num_Attribs(m) == n, "number of attributes"); int idx = 0, c = 0; MAttrib_ptr x; while ((x = MESH_Next_Attrib(m, &idx))) { int hit = 0; for (int a = 0; a < NA; a++) hit += live[a] && at[a] == x; sx_assert(hit == 1, "iteration lists live attributes"); sx_assert(MESH_Attrib(m, c) == x, "attribute by position"); c++; } sx_assert(c == n, "iteration lists every attribute");
}
static void setval(int a, int i) {
  if (!ok(a, i)) return; V[a][i].set = 1;
  switch (atype[a]) {
  case INT: V[a][i].iv = sx_int("ival", -2147483647, 2147483647); if (i) MEnt_Set_IntAttVal(e[i], at[a], V[a][i].iv); else MEnt_Set_AttVal(e[i], at[a], V[a][i].iv, 0.0, NULL); break;
  case DOUBLE: V[a][i].dv[0] = sx_double("dval"); if (i) MEnt_Set_DblAttVal(e[i], at[a], V[a][i].dv[0]); else MEnt_Set_AttVal(e[i], at[a], 0, V[a][i].dv[0], NULL); break;
  case POINTER: V[a][i].pv = &dummy[i % 3]; MEnt_Set_PtrAttVal(e[i], at[a], V[a][i].pv); break;
  default: { double tmp[3]; for (int k = 0; k < 3; k++) tmp[k] = V[a][i].dv[k] = sx_double("vec"); if (atype[a] == VECTOR) MEnt_Set_VecAttVal(e[i], at[a], tmp); else MEnt_Set_TnsrAttVal(e[i], at[a], tmp); tmp[0] = tmp[1] = tmp[2] = 0; } }
}
static void clr(int a, int i) { if (V[a][i].set) { V[a][i].set = 2; V[a][i].iv = 0; V[a][i].dv[0] = V[a][i].dv[1] = V[a][i].dv[2] = 0; V[a][i].pv = NULL; } }
static void hist(int nops, int pre) {
  int base = sx_live_blocks(); mk(); for (int a = 0; a < NA; a++) newatt(a);
  check_all();
  if (pre) for (int a = 0; a < NA; a++) for (int i = 0; i < NE; i++) setval(a, i);
  for (int t = 0; t < nops; t++) {
    int op = sx_pick("op", 0, 6), a = pre ? sx_pick("att", 0, NA - 1) : 2 * sx_pick("att", 0, 1), i = op < 3 ? sx_pick("entity", 0, pre ? NE - 1 : 1) : 0;
    if (!live[a] && op != 6) continue; if (op < 3 && !ok(a, i)) continue;
    switch (op) {
    case 0: setval(a, i); break;
    case 1: MEnt_Rem_AttVal(e[i], at[a]); V[a][i].set = 0; break;
    case 2: MEnt_Clear_AttVal(e[i], at[a]); clr(a, i); break;
    case 3: MAttrib_Clear(at[a]); for (int j = 0; j < NE; j++) clr(a, j); break;
    case 4: MAttrib_Delete(at[a]); live[a] = 0; break;
    case 5: MEnt_Rem_AllAttVals(e[a % NE]); for (int q = 0; q < NA; q++) V[q][a % NE].set = 0; break;
    case 6: if (!live[a]) newatt(a); break;
    }
    check_all();
  }
  MESH_Delete(m); sx_check_leaks(base, "attributes leak"); sx_cover("end");
}
void h_att_hist0(void) { hist(TH(3, 4), 0); }
void h_att_hist1(void) { hist(TH(2, 3), 1); }
/* deleting entities that carry values, with and without keeping them, leaves the others' values alone */
void h_att_ent(void) {
  int base = sx_live_blocks(); mk(); for (int a = 0; a < NA; a++) newatt(a); for (int a = 0; a < NA; a++) for (int i = 0; i < NE; i++) setval(a, i);
  int k = sx_pick("which", 1, 3), keep = sx_pick("keep", 0, 1); MEntity_ptr x;
  if (k == 1) { MF_Delete(b.cell[1], 0); for (int j = MESH_Num_Edges(m) - 1; j >= 0; j--) { MEdge_ptr d = MESH_Edge(m, j); if (ME_UsesEntity(d, e[1], MVERTEX)) ME_Delete(d, 0); } x = e[1]; MV_Delete(x, keep); }
  else if (k == 2) { for (int j = MESH_Num_Faces(m) - 1; j >= 0; j--) if (MF_UsesEntity(MESH_Face(m, j), e[2], MEDGE)) { if (MESH_Face(m, j) == e[3]) e[3] = NULL; MF_Delete(MESH_Face(m, j), 0); } x = e[2]; ME_Delete(x, keep); }
  else { x = e[3]; MF_Delete(x, keep); }
  MEntity_ptr sv = e[k]; if (!keep) e[k] = NULL; check_all(); if (keep) { e[k] = sv; if (k == 1) MV_Restore(x); else if (k == 2) ME_Restore(x); else MF_Restore(x); check_all(); }
  MESH_Delete(m); sx_check_leaks(base, "attributes leak"); sx_cover("end");
}
