#include "MSTK.h"
#include "symx.h"
void h_smoke(void) {
  int base = sx_live_blocks();
  MSTK_Init();
  Mesh_ptr m = MESH_New(F1);
  MVertex_ptr v[3]; double x[3][3];
  for (int i = 0; i < 3; i++) { v[i] = MV_New(m); for (int k = 0; k < 3; k++) x[i][k] = sx_double("x"); MV_Set_Coords(v[i], x[i]); MV_Set_GEntID(v[i], sx_int("gid", 0, 1000)); }
  MFace_ptr f = MF_New(m); MF_Set_Vertices(f, 3, v);
  double y[3]; MV_Coords(v[1], y); sx_assert(y[0] == x[1][0], "coords");
  sx_assert(MESH_Num_Edges(m) == 3, "edges");
  int k = sx_int("k", 0, 2);
  List_ptr fv = MF_Vertices(f, 1, v[0]); sx_assert(List_Entry(fv, k) == v[k], "fv"); List_Delete(fv);
  sx_log("n", MESH_Num_Vertices(m));
  MESH_Delete(m);
  sx_cover("end");
  sx_check_leaks(base, "leak");
}
