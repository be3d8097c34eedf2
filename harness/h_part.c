/* C31: partitioning by any partition vector */
#include "MSTK_private.h"
#include "common.h"
#include "attset.h"
#include "dist.h"
#include "metis.h"
static const int c2[] = {C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_STRIP3}, c3[] = {C_TET2, C_PYRHEX, C_PRISMTET, C_TET4, C_HEX2};
static DRec D[DMAX];
static void part_(int rep, int ncat, const int *cats, int np, int maxring) {
  CM b; int lb = sx_live_blocks(), part[24], k = cats[sx_pick("mesh", 0, ncat - 1)], i, d, ring = sx_pick("ring", 0, maxring), given = sx_pick("global IDs given", 0, 1);
  cm_build(&b, rep, k, CM_SYMX | TH(0, CM_FDIR)); Mesh_ptr m = b.m, sub[DMAX]; dist_parent(m); int nc = pn[pdim];
  if (given) for (d = 0; d < 4; d++) for (i = 0; i < pn[d]; i++) setgid(d, ent(m, d, i), 1000 - 7 * i);
  for (i = 0; i < nc; i++) { char s[16]; snprintf(s, 16, "part%d", i); part[i] = sx_pick(s, 0, np - 1); }
  MAttrib_ptr A = MAttrib_New(m, "Global2Local", POINTER, MALLTYPE), W = MAttrib_New(m, "w", VECTOR, MVERTEX, 2); (void)A; (void)W;
  sx_assert(MESH_Partition(m, np, part, sub) == 1, "partitioned");
  for (i = 0; i < np; i++) { MESH_BuildPBoundary(m, sub[i]); MESH_AddGhost(m, sub[i], i, ring); }
  for (i = 0; i < np; i++) { cm_valid(sub[i], "partition"); dist_check(sub[i], i, np, part, ring, &D[i]); MAttrib_ptr w = MESH_AttribByName(sub[i], "w"); sx_assert(w && MAttrib_Get_Type(w) == VECTOR && MAttrib_Get_NumComps(w) == 2 && MAttrib_Get_EntDim(w) == MVERTEX, "attributes declared on the partition"); }
  dist_cross(D, np, part, ring, !given);
  if (given) for (i = 0; i < np; i++) for (d = 0; d <= pdim; d++) for (int j = 0; j < pn[d]; j++) if (D[i].gid[d][j]) sx_assert(D[i].gid[d][j] == 1000 - 7 * j, "given global IDs kept");
  for (d = 0; d <= pdim; d++) for (i = 0; i < pn[d]; i++) { MEntity_ptr e = ent(m, d, i); for (int p = 0; p < np; p++) if (D[p].gid[d][i]) sx_assert(glid(d, e) == D[p].gid[d][i] && mpar(d, e) == D[p].own[d][i], "the parent knows owner and global ID"); }
  static Snap S; cm_snap(m, &S); sx_assert(cm_snap_eq(&PS, &S, 1), "the parent is unchanged");
  for (d = 0; d <= pdim; d++) for (i = 0; i < pn[d]; i++) { List_ptr l = NULL; MEnt_Get_AttVal(ent(m, d, i), A, NULL, NULL, &l); if (l) List_Delete(l); }
  for (i = 0; i < np; i++) MESH_Delete(sub[i]); MESH_Delete(m); sx_check_leaks(lb, "nothing left behind"); sx_cover("end");
}
void h_part2_F1(void) { part_(F1, TH(4, 5), c2, 2, 2); }
void h_part2_F4(void) { part_(F4, TH(1, 5), c2, 2, 1); }
void h_part2x3_F1(void) { part_(F1, TH(4, 5), c2, 3, 1); }
void h_part3_F1(void) { part_(F1, TH(5, 5), c3, 2, 2); }
void h_part3_F4(void) { part_(F4, TH(1, 5), c3, 2, 1); }
void h_part3x3_F1(void) { part_(F1, TH(5, 5), c3, 3, 1); }
/* the graph handed to the partitioner and the vector taken from it */
static int gn, gpart[24], gadj[24][24], gparts;
static int metis_(idx_t *nv, idx_t *ncon, idx_t *xadj, idx_t *adj, idx_t *np, idx_t *part) {
  sx_assert(*nv == gn && *ncon == 1 && *np == gparts, "graph of all cells, parts asked for"); sx_assert(xadj[0] == 0, "graph rows");
  for (int i = 0; i < gn; i++) { int seen[24] = {0}; sx_assert(xadj[i + 1] >= xadj[i], "graph rows"); for (int j = xadj[i]; j < xadj[i + 1]; j++) { sx_assert(adj[j] >= 0 && adj[j] < gn && adj[j] != i, "graph neighbours are cells"); seen[adj[j]]++; } for (int j = 0; j < gn; j++) sx_assert(seen[j] == gadj[i][j], "the graph is the adjacency of the cells"); }
  for (int i = 0; i < gn; i++) part[i] = gpart[i]; return METIS_OK; }
int METIS_SetDefaultOptions(idx_t *o) { for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1; return METIS_OK; }
int METIS_PartGraphRecursive(idx_t *nv, idx_t *nc, idx_t *x, idx_t *a, idx_t *w, idx_t *s, idx_t *aw, idx_t *np, real_t *t, real_t *u, idx_t *o, idx_t *cut, idx_t *part) { return metis_(nv, nc, x, a, np, part); }
int METIS_PartGraphKway(idx_t *nv, idx_t *nc, idx_t *x, idx_t *a, idx_t *w, idx_t *s, idx_t *aw, idx_t *np, real_t *t, real_t *u, idx_t *o, idx_t *cut, idx_t *part) { return metis_(nv, nc, x, a, np, part); }
static void graph(int rep, int ncat, const int *cats) {
  CM b; int lb = sx_live_blocks(), k = cats[sx_pick("mesh", 0, ncat - 1)], i, j, hole = sx_pick("hole", 0, 2), *part = NULL; cm_build(&b, rep, k, 0); Mesh_ptr m = b.m; int dim = b.c->dim; gparts = sx_pick("parts", 2, 9);
  if (hole && b.c->nc > 1) { MEntity_ptr c = b.cell[hole == 1 ? 0 : b.c->nc - 2]; if (dim == 2) MF_Delete(c, 0); else MR_Delete(c, 0); }
  gn = NE(dim, m); memset(gadj, 0, sizeof gadj);
  for (i = 0; i < gn; i++) for (j = 0; j < gn; j++) if (i != j) { MEntity_ptr x = ent(m, dim, i), y = ent(m, dim, j); List_ptr a = dim == 2 ? MF_Edges(x, 1, 0) : MR_Faces(x), c = dim == 2 ? MF_Edges(y, 1, 0) : MR_Faces(y); for (int q = 0; q < List_Num_Entries(a); q++) gadj[i][j] += List_Contains(c, List_Entry(a, q)); List_Delete(a); List_Delete(c); }
  for (i = 0; i < gn; i++) gpart[i] = sx_int("part", 0, gparts - 1);
  sx_assert(MESH_PartitionWithMetis(m, gparts, &part) == 1, "partitioned"); for (i = 0; i < gn; i++) sx_assert(part[i] == gpart[i], "the parts the partitioner chose"); free(part);
  MESH_Delete(m); sx_check_leaks(lb, "nothing left behind"); sx_cover("end");
}
static const int g2[] = {C_TRI, C_TRIQUAD, C_QUAD22, C_FAN4, C_PENTTRI, C_TRI6}, g3[] = {C_TET, C_PYRHEX, C_TET2, C_TET4, C_HEX2, C_TET3E};
void h_graph2(void) { graph(F1, 6, g2); }
void h_graph3(void) { graph(F1, 6, g3); }
void h_graph3_F4(void) { graph(F4, 6, g3); }
