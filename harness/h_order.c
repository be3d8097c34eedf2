/* C25: renumbering, graph ordering, sorting helpers. */
#include "common.h"
int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj, int *newmap, int *depth, int *maxwidth);
void mstk_quicksort(int A[], int key[], int i_beg, int i_end);
int compareINT(const void *a, const void *b); int compareGlobalID(const void *a, const void *b); int compareID(const void *a, const void *b); int compareEdgeINT(const void *a, const void *b); int compareEdgeID(const void *a, const void *b);
int compareFaceINT(const void *a, const void *b); int compareFaceID(const void *a, const void *b); int compareVertexCoor(const void *a, const void *b); int compareCoorDouble(const void *a, const void *b); int compareValence(const void *a, const void *b);

/* every simple graph on n nodes, every start node */
static void graphn(int n, int nstart) {
  int nadj[8], adj[64], a[8][8] = {{0}}, map[8], k = 0, depth = -1, width = -1, base;
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i] = sx_pick("edge", 0, 1);
  for (int i = 0; i < n; i++) { nadj[i] = 0; for (int j = 0; j < n; j++) if (a[i][j]) { adj[k++] = j; nadj[i]++; } }
  int start = nstart ? sx_pick("start", 0, nstart - 1) : 0; int *xn = malloc(n * sizeof(int)), *xa = malloc((k + 1) * sizeof(int)), *xm = malloc(n * sizeof(int));
  for (int i = 0; i < n; i++) xn[i] = nadj[i]; for (int i = 0; i < k; i++) xa[i] = adj[i];
  base = sx_live_blocks(); Graph_Renumber_GPS(n, start, xn, xa, xm, &depth, &width); sx_check_leaks(base, "graph renumbering releases what it allocates");
  for (int i = 0; i < n; i++) map[i] = xm[i];
  for (int i = 0; i < n; i++) { sx_assert(map[i] >= 0 && map[i] < n, "new numbers lie in 0..n-1"); for (int j = 0; j < i; j++) sx_assert(map[i] != map[j], "no two nodes get the same number"); }
  for (int i = 0; i < n; i++) sx_assert(xn[i] == nadj[i], "the graph is left alone"); for (int i = 0; i < k; i++) sx_assert(xa[i] == adj[i], "the graph is left alone");
  sx_assert(depth >= 1 && depth <= n && width >= 1 && width <= n, "depth and width of the levels are possible"); sx_cover("end");
}
void h_graph4(void) { graphn(sx_pick("n", 1, 4), 0); }
void h_graph5(void) { graphn(5, TH(1, 5)); }
void h_graph6(void) { graphn(6, 1); }
/* trees and cycles with chords on more nodes: parent of each node, one chord */
void h_graphtree(void) {
  int n = TH(7, 8), nadj[8] = {0}, nb[8][8], adj[64], map[8], k = 0, d, w;
  for (int i = 1; i < n; i++) { int p = sx_pick("parent", TH(i > 3 ? i - 3 : 0, i > 4 ? i - 4 : 0), i - 1); nb[i][nadj[i]++] = p; nb[p][nadj[p]++] = i; }
  for (int i = 0; i < n; i++) for (int j = 0; j < nadj[i]; j++) adj[k++] = nb[i][j];
  Graph_Renumber_GPS(n, 0, nadj, adj, map, &d, &w);
  for (int i = 0; i < n; i++) { sx_assert(map[i] >= 0 && map[i] < n, "new numbers lie in 0..n-1"); for (int j = 0; j < i; j++) sx_assert(map[i] != map[j], "no two nodes get the same number"); }
  sx_cover("end");
}
void h_qsort(void) {
  int n = sx_pick("n", 0, TH(5, 6)), A[8], B[8], b = sx_pick("beg", 0, 1), e; for (int i = 0; i < n + 2; i++) A[i] = B[i] = sx_int("a", -2147483647 - 1, 2147483647); e = b + n - 1;
  mstk_quicksort(A, NULL, b, e);
  for (int i = 0; i < n + 2; i++) { if (i < b || i > e) { sx_assert(A[i] == B[i], "nothing outside the range moves"); continue; } if (i > b) sx_assert(A[i - 1] <= A[i], "sorted ascending");
    int ca = 0, cb = 0; for (int j = b; j <= e; j++) { ca += A[j] == B[i]; cb += B[j] == B[i]; } sx_assert(ca == cb, "sorting keeps every value"); }
  sx_cover("end");
}
void h_qsortk(void) {
  int n = TH(5, 6), A[8], K[8], seen = 0, rot = sx_pick("rot", 0, n - 1), rev = sx_pick("rev", 0, 1), K0[8]; for (int i = 0; i < n; i++) { int j = (i + rot) % n; A[i] = rev ? n - 1 - j : j; K[i] = K0[i] = sx_int("k", -2147483647 - 1, 2147483647); }
  mstk_quicksort(A, K, 0, n - 1);
  for (int i = 0; i < n; i++) { sx_assert(A[i] >= 0 && A[i] < n && !(seen >> A[i] & 1), "the result is a permutation"); seen |= 1 << A[i]; if (i) sx_assert(K[A[i - 1]] <= K[A[i]], "sorted by key"); sx_assert(K[i] == K0[i], "keys are left alone"); }
  sx_cover("end");
}
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int lex(int *a, int *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return a[i] > b[i] ? 1 : -1; return 0; }
#define GMAX 1073741823
static void sort_(int *v, int n) { for (int i = 1; i < n; i++) for (int j = i; j > 0; j--) { int lo = v[j - 1] < v[j] ? v[j - 1] : v[j], hi = v[j - 1] < v[j] ? v[j] : v[j - 1]; v[j - 1] = lo; v[j] = hi; } }
void h_cmp(void) {
  int a = sx_int("a", 0, GMAX), b = sx_int("b", 0, GMAX); sx_assert(sg(compareINT(&a, &b)) == (a > b) - (a < b), "integers compare by value");
  int p[2] = {a, b}, q[2] = {sx_int("c", 0, GMAX), sx_int("d", 0, GMAX)}, P[2], Q[2]; P[0] = a > b ? a : b; P[1] = a > b ? b : a; Q[0] = q[0] > q[1] ? q[0] : q[1]; Q[1] = q[0] > q[1] ? q[1] : q[0];
  sx_assert(sg(compareEdgeINT(p, q)) == lex(P, Q, 2), "edges compare by larger, then smaller end point ID");
  Mesh_ptr m = MESH_New(F1); MVertex_ptr v[4]; MEdge_ptr e[2]; for (int i = 0; i < 4; i++) { v[i] = MV_New(m); MV_Set_GlobalID(v[i], i < 2 ? p[i] : q[i - 2]); }
  for (int i = 0; i < 2; i++) { e[i] = ME_New(m); ME_Set_Vertex(e[i], 0, v[2 * i]); ME_Set_Vertex(e[i], 1, v[2 * i + 1]); }
  sx_assert(sg(compareEdgeID(&e[0], &e[1])) == lex(P, Q, 2), "edges compare by larger, then smaller end point ID");
  sx_assert(sg(compareGlobalID(&v[0], &v[1])) == (a > b) - (a < b), "entities compare by global ID"); a &= 0xfffff; b &= 0xfffff; MV_Set_ID(v[0], a + 1); MV_Set_ID(v[1], b + 1); sx_assert(sg(compareID(&v[0], &v[1])) == (a > b) - (a < b), "entities compare by ID");
  double x[2][3]; int I[2][3]; for (int i = 0; i < 2; i++) { for (int k = 0; k < 3; k++) { x[i][k] = sx_dint("x", -1000, 1000); I[i][k] = (int)x[i][k]; } MV_Set_Coords(v[i], x[i]); }
  sx_assert(sg(compareCoorDouble(x[0], x[1])) == lex(I[0], I[1], 3), "points compare lexicographically"); sx_assert(sg(compareVertexCoor(&v[0], &v[1])) == lex(I[0], I[1], 3), "vertices compare by position");
  sx_cover("end");
}
void h_cmpface(void) {
  int n[2], g[2][6], s[2][6]; Mesh_ptr m = MESH_New(F1); MFace_ptr f[2]; n[0] = 3; n[1] = sx_pick("n1", 3, 4); if (TH(0, 1) && n[1] == 4) n[0] = sx_pick("n0", 3, 4);
  for (int i = 0; i < 2; i++) { MVertex_ptr v[4]; g[i][0] = n[i]; for (int k = 0; k < n[i]; k++) { g[i][k + 1] = s[i][k + 1] = sx_int("g", 1, GMAX); v[k] = MV_New(m); MV_Set_GlobalID(v[k], g[i][k + 1]); } s[i][0] = n[i]; sort_(s[i] + 1, n[i]); f[i] = MF_New(m); MF_Set_Vertices(f[i], n[i], v); }
  int want = n[0] != n[1] ? sg(n[0] - n[1]) : lex(s[0] + 1, s[1] + 1, n[0]);
  if (sx_pick("kind", 0, 1)) sx_assert(sg(compareFaceID(&f[0], &f[1])) == want, "faces compare by size, then by ascending vertex IDs"); else sx_assert(sg(compareFaceINT(g[0], g[1])) == want, "faces compare by size, then by ascending vertex IDs");
  sx_cover("end");
}
/* mesh renumbering */
static int nents(Mesh_ptr m, int d) { return d == 0 ? MESH_Num_Vertices(m) : d == 1 ? MESH_Num_Edges(m) : d == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static MEntity_ptr entat(Mesh_ptr m, int d, int i) { return d == 0 ? (MEntity_ptr)MESH_Vertex(m, i) : d == 1 ? (MEntity_ptr)MESH_Edge(m, i) : d == 2 ? (MEntity_ptr)MESH_Face(m, i) : (MEntity_ptr)MESH_Region(m, i); }
static void setid(MEntity_ptr e, int d, int v) { if (d == 0) MV_Set_ID(e, v); else if (d == 1) ME_Set_ID(e, v); else if (d == 2) MF_Set_ID(e, v); else MR_Set_ID(e, v); }
static void seqids(Mesh_ptr m) { for (int d = 0; d < 4; d++) for (int i = 0; i < nents(m, d); i++) setid(entat(m, d, i), d, i + 1); }
static void renum(int rep, int ncat, const int *cats, int type) {
  CM b; int id[4][CMAX * 2], mt = sx_pick("type", 0, 4), c = cats[sx_pick("mesh", 0, ncat - 1)], gaps = sx_pick("ids", 0, 2), base; if (mt == 4) mt = MALLTYPE;
  cm_build(&b, rep, c, TH(0, CM_ROT)); Mesh_ptr m = b.m; int iso = 0, extra = sx_pick("extra", 0, TH(2, 3));
  if (extra == 1) { iso = 1; MV_New(m); }                       /* a vertex no cell uses */
  if (extra == 2) cm_fill(&b, m, b.c->dim == 2 ? C_TRI : C_TET, 0);   /* a second component */
  if (extra == 3) { MEntity_ptr e = b.cell[0]; if (b.c->dim == 2) MF_Delete(e, 0); else MR_Delete(e, 0); }
  (void)iso;
  seqids(m); cm_snap(m, &snapA);
  for (int d = 0; d < 4; d++) for (int i = 0; i < nents(m, d); i++) { int n = nents(m, d), v = gaps == 0 ? i + 1 : gaps == 1 || i != 1 || (mt == MALLTYPE && d) ? 3 * (n - i) + 2 : sx_int("id", 1, 1000);
      if (gaps) setid(entat(m, d, i), d, v); id[d][i] = v; }
  MAttrib_ptr a = MAttrib_New(m, "user", INT, MALLTYPE); MEnt_Set_AttVal(MESH_Vertex(m, 0), a, 7, 0, NULL); base = MESH_Num_Attribs(m);
  int lb = sx_live_blocks();
  MESH_Renumber(m, type, (MType)mt);
  sx_check_leaks(lb, "renumbering leaves nothing behind"); sx_assert(MESH_Num_Attribs(m) == base, "renumbering leaves no attribute behind");
  for (int d = 0; d < 4; d++) for (int i = 0; i < nents(m, d); i++) { int n = nents(m, d), v = MEnt_ID(entat(m, d, i));
      if (mt != MALLTYPE && mt != d) { sx_assert(v == id[d][i], "other kinds of entity keep their IDs"); continue; }
      sx_assert(v >= 1 && v <= n, "IDs lie in 1..n"); if (!type) sx_assert(v == i + 1, "sequential renumbering follows the order of the mesh");
      for (int j = 0; j < i; j++) sx_assert(v != MEnt_ID(entat(m, d, j)), "no two entities get the same ID");
      sx_assert((d == 0 ? (MEntity_ptr)MESH_VertexFromID(m, v) : d == 1 ? (MEntity_ptr)MESH_EdgeFromID(m, v) : d == 2 ? (MEntity_ptr)MESH_FaceFromID(m, v) : (MEntity_ptr)MESH_RegionFromID(m, v)) == entat(m, d, i), "look-up by the new ID finds the entity"); }
  int ival = 0; double dv; void *pv; MEnt_Get_AttVal(MESH_Vertex(m, 0), a, &ival, &dv, &pv); sx_assert(ival == 7, "attribute values stay");
  MVertex_ptr nv = MV_New(m); if (mt == MALLTYPE || mt == 0) sx_assert(MV_ID(nv) == MESH_Num_Vertices(m), "the next vertex gets the next ID");
  for (int i = 0; i + 1 < MESH_Num_Vertices(m); i++) sx_assert(MV_ID(MESH_Vertex(m, i)) != MV_ID(nv), "a new vertex gets a fresh ID");
  MV_Delete(nv, 0); seqids(m); cm_snap(m, &snapB); sx_assert(cm_snap_eq(&snapA, &snapB, 1), "renumbering changes nothing but IDs");
  sx_cover("end");
}
static const int c2[] = {C_TRI, C_FAN4, C_TRIQUAD, C_QUAD22, C_STRIP3, C_TRI6, C_PENTTRI}, c3[] = {C_TET, C_TET3E, C_PYRHEX, C_HEX2, C_TET2, C_PRISMTET, C_TET6};
void h_seq2(void) { renum(sx_pick("F4", 0, 1) ? F4 : F1, TH(5, 7), c2, 0); }
void h_seq3(void) { renum(sx_pick("F4", 0, 1) ? F4 : F1, TH(5, 7), c3, 0); }
void h_rcm2(void) { renum(F1, TH(6, 7), c2, 1); }
void h_rcm3(void) { renum(F1, TH(6, 7), c3, 1); }
void h_rcm2_F4(void) { renum(F4, TH(5, 7), c2, 1); }
void h_rcm3_F4(void) { renum(F4, TH(5, 7), c3, 1); }
/* grid large enough for the numbering to be improved and for the adjacency array to grow */
void h_rcmgrid(void) {
  int k = sx_pick("kind", 0, TH(1, 2)), mt = sx_pick("type", 0, 4); if (mt == 4) mt = MALLTYPE; Mesh_ptr m = k == 0 ? MESH_Gen_Structured(0, 0, 0, 1, 2, 0, 2, 4, 0) : MESH_Gen_Structured(0, 0, 0, 1, 1, 1, k, 2, k + 1);
  MESH_Renumber(m, 1, (MType)mt);
  for (int d = 0; d < 4; d++) for (int i = 0; i < nents(m, d); i++) { int n = nents(m, d), v = MEnt_ID(entat(m, d, i)); if (mt != MALLTYPE && mt != d) { sx_assert(v == i + 1, "other kinds of entity keep their IDs"); continue; } sx_assert(v >= 1 && v <= n, "IDs lie in 1..n");
      for (int j = 0; j < i; j++) sx_assert(v != MEnt_ID(entat(m, d, j)), "no two entities get the same ID"); }
  sx_cover("end");
}
