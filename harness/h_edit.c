/* C09: low-level edits of the boundary of an edge, a face and a region */
#include "common.h"
static Mesh_ptr m; static MVertex_ptr V[48]; static MEdge_ptr PE[48]; static int pd[48];
static void verts(int n) { for (int i = 0; i < n; i++) { double x[3] = {i, i * i, 0}; V[i] = MV_New(m); MV_Set_Coords(V[i], x); } }
static MEdge_ptr mk(int a, int c, int d) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, V[d ? a : c]); ME_Set_Vertex(e, 1, V[d ? c : a]); return e; }
static int has(List_ptr l, void *p) { int r = l ? List_Contains(l, p) : 0; return r; }
static int efhas(MEdge_ptr e, MFace_ptr f) { List_ptr l = ME_Faces(e); int r = has(l, f); if (l) List_Delete(l); return r; }
static int erhas(MEdge_ptr e, MRegion_ptr r) { List_ptr l = ME_Regions(e); int q = has(l, r); if (l) List_Delete(l); return q; }
static int vehas(MVertex_ptr v, MEdge_ptr e) { List_ptr l = MV_Edges(v); int q = has(l, e); if (l) List_Delete(l); return q; }
static int dpat(int n) { int k = sx_pick("dirs", 0, TH(3, n + 1)); return k == 0 ? 0 : k == 1 ? (1 << n) - 1 : k == 2 ? 0x15555555 & ((1 << n) - 1) : k == 3 ? 1 : 1 << (k - 2); }
static void edges_are(MFace_ptr f, int n, MEdge_ptr *e, int *d) { /* cyclic order; directions */
  List_ptr l = MF_Edges(f, 1, 0); sx_assert(MF_Num_Edges(f) == n && List_Num_Entries(l) == n, "the face has the expected number of edges"); int s = -1; for (int k = 0; k < n; k++) if (List_Entry(l, 0) == e[k]) s = k; sx_assert(s >= 0, "edges of the face are the expected ones");
  for (int k = 0; k < n; k++) { int q = (s + k) % n; sx_assert(List_Entry(l, k) == e[q], "order of the face's edges is preserved"); sx_assert(MF_EdgeDir_i(f, k) == d[q], "edge directions by position"); sx_assert(MF_EdgeDir(f, e[q]) == d[q], "edge directions"); sx_assert(efhas(e[q], f), "edges list their face"); }
  List_Delete(l); }
/* replace a chain of edges of a polygon */
static void repl(int rep, int solid) {
  int base = sx_live_blocks(); MSTK_Init(); m = MESH_New(rep); int n = sx_pick("n", 3, 5); verts(n + 4); int pat = dpat(n), p2 = sx_pick("newdirs", 0, 2); MFace_ptr f, g; MRegion_ptr r = NULL;
  for (int i = 0; i < n; i++) { pd[i] = pat >> i & 1; PE[i] = mk(i, (i + 1) % n, pd[i]); }
  f = MF_New(m); MF_Set_Edges(f, n, PE, pd);
  { MEdge_ptr t[3] = {PE[0], mk(1, n + 3, 1), mk(n + 3, 0, 1)}; int d[3] = {pd[0], 1, 1}; g = MF_New(m); MF_Set_Edges(g, 3, t, d); }
  if (solid) { MFace_ptr rf[2] = {f, g}; int rd[2] = {1, 0}; r = MR_New(m); MR_Set_Faces(r, 2, rf, rd); }
  int nold = sx_pick("nold", 1, n - 1), i = sx_pick("at", 0, n - 1), nnu = sx_pick("nnew", 1, 3), rev = sx_pick("rev", 0, 1), api = sx_pick("api", 0, 2); sx_assume(nold < n - 1 || nnu > 1);
  int from = i, to = (i + nold) % n, ch[5]; ch[0] = from; for (int k = 1; k < nnu; k++) ch[k] = n + k - 1; ch[nnu] = to;
  MEdge_ptr N[3], M[3], O[5], oo[5]; int nd[3]; for (int k = 0; k < nnu; k++) { nd[k] = p2 == 0 ? 0 : p2 == 1 ? 1 : k % 2; N[k] = mk(ch[k], ch[k + 1], nd[k]); } for (int k = 0; k < nnu; k++) M[k] = rev ? N[nnu - 1 - k] : N[k];
  for (int k = 0; k < nold; k++) O[k] = PE[(i + k) % n]; for (int k = 0; k < nold; k++) oo[k] = api == 2 ? O[nold - 1 - k] : O[k];
  if (api == 0) MF_Replace_Edges_i(f, nold, i, nnu, M); else MF_Replace_Edges(f, nold, oo, nnu, M);
  MEdge_ptr X[8]; int xd[8], c = 0; for (int k = 0; k < nnu; k++) { X[c] = N[k]; xd[c++] = nd[k]; } for (int k = nold; k < n; k++) { X[c] = PE[(i + k) % n]; xd[c++] = pd[(i + k) % n]; }
  edges_are(f, c, X, xd);
  for (int k = 0; k < nold; k++) { sx_assert(!efhas(O[k], f), "a replaced edge no longer lists the face"); if (solid) sx_assert(erhas(O[k], r) == (O[k] == PE[0]), "a replaced edge lists the region only if another face of it uses the edge"); }
  if (solid) for (int k = 0; k < c; k++) sx_assert(erhas(X[k], r), "edges list the region");
  sx_assert(efhas(PE[0], g) && MF_Num_Edges(g) == 3, "the neighbouring face is untouched");
  List_ptr l = MF_Vertices(f, 1, V[from]); sx_assert(List_Num_Entries(l) == c, "vertices of the face"); for (int k = 0; k < c; k++) { int w = k <= nnu ? ch[k] : (i + nold + k - nnu) % n; sx_assert(List_Entry(l, k) == V[w], "vertex cycle of the face follows the new edges"); } List_Delete(l);
  MESH_Delete(m); sx_check_leaks(base, "edit leaks"); sx_cover("end");
}
/* reverse, set and remove edges of a face; symbolic directions */
static void rev(int rep, int n) {
  int base = sx_live_blocks(); MSTK_Init(); m = MESH_New(rep); verts(n); int solid = sx_pick("solid", 0, 1), at = sx_pick("at", 0, TH(n < 6 ? n - 1 : 3, n - 1)), op = sx_pick("op", 0, 3); if (n > 8) at = n - 1 - at;
  for (int i = 0; i < n; i++) PE[i] = mk(i, (i + 1) % n, 1);
  for (int i = 0; i < n; i++) { pd[i] = (i * 7 + 3) % 3 != 0; if (i + 3 > n || i == at || i == at + 1) { pd[i] = sx_int("dir", 0, 1); } }
  MFace_ptr f = MF_New(m), g = MF_New(m); MF_Set_Edges(f, n, PE, pd); int one[3] = {1, 1, 1}; MEdge_ptr ge[3] = {PE[0], PE[1], PE[2]}; MF_Set_Edges(g, 3, ge, one); MRegion_ptr r = NULL;
  if (solid) { MFace_ptr rf[2] = {f, g}; int rd[2] = {1, 0}; r = MR_New(m); MR_Set_Faces(r, 2, rf, rd); }
  MEdge_ptr X[48]; int xd[48], c = 0; for (int i = 0; i < n; i++) if (!(op >= 2 && i == at)) { X[c] = PE[i]; xd[c] = pd[i] ^ (op < 2 && i == at); c++; }
  if (op == 0) MF_Rev_EdgeDir(f, PE[at]); else if (op == 1) MF_Rev_EdgeDir_i(f, at); else { MF_Rem_Edge(f, PE[at]); sx_assert(!efhas(PE[at], f), "a removed edge no longer lists the face"); }
  List_ptr l = MF_Edges(f, 1, 0); sx_assert(List_Num_Entries(l) == c, "number of edges"); for (int k = 0; k < c; k++) { sx_assert(List_Entry(l, k) == X[k], "order of the other edges is preserved"); sx_assert(MF_EdgeDir_i(f, k) == xd[k], "directions of the other edges are preserved"); sx_assert(MF_EdgeDir(f, X[k]) == xd[k], "directions of the other edges are preserved"); } List_Delete(l);
  for (int i = 0; i < n; i++) { sx_assert(efhas(PE[i], g) == (i < 3), "the other face is untouched"); if (i != at) sx_assert(efhas(PE[i], f), "the other edges still list the face"); if (solid) sx_assert(erhas(PE[i], r) == (i < 3 || op < 2 || i != at), "edges list the region exactly while one of its faces uses them"); }
  MESH_Delete(m); sx_check_leaks(base, "edit leaks"); sx_cover("end");
}
/* region with nf faces: remove, replace, reverse, set direction */
static MFace_ptr F[48], G[4];
static void reg(int rep, int nf, int nsym) {
  int base = sx_live_blocks(); MSTK_Init(); m = MESH_New(rep); verts(nf + 6); int fd[48], i, k;
  for (i = 0; i < nf + 3; i++) { MVertex_ptr t[3] = {V[i], V[i + 1], V[i + 2]}; MFace_ptr f = MF_New(m); MF_Set_Vertices(f, 3, t); if (i < nf) F[i] = f; else G[i - nf] = f; }
  int at = sx_pick("at", 0, nf < 8 ? nf - 1 : 5), op = sx_pick("op", 0, 7), nei = sx_pick("neighbour", 0, 1); if (nf >= 8) at = at < 2 ? at : nf - 1 - (at - 2);
  for (i = 0; i < nf; i++) { fd[i] = (i % 3) != 1; if (i >= at && i < at + nsym) fd[i] = sx_int("dir", 0, 1); }
  MRegion_ptr r = MR_New(m), q = NULL; MR_Set_Faces(r, nf, F, fd);
  if (nei) { MFace_ptr w[1] = {F[at]}; int d[1]; d[0] = !fd[at]; q = MR_New(m); MR_Set_Faces(q, 1, w, d); }
  MFace_ptr X[48]; int xd[48], c = 0, qd = !fd[at], rev = 0; for (i = 0; i < nf; i++) { X[i] = F[i]; xd[i] = fd[i]; } c = nf;
  if (op == 0) { MR_Rev_FaceDir(r, F[at]); rev = 1; }
  else if (op == 1) { MR_Rev_FaceDir_i(r, at); rev = 1; }
  else if (op == 2 || op == 3) { int d = sx_int("newdir", 0, 1); sx_assume(!nei || d == fd[at]); if (op == 2) MR_Set_FaceDir(r, F[at], d); else MR_Set_FaceDir_i(r, at, d); xd[at] = d; }
  else if (op == 4) { MR_Rem_Face(r, F[at]); for (i = at; i + 1 < nf; i++) { X[i] = X[i + 1]; xd[i] = xd[i + 1]; } c--; }
  else if (op == 5) { int d = sx_int("newdir", 0, 1); MR_Replace_Face_i(r, at, G[0], d); X[at] = G[0]; xd[at] = d; }
  else { int no = sx_pick("nold", 1, 2), nn = sx_pick("nnew", 1, 3); sx_assume(at + no <= nf); MFace_ptr o[2] = {F[at], F[at + 1 < nf ? at + 1 : 0]}; if (op == 7) { sx_assume(no == 2); o[0] = F[at + 1]; o[1] = F[at]; } int d[3] = {1, 0, 1}; d[0] = sx_int("newdir", 0, 1);
    MR_Replace_Faces(r, no, o, nn, G, d); c = 0; for (i = 0; i < nf; i++) if (i < at || i >= at + no) { X[c] = F[i]; xd[c++] = fd[i]; } for (i = 0; i < nn; i++) { X[c] = G[i]; xd[c++] = d[i]; } }
  if (rev) { xd[at] = !fd[at]; qd = fd[at]; }
  List_ptr l = MR_Faces(r); sx_assert(MR_Num_Faces(r) == c && List_Num_Entries(l) == c, "the region has the expected number of faces");
  for (k = 0; k < c; k++) { int at2 = -1; for (i = 0; i < c; i++) if (List_Entry(l, i) == X[k]) { sx_assert(at2 < 0, "no face twice"); at2 = i; } sx_assert(at2 >= 0, "faces of the region are the expected ones"); sx_assert(MR_FaceDir_i(r, at2) == xd[k], "face directions by position"); sx_assert(MR_FaceDir(r, X[k]) == xd[k], "face directions"); sx_assert(MF_Region(X[k], !xd[k]) == r, "faces know the region on the right side"); if (!(nei && X[k] == F[at])) sx_assert(MF_Region(X[k], xd[k]) == NULL, "nothing on the other side"); }
  if (op < 6) { int p = -1; for (i = 0; i < c; i++) { int t = List_Locate(l, X[i]); if (op != 5 || i != at) { sx_assert(t > p, "order of the other faces is preserved"); p = t; } } }
  List_Delete(l);
  if (op == 4 || op >= 5) for (i = at; i < at + 1; i++) sx_assert(MF_Region(F[at], !fd[at]) == NULL && (nei || !(l = MF_Regions(F[at]))), "a removed face no longer lists the region");
  if (nei) { sx_assert(MR_FaceDir(q, F[at]) == qd && MF_Region(F[at], !qd) == q, "the neighbouring region keeps its face on its side"); }
  for (i = 0; i < nf + 5; i++) { MEdge_ptr e = MVs_CommonEdge(V[i], V[i + 1]); if (!e) continue; int use = 0; for (k = 0; k < c; k++) use |= MF_UsesEntity(X[k], e, MEDGE); sx_assert(erhas(e, r) == use, "edges list the region exactly while one of its faces uses them"); }
  MESH_Delete(m); sx_check_leaks(base, "edit leaks"); sx_cover("end");
}
/* edges and their vertices; vertices of faces and regions of reduced meshes */
void h_edge(void) { int base = sx_live_blocks(), rep = sx_pick("rep", F1, F4); MSTK_Init(); m = MESH_New(rep); verts(5); MEdge_ptr e = mk(0, 1, 1), g = mk(0, 2, 1), h = mk(1, 2, 1); int k = sx_pick("end", 0, 1), w = sx_pick("new", 2, 3); ME_Replace_Vertex(e, V[k], V[w]);
  sx_assert(ME_Vertex(e, k) == V[w] && ME_Vertex(e, !k) == V[!k], "exactly the addressed end changes"); sx_assert(!vehas(V[k], e) && vehas(V[w], e) && vehas(V[!k], e), "vertices list the edge exactly when they bound it"); sx_assert(vehas(V[0], g) && vehas(V[2], g) && vehas(V[1], h) && vehas(V[2], h), "other edges are untouched"); MESH_Delete(m); sx_check_leaks(base, "edit leaks"); sx_cover("end"); }
void h_fvert(void) { static const int reps[] = {R1, R2, R4}; int base = sx_live_blocks(), rep = reps[sx_pick("rep", 0, 2)], n = sx_pick("n", 3, 5), op = sx_pick("op", 0, 3), at = sx_pick("at", 0, n - 1), X[8], c = n, i; MSTK_Init(); m = MESH_New(rep); verts(n + 1); MFace_ptr f = MF_New(m); MF_Set_Vertices(f, n, V); for (i = 0; i < n; i++) X[i] = i;
  if (op == 0) MF_Replace_Vertex(f, V[at], V[n]); else if (op == 1) MF_Replace_Vertex_i(f, at, V[n]); if (op < 2) X[at] = n; else { if (op == 2) MF_Insert_Vertex(f, V[n], V[at]); else MF_Insert_Vertex_i(f, V[n], at); for (i = n; i > at; i--) X[i] = X[i - 1]; X[at] = n; c++; }
  List_ptr l = MF_Vertices(f, 1, 0); sx_assert(List_Num_Entries(l) == c && MF_Num_Vertices(f) == c, "number of vertices"); for (i = 0; i < c; i++) sx_assert(List_Entry(l, i) == V[X[i]], "order of the other vertices is preserved"); List_Delete(l); MESH_Delete(m); sx_check_leaks(base, "edit leaks"); sx_cover("end"); }
void h_rvert(void) { static const int reps[] = {R1, R2}; int rep = reps[sx_pick("rep", 0, 1)], n = sx_pick("n", 4, 8), at, i; sx_assume(n != 7); at = sx_pick("at", 0, n - 1); MSTK_Init(); m = MESH_New(rep); verts(n + 1); MRegion_ptr r = MR_New(m), q = MR_New(m); MR_Set_Vertices(r, n, V, 0, NULL); MR_Set_Vertices(q, 4, V, 0, NULL);
  if (sx_pick("byindex", 0, 1)) MR_Replace_Vertex_i(r, at, V[n]); else MR_Replace_Vertex(r, V[at], V[n]);
  List_ptr l = MR_Vertices(r); sx_assert(List_Num_Entries(l) == n, "number of vertices"); for (i = 0; i < n; i++) sx_assert(List_Entry(l, i) == V[i == at ? n : i], "order of the other vertices is preserved"); List_Delete(l);
  for (i = 0; i <= n; i++) { l = MV_Regions(V[i]); sx_assert(has(l, r) == (i != at) && has(l, q) == (i < 4), "vertices list exactly the regions they bound"); if (l) List_Delete(l); } MESH_Delete(m); sx_cover("end"); }
void h_repl_F1(void) { repl(F1, 0); }
void h_repl_F4(void) { repl(F4, 0); }
void h_repls_F1(void) { repl(F1, 1); }
void h_repls_F4(void) { repl(F4, 1); }
void h_rev_F1(void) { rev(F1, sx_pick("n", 3, 5)); }
void h_rev_F4(void) { rev(F4, sx_pick("n", 3, 5)); }
void h_revbig_F1(void) { rev(F1, 30); }
void h_reg_F1(void) { reg(F1, sx_pick("nf", 4, TH(5, 6)), 2); }
void h_reg_F4(void) { reg(F4, sx_pick("nf", 4, TH(5, 6)), 2); }
void h_regbig_F1(void) { static const int big[] = {34, 31, 30}; reg(F1, big[sx_pick("nf", 0, TH(1, 2))], 2); }
void h_regbig_F4(void) { static const int big[] = {34, 31, 30}; reg(F4, big[sx_pick("nf", 0, TH(1, 2))], 2); }
