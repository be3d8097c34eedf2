/* C28: geometric queries against their definitions. Coordinates are integer-valued and symbolic; sums and products are then exact,
   lengths, divisions and normalisations are decided over the reals (sx_real). */
#include "common.h"
#include "MSTK_VecFuncs.h"
#define D(n) sx_dint(n, -B, B)
#define B 40
static void vec(const char *n, double *v) { v[0] = D(n); v[1] = D(n); v[2] = D(n); }
static void sub(double *a, double *b, double *c) { for (int i = 0; i < 3; i++) c[i] = a[i] - b[i]; }
static double dot(double *a, double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void crs(double *a, double *b, double *c) { for (int i = 0; i < 3; i++) c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; }
static void eq3(double *a, double *b, const char *m) { for (int i = 0; i < 3; i++) sx_assert(sx_near(a[i], b[i]), m); }

void h_vec(void) {
  double a[3], b[3], c[3], d[3], e[3]; sx_real(1); vec("a", a); vec("b", b);
  double a0[3] = {a[0], a[1], a[2]}, b0[3] = {b[0], b[1], b[2]};
  MSTK_VDiff3(a, b, c); sub(a0, b0, d); eq3(c, d, "the difference is component-wise");
  MSTK_VSum3(a, b, c); for (int i = 0; i < 3; i++) d[i] = a0[i] + b0[i]; eq3(c, d, "the sum is component-wise");
  MSTK_VCross3(a, b, c); crs(a0, b0, d); eq3(c, d, "the cross product matches its definition");
  MSTK_VCross3(b, a, e); for (int i = 0; i < 3; i++) e[i] = -e[i]; eq3(c, e, "the cross product is antisymmetric");
  sx_assert(sx_near(MSTK_VDot3(a, b), dot(a0, b0)), "the dot product matches its definition"); sx_assert(sx_near(MSTK_VDot3(b, a), dot(a0, b0)), "the dot product is symmetric");
  sx_assert(sx_near(MSTK_VDot3(c, a), 0), "the cross product is orthogonal to its operands");
  sx_assert(sx_near(MSTK_VLenSqr3(a), dot(a0, a0)), "the squared length matches its definition");
  eq3(a, a0, "operands are left alone"); eq3(b, b0, "operands are left alone");
  MSTK_VCopy3(c, a); eq3(c, a0, "a copy equals its source");  eq3(a, a0, "copying leaves the source alone");
  MSTK_VNeg3(c); for (int i = 0; i < 3; i++) d[i] = -a0[i]; eq3(c, d, "negation is component-wise");
  double s = D("s"); MSTK_VScale3(c, s); for (int i = 0; i < 3; i++) d[i] = -a0[i] * s; eq3(c, d, "scaling is component-wise");
  sx_cover("end");
}
void h_vlen(void) {
  double a[3], c[3], l; sx_real(1); vec("a", a); double a0[3] = {a[0], a[1], a[2]}, q = dot(a0, a0);
  l = MSTK_VLen3(a); sx_assert(l >= 0, "a length is not negative"); sx_assert(sx_near(l * l, q), "the length squares to the squared length");
  MSTK_VNormalize3(a);
  if (q == 0) { eq3(a, a0, "normalising a zero vector leaves it alone"); sx_cover("zero"); }
  else { sx_assert(sx_near(dot(a, a), 1), "a normalised vector has unit length"); sx_assert(dot(a, a0) > 0, "normalising keeps the direction");
    crs(a, a0, c); for (int i = 0; i < 3; i++) sx_assert(sx_near(c[i], 0), "normalising keeps the line"); sx_cover("unit"); }
  sx_cover("end");
}
void h_elen(void) {
  double x[2][3], v[3], w[3]; sx_real(1); vec("p", x[0]); vec("q", x[1]); int rev = sx_pick("rev", 0, 1);
  Mesh_ptr m = MESH_New(sx_pick("F4", 0, 1) ? F4 : F1); MVertex_ptr p[2]; for (int i = 0; i < 2; i++) { p[i] = MV_New(m); MV_Set_Coords(p[i], x[i]); }
  MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, rev, p[0]); ME_Set_Vertex(e, !rev, p[1]);
  for (int pass = 0; pass < 2; pass++) {
    sub(x[!rev], x[rev], w); ME_Vec(e, v); eq3(v, w, "the edge vector runs from the first to the second vertex");
    sx_assert(sx_near(ME_LenSqr(e), dot(w, w)), "the squared edge length matches its definition");
    double l = ME_Len(e); sx_assert(l >= 0, "an edge length is not negative"); sx_assert(sx_near(l * l, dot(w, w)), "the edge length squares to the squared length");
    if (!pass) { vec("r", x[1]); MV_Set_Coords(p[1], x[1]); } }   /* moving an end point is seen at once */
  double y[3]; MV_Coords(p[0], y); eq3(y, x[0], "coordinates are returned as set"); MV_Coords(p[1], y); eq3(y, x[1], "coordinates are returned as set");
  sx_cover("end");
}
static const int tm[5][9] = {{4, 4, 0}, {5, 5, 0}, {6, 5, 0}, {8, 6, 0}};
void h_coords(void) {
  int rep = sx_pick("rep", 0, 1) ? F4 : F1; Mesh_ptr m = MESH_New(rep); double x[MAXPV3][3], y[MAXPV3][3]; MVertex_ptr v[MAXPV3]; int n, k = -7; List_ptr l;
  if (sx_pick("dim", 2, 3) == 2) { int nf = sx_pick("n", 3, 6); for (int i = 0; i < nf; i++) { vec("x", x[i]); v[i] = MV_New(m); MV_Set_Coords(v[i], x[i]); }
    MFace_ptr f = MF_New(m); MF_Set_Vertices(f, nf, v); MF_Coords(f, &k, y); l = MF_Vertices(f, 1, 0); n = List_Num_Entries(l); sx_assert(n == nf && k == n, "as many points as vertices"); }
  else { int t = sx_pick("shape", 0, 3), nr = tm[t][0]; for (int i = 0; i < nr; i++) { vec("x", x[i]); v[i] = MV_New(m); MV_Set_Coords(v[i], x[i]); }
    MRegion_ptr r = MR_New(m); MR_Set_Vertices(r, nr, v, 0, 0); MR_Coords(r, &k, y); l = MR_Vertices(r); n = List_Num_Entries(l); sx_assert(n == nr && k == n, "as many points as vertices"); }
  for (int i = 0; i < n; i++) { MVertex_ptr u = List_Entry(l, i); int j = 0; while (j < n && v[j] != u) j++; sx_assert(j < n, "vertices of the cell"); for (int c = 0; c < 3; c++) sx_assert(y[i][c] == x[j][c], "points are listed in the order of the cell's vertices"); }
  sx_cover("end");
}
/* cosine c of the angle between directions u and w (not zero): c|u||w| = u.w */
static void cosine(double c, double *u, double *w, const char *m) {
  double d = dot(u, w), p = dot(u, u) * dot(w, w);
  sx_assert(sx_near(c * c * p, d * d), m); sx_assert(d > 0 ? c > 0 : d < 0 ? c < 0 : sx_near(c, 0), "the sign of the cosine tells acute from obtuse");
}
#undef B
#define B 12
void h_angle(void) {
  double x[3][3], u[3], w[3]; sx_real(1); int a = sx_pick("end1", 0, 1), b = sx_pick("end2", 0, 1); int fx = sx_pick("fixed", 0, TH(0, 1)); static const double X0[3] = {3, -2, 5}; for (int i = 0; i < 3; i++) if (i == fx) for (int k = 0; k < 3; k++) x[i][k] = X0[k]; else vec("x", x[i]);
  Mesh_ptr m = MESH_New(F1); MVertex_ptr p[3]; for (int i = 0; i < 3; i++) { p[i] = MV_New(m); MV_Set_Coords(p[i], x[i]); }
  sub(x[1], x[0], u); sub(x[2], x[0], w); sx_assume(dot(u, u) > 0); sx_assume(dot(w, w) > 0);
  MEdge_ptr e = ME_New(m), f = ME_New(m); ME_Set_Vertex(e, a, p[0]); ME_Set_Vertex(e, !a, p[1]); ME_Set_Vertex(f, b, p[0]); ME_Set_Vertex(f, !b, p[2]);
  if (sx_pick("swap", 0, 1)) { MEdge_ptr t = e; e = f; f = t; }
  cosine(MEs_Angle(e, f), u, w, "the cosine of the angle at the common vertex");
  sx_cover("end");
}
void h_angle0(void) {
  Mesh_ptr m = MESH_New(F1); MVertex_ptr p[4]; double x[3]; for (int i = 0; i < 4; i++) { p[i] = MV_New(m); vec("x", x); MV_Set_Coords(p[i], x); }
  MEdge_ptr e = ME_New(m), f = ME_New(m); for (int i = 0; i < 2; i++) { ME_Set_Vertex(e, i, p[i]); ME_Set_Vertex(f, i, p[2 + i]); }
  sx_assert(MEs_Angle(e, f) == 0.0, "edges without a common vertex have no angle");
  MFace_ptr F[2]; for (int i = 0; i < 2; i++) { MVertex_ptr q[3] = {p[0], p[1 + i], MV_New(m)}; MV_Set_Coords(q[2], x); F[i] = MF_New(m); MF_Set_Vertices(F[i], 3, q); }
  sx_assert(MFs_DihedralAngle(F[0], F[1], NULL) == 0.0, "faces without a common edge have no dihedral angle");
  sx_cover("end");
}
/* two faces of n1 and n2 sides on the edge x0-x1; any direction of the edge, of the faces, any order, edge given or found */
static void dihed(int n1, int n2, int sym) {
  double x[10][3], c[2][3], e[3], u[3], w[3]; int nx = n1 + n2 - 2; sx_real(1); static const double base[10][3] = {{1, 2, -3}, {5, 2, -1}, {7, 5, 2}, {3, 9, 4}, {6, -4, 8}, {2, -5, 1}, {1, 1, 1}};
  for (int i = 0; i < nx; i++) for (int k = 0; k < 3; k++) x[i][k] = base[i][k];
  for (int i = 0; i < nx; i++) if (sym >> i & 1) vec("x", x[i]);
  Mesh_ptr m = MESH_New(F1); MVertex_ptr p[10], q[8]; for (int i = 0; i < nx; i++) { p[i] = MV_New(m); MV_Set_Coords(p[i], x[i]); }
  int ed = sx_pick("edir", 0, 1); MEdge_ptr ee = ME_New(m); ME_Set_Vertex(ee, ed, p[0]); ME_Set_Vertex(ee, !ed, p[1]);
  MFace_ptr f[2]; int n[2] = {n1, n2}, st = 0;
  for (int i = 0; i < 2; i++) { int d = sx_pick("fdir", 0, 1), s = i ? TH(st, sx_pick("start", 0, 1)) : (st = sx_pick("start", 0, 1)); MVertex_ptr cyc[8]; cyc[0] = p[0]; cyc[1] = p[1]; for (int k = 2; k < n[i]; k++) cyc[k] = p[(i ? n1 - 2 : 0) + k];
    for (int k = 0; k < n[i]; k++) q[k] = cyc[d ? (k + s) % n[i] : (n[i] + s - k) % n[i]];
    f[i] = MF_New(m); MF_Set_Vertices(f[i], n[i], q);
    /* reference point: the apex of a triangle, the mean of the vertices otherwise */
    for (int k = 0; k < 3; k++) { if (n[i] == 3) c[i][k] = x[(i ? n1 - 2 : 0) + 2][k]; else { double t = x[0][k] + x[1][k]; for (int j = 2; j < n[i]; j++) t += x[(i ? n1 - 2 : 0) + j][k]; c[i][k] = t / n[i]; } } }
  sub(x[1], x[0], e); double t0[3], t1[3]; sub(c[0], x[0], t0); sub(c[1], x[0], t1); crs(e, t0, u); crs(e, t1, w); sx_assume(dot(u, u) > 0); sx_assume(dot(w, w) > 0);
  int sw = TH(st, sx_pick("swap", 0, 1)), nul = TH(!ed, sw);
  double d = MFs_DihedralAngle(f[sw], f[!sw], nul ? NULL : ee);
  cosine(d, u, w, "the cosine of the dihedral angle is that of the faces' half-planes about the edge");
  sx_cover("end");
}
void h_dih33(void) { dihed(3, 3, 12); }
void h_dih34(void) { dihed(3, 4, 12); }
void h_dih43(void) { dihed(4, 3, 20); }
void h_dih44(void) { dihed(4, 4, 20); }
void h_cond(void) {
  int n = sx_pick("n", 3, TH(4, 6)); double x[8][3], y[40], u[3], w[3], z[3]; int k; sx_real(1); MVertex_ptr p[8]; Mesh_ptr m = MESH_New(sx_pick("F4", 0, 1) ? F4 : F1);
  static const double base[6][3] = {{0, 0, 0}, {4, 1, 0}, {5, 4, 2}, {2, 6, 1}, {-1, 5, -1}, {-3, 2, 1}}; int s = n == 3 ? -1 : sx_pick("moved", 0, n - 1);
  for (int i = 0; i < n; i++) { for (k = 0; k < 3; k++) x[i][k] = base[i][k]; if (i == s || (s < 0 && i)) vec("x", x[i]); p[i] = MV_New(m); MV_Set_Coords(p[i], x[i]); }
  for (int i = 0; i < n; i++) { sub(x[(i + 1) % n], x[i], u); sub(x[(i + n - 1) % n], x[i], w); crs(u, w, z); sx_assume(dot(z, z) > 0); }
  MFace_ptr f = MF_New(m); MF_Set_Vertices(f, n, p); k = -1; MF_CondNums(f, &k, y); sx_assert(k == n, "one condition number per corner");
  List_ptr l = MF_Vertices(f, 1, 0);
  for (int j = 0; j < n; j++) { MVertex_ptr v = List_Entry(l, j); int i = 0; while (p[i] != v) i++;
    sub(x[(i + 1) % n], x[i], u); sub(x[(i + n - 1) % n], x[i], w); crs(u, w, z); double s2 = dot(u, u) + dot(w, w);
    sx_assert(y[j] > 0, "a condition number is positive"); sx_assert(sx_near(y[j] * y[j] * 4 * dot(z, z), s2 * s2), "the corner condition number is (a^2+b^2)/(2|a x b|)"); }
  sx_cover("end");
}
