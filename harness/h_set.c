#include "common.h"
#define NE 5
static Mesh_ptr m; static MEntity_ptr e[NE]; static MSet_ptr st[3]; static int seq[3][16], len[3];
static void mk(int mixed) {
  MSTK_Init(); m = MESH_New(F1);
  for (int i = 0; i < NE; i++) { double x[3] = {i, 0, 0}; if (mixed && i >= 3) { MEdge_ptr d = ME_New(m); ME_Set_Vertex(d, 0, e[i - 3]); ME_Set_Vertex(d, 1, e[i - 2]); e[i] = d; } else { e[i] = MV_New(m); MV_Set_Coords(e[i], x); } }
}
static void same(MSet_ptr s, int *q, int n, const char *msg) {
  sx_assert(MSet_Num_Entries(s) == n, msg);
  int idx = 0, k = 0; MEntity_ptr x;
  while ((x = MSet_Next_Entry(s, &idx))) { sx_assert(k < n && x == e[q[k]], msg); k++; }
  sx_assert(k == n, msg);
  for (int i = 0; i < n; i++) sx_assert(MSet_Entry(s, i) == e[q[i]], msg);
  for (int j = 0; j < NE; j++) { int at = -1; for (int i = n - 1; i >= 0; i--) if (q[i] == j) at = i; sx_assert(MSet_Contains(s, e[j]) == (at >= 0), "set membership"); sx_assert(MSet_Locate(s, e[j]) == at, "position in a set"); }
}
static void ins(int w, int at, int x) { for (int i = len[w]; i > at; i--) seq[w][i] = seq[w][i - 1]; seq[w][at] = x; len[w]++; }
static int loc(int w, int x) { for (int i = 0; i < len[w]; i++) if (seq[w][i] == x) return i; return -1; }
static void del(int w, int at) { for (int i = at; i < len[w] - 1; i++) seq[w][i] = seq[w][i + 1]; len[w]--; }
static void hist(int nops) {
  int base = sx_live_blocks(); mk(0);
  st[0] = MSet_New(m, "a", MVERTEX); st[1] = MSet_New(m, "bb", MVERTEX); len[0] = len[1] = 0;
  int pre = sx_pick("prefill", 0, 2); for (int i = 0; i < pre; i++) { MSet_Add(st[0], e[i]); ins(0, len[0], i); MSet_Add(st[1], e[2 - i]); ins(1, len[1], 2 - i); }
  for (int t = 0; t < nops; t++) {
    int op = sx_pick("op", 0, 9), w = op == 9 ? 0 : sx_pick("set", 0, 1), x = sx_pick("entity", 0, 2), y; MSet_ptr r; int k;
    switch (op) {
    case 0: r = MSet_Add(st[w], e[x]); sx_assert(r == st[w], "adding hands back the set"); ins(w, len[w], x); break;
    case 1: r = MSet_ChknAdd(st[w], e[x]); sx_assert(r == st[w], "checked adding hands back the set"); if (loc(w, x) < 0) ins(w, len[w], x); break;
    case 2: k = MSet_Rem(st[w], e[x]); sx_assert((k != 0) == (loc(w, x) >= 0), "removal reports whether the entity was there"); if (loc(w, x) >= 0) del(w, loc(w, x)); break;
    case 3: if (len[w]) { k = x % len[w]; int q = MSet_Remi(st[w], k); sx_assert(q == 1, "removal by position succeeds"); del(w, k); } break;
    case 4: if (len[w]) { y = seq[w][len[w] - 1]; r = MSet_Insert(st[w], e[x], e[y]); sx_assert(r == st[w], "inserting hands back the set"); ins(w, loc(w, y), x); } break;
    case 5: if (len[w]) { k = len[w] / 2; r = MSet_Inserti(st[w], e[x], k); sx_assert(r == st[w], "inserting by position hands back the set"); ins(w, k, x); } break;
    case 6: y = (x + 1) % 3; k = MSet_Replace(st[w], e[x], e[y]); sx_assert((k != 0) == (loc(w, x) >= 0), "replacement reports whether the entity was there"); if (loc(w, x) >= 0) seq[w][loc(w, x)] = y; break;
    case 7: if (len[w]) { k = len[w] - 1; MSet_Replacei(st[w], k, e[x]); seq[w][k] = x; } break;
    case 8: { static char n2[2][16] = {"renamed-longer", "x"}; MSet_Rename(st[w], n2[w]); sx_assert(MESH_MSetByName(m, n2[w]) == st[w], "renamed set is found by its new name"); } break;
    case 9: MSet_Cat(st[0], st[1]); { int n1 = len[1]; for (k = 0; k < n1; k++) ins(0, len[0], seq[1][k]); } break;
    }
    for (int s = 0; s < 2; s++) same(st[s], seq[s], len[s], "set contents after an edit");
  }
  MESH_Delete(m); sx_check_leaks(base, "sets leak"); sx_cover("end");
}
void h_set_hist(void) { hist(TH(2, 3)); }
static int cnt;
static void check_named(int n) { /* every set is found by its name while it exists, and the mesh lists each once */
  sx_assert(MESH_Num_MSets(m) == n, "number of sets of the mesh"); int i = 0, c = 0; MSet_ptr s;
  while ((s = MESH_Next_MSet(m, &i))) { char nm[256]; sx_assert(MESH_MSet(m, c) == s, "set by position"); c++; MSet_Name(s, nm); MSet_ptr f = MESH_MSetByName(m, nm); sx_assert(f != NULL, "set is found by name"); sx_assert(MSet_Mesh(s) == m, "set knows its mesh"); }
  sx_assert(c == n, "iteration over sets");
}
void h_set_alg(void) {
  int base = sx_live_blocks(), mixed = sx_pick("dims", 0, 2); mk(mixed);   /* 0: both vertex sets, 1: mixed sets, 2: sets of different dimensions */
  MType d0 = mixed == 1 ? MALLTYPE : MVERTEX, d1 = mixed == 0 ? MVERTEX : mixed == 1 ? MALLTYPE : MEDGE;
  st[0] = MSet_New(m, "left", d0); st[1] = MSet_New(m, "right side", d1); len[0] = len[1] = 0;
  for (int w = 0; w < 2; w++) { int lo = mixed == 2 ? (w ? 3 : TH(1, 0)) : mixed == 1 ? TH(2, 1) : 0, hi = mixed == 2 ? (w ? NE : 3) : lo + TH(3, 4), dir = w ? 1 : sx_pick("order", 0, 1);
    for (int i = 0; i < hi - lo; i++) { int x = dir ? hi - 1 - i : lo + i; int in = sx_pick("in", 0, TH(2 - w, 2)); if (in) { MSet_Add(st[w], e[x]); ins(w, len[w], x); } if (in == 2) { MSet_Rem(st[w], e[x]); del(w, loc(w, x)); } } }
  sx_assert(MSet_EntDim(st[0]) == d0 && MSet_EntDim(st[1]) == d1, "set keeps its entity type");
  check_named(2);
  int op = sx_pick("op", 0, 6), want[16], nw = 0, alias = op > 3, r = alias ? 0 : 1; if (alias) op -= 4; MSet_ptr s1 = st[0], s2 = st[r], res;
  for (int x = 0; x < NE; x++) { int a = loc(0, x) >= 0, b = loc(r, x) >= 0; if (op == 0 ? a || b : op == 1 ? a && b : op == 2 ? a && !b : a) want[nw++] = x; }
  res = op == 0 ? MSets_Union(s1, s2) : op == 1 ? MSets_Intersect(s1, s2) : op == 2 ? MSets_Subtract(s1, s2) : MSet_Copy(s1);
  if (op == 0 || op == 3) sx_assert(res != NULL, "union and copy always give a set");
  else sx_assert((res == NULL) == (nw == 0), "empty intersection or difference is reported as such");
  if (res) {
    sx_assert(res != s1 && res != s2, "result is a new set"); sx_assert(MSet_Num_Entries(res) == nw, "result has the right number of entities");
    for (int x = 0; x < NE; x++) { int w = 0; for (int i = 0; i < nw; i++) w |= want[i] == x; int c = 0; for (int i = 0; i < MSet_Num_Entries(res); i++) c += MSet_Entry(res, i) == e[x]; sx_assert(c == w, "result contains exactly the right entities, once each"); }
    MType dd = op == 2 || op == 3 ? d0 : d0 == (r ? d1 : d0) ? d0 : MALLTYPE; sx_assert(MSet_EntDim(res) == dd, "entity type of the result");
    if (op == 3) same(res, seq[0], len[0], "copied contents");
  }
  same(st[0], seq[0], len[0], "first operand is unchanged"); same(st[1], seq[1], len[1], "second operand is unchanged");
  check_named(res ? 3 : 2); cnt = 0;
  if (res) { MSet_Add(res, e[0]); same(st[0], seq[0], len[0], "operands are independent of the result"); MSet_Delete(st[1]); check_named(2); sx_assert(MESH_MSetByName(m, "right side") == NULL, "deleted set is not found"); sx_assert(MESH_MSetByName(m, "left") == st[0], "set is found after another is deleted"); }
  MESH_Delete(m); sx_check_leaks(base, "sets leak"); sx_cover("end");
}
/* deleting any of three sets, creating again */
void h_set_names(void) {
  int base = sx_live_blocks(); mk(0); static const char *nm[] = {"s", "s1", "S", "s12"}; int live[4] = {0}; MSet_ptr s[4];
  for (int t = 0; t < TH(4, 6); t++) { int k = sx_pick("which", 0, 3); if (live[k]) { MSet_Delete(s[k]); live[k] = 0; } else { s[k] = MSet_New(m, nm[k], MVERTEX); live[k] = 1; }
    int n = 0; for (int j = 0; j < 4; j++) { n += live[j]; MSet_ptr f = MESH_MSetByName(m, nm[j]); sx_assert(live[j] ? f == s[j] : f == NULL, "sets are found by name exactly while they exist"); } check_named(n); }
  MESH_Delete(m); sx_check_leaks(base, "sets leak"); sx_cover("end");
}
