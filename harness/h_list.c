/* C01: lists as sequences. A model array is edited in step with the real list. */
#include "MSTK.h"
#include "symx.h"
#define MX 24
#ifdef SX_THOROUGH
#define NST 4
#define NGAP 5
#define NSRC 3
#else
#define NST 3
#define NGAP 3
#define NSRC 2
#endif
int List_Size_Raw(List_ptr l); void *List_Entry_Raw(List_ptr l, int i); int List_Remi_Raw(List_ptr l, int i);
static int pool[MX];
static void *mod[MX]; static int nm;
static List_ptr L;
static int nextid; static int coarse;
static void *fresh(void) { return &pool[nextid++]; }
static void mins(int i, void *e) { for (int k = nm; k > i; k--) mod[k] = mod[k-1]; mod[i] = e; nm++; }
static void mrem(int i) { for (int k = i; k < nm-1; k++) mod[k] = mod[k+1]; nm--; }
static int ent2int(void *e) { return (int)((int *)e - pool); }
static void agree(List_ptr l, void **m, int n) {
  sx_assert(List_Num_Entries(l) == n, "number of entries");
  int idx = 0, k = 0; void *e;
  while ((e = List_Next_Entry(l, &idx))) { sx_assert(k < n && e == m[k], "iteration follows the sequence"); k++; }
  sx_assert(k == n, "iteration visits every entry");
  for (k = 0; k < n; k++) sx_assert(List_Entry(l, k) == m[k], "indexed entry");
  sx_assert(List_Entry(l, n) == NULL, "entry beyond the end");
  for (k = 0; k < n; k++) {
    int first = k; for (int j = 0; j < k; j++) if (m[j] == m[k]) { first = j; break; }
    sx_assert(List_Contains(l, m[k]) == 1, "contains"); sx_assert(List_Locate(l, m[k]) == first, "locate");
  }
  void *no = &pool[MX-1]; sx_assert(!List_Contains(l, no), "does not contain"); sx_assert(List_Locate(l, no) == -1, "locate absent");
}
static int mfind(void *e) { for (int k = 0; k < nm; k++) if (mod[k] == e) return k; return -1; }
enum { ADD, CHKADD, INSI, INSB4, REM, REMI, REPL, REPLI, COMPRESS, CAT, COPY, ITREM, REMRAW, NOPS };
static void step(int op) {
  int i, k; void *e;
  switch (op) {
  case ADD: e = fresh(); L = List_Add(L, e); mins(nm, e); break;
  case CHKADD:
    i = sx_pick("which", 0, nm); e = i < nm ? mod[i] : fresh();
    L = List_ChknAdd(L, e); if (i == nm) mins(nm, e); break;
  case INSI: i = sx_pick("pos", 0, nm); e = fresh(); L = List_Inserti(L, e, i); sx_assert(L != NULL, "Inserti result"); mins(i, e); break;
  case INSB4: i = sx_pick("b4", 0, nm); e = fresh(); L = List_Insert(L, e, i < nm ? mod[i] : NULL); sx_assert(L != NULL, "Insert result"); mins(i < nm ? mfind(mod[i]) : nm, e); break;
  case REM: i = sx_pick("which", 0, nm); e = i < nm ? mod[i] : (void *)&pool[MX-1];
    k = List_Rem(L, e); sx_assert(k == (i < nm), "Rem result"); if (i < nm) mrem(mfind(e)); break;
  case REMI: i = sx_pick("pos", 0, nm); k = List_Remi(L, i); sx_assert(k == (i < nm), "Remi result"); if (i < nm) mrem(i); break;
  case REPL: i = sx_pick("which", 0, nm); e = fresh(); { void *o = i < nm ? mod[i] : (void *)&pool[MX-1]; k = List_Replace(L, o, e); sx_assert(k == (i < nm), "Replace result"); if (i < nm) mod[mfind(o)] = e; } break;
  case REPLI: if (!nm) return; i = sx_pick("pos", 0, nm-1); e = fresh(); k = List_Replacei(L, i, e); sx_assert(k == 1, "Replacei result"); mod[i] = e; break;
  case COMPRESS: L = List_Compress(L); break;
  case CAT: { /* concatenate another list, itself with or without gaps */
    List_ptr s = List_New(0); int n = sx_pick("nsrc", 0, NSRC), g; void *es[3];
    for (k = 0; k < n; k++) { es[k] = fresh(); List_Add(s, es[k]); }
    g = n ? sx_pick("gap", -1, n-1) : -1;
    if (g >= 0) List_Remi(s, g);
    L = List_Cat(L, s); for (k = 0; k < n; k++) if (k != g) mins(nm, es[k]);
    sx_assert(List_Num_Entries(s) == n - (g >= 0), "source of a concatenation is unchanged");
    List_Delete(s); break; }
  case COPY: { List_ptr c = List_Copy(L); agree(c, mod, nm);
    void *old[MX]; int on = nm; for (k = 0; k < nm; k++) old[k] = mod[k];
    L = List_Add(L, (e = fresh())); mins(nm, e); agree(c, old, on); if (on) { List_Remi(L, 0); mrem(0); } agree(c, old, on);
    List_Delete(c); break; }
  case ITREM: { int idx = 0, n0 = nm, seen = 0; void *old[MX]; for (k = 0; k < nm; k++) old[k] = mod[k];
    while ((e = List_Next_Entry(L, &idx))) {
      sx_assert(seen < n0 && e == old[seen], "iteration while removing visits each entry once"); seen++;
      if (coarse ? seen % 2 : sx_pick("del", 0, 1)) { List_Rem(L, e); mrem(mfind(e)); }
    }
    sx_assert(seen == n0, "iteration while removing skips nothing"); break; }
  case REMRAW: { int ntot = List_Size_Raw(L); sx_assert(ntot >= nm, "raw size"); if (!ntot) return;
    i = sx_pick("raw", 0, ntot-1); e = List_Entry_Raw(L, i); k = List_Remi_Raw(L, i); sx_assert(k == 1, "Remi_Raw result"); if (e) mrem(mfind(e)); break; }
  }
}
static int base;
static void start(int nmax, int capmax) {
  nextid = 0; nm = 0; base = sx_live_blocks();
  L = List_New(capmax < 0 ? 1 : sx_pick("cap", 0, capmax));
  int n = nmax ? sx_pick("n", 0, nmax) : 0;
  for (int k = 0; k < n; k++) { void *e = fresh(); List_Add(L, e); mins(nm, e); }
}
static void finish(void) { agree(L, mod, nm); List_Delete(L); sx_check_leaks(base, "list leaks"); sx_cover("end"); }
/* arbitrary histories from a fresh list */
void h_list_hist(void) {
  start(0, -1);
  List_Add(L, mod[0] = fresh()); List_Add(L, mod[1] = fresh()); nm = 2;
  for (int s = 0; s < NST; s++) step(sx_pick("op", 0, NOPS-1));
  finish();
}
/* any gap pattern, then two operations */
void h_list_gaps(void) {
  start(NGAP, -1);
  for (int k = nm-1; k >= 0; k--) if (sx_pick("gap", 0, 1)) { List_Remi(L, k); mrem(k); }
  agree(L, mod, nm);
  for (int s = 0; s < 2; s++) step(sx_pick("op", 0, NOPS-1));
  finish();
}
/* growth across the allocation steps */
void h_list_grow(void) {
  start(0, 3); int n = sx_pick("grow", 1, 18); coarse = 1; int how = sx_pick("how", 0, 3);
  for (int k = 0; k < n; k++) { void *e = fresh(); 
    if (how == 0) { L = List_Add(L, e); mins(nm, e); } else if (how == 1) { L = List_ChknAdd(L, e); mins(nm, e); }
    else if (how == 2) { L = List_Inserti(L, e, nm/2); mins(nm/2, e); } else { L = List_Insert(L, e, nm ? mod[nm/2] : NULL); mins(nm/2, e); } }
  step(sx_pick("op", 0, NOPS-1)); 
  finish();
}
/* sorted removal: any gap pattern, any (strictly increasing) keys, any key sought */
static int key[MX];
static int getkey(void *e) { return key[(int *)e - pool]; }
void h_list_sorted(void) {
  start(0, 3); int n = sx_pick("m", 0, 5);
  for (int k = 0; k < n; k++) { key[k] = sx_int("key", -1000000, 1000000); if (k) sx_assume(key[k] > key[k-1]); void *e = fresh(); List_Add(L, e); mins(nm, e); }
  for (int k = n-1; k >= 0; k--) if (sx_pick("gap", 0, 1)) { List_Remi(L, k); mrem(k); }
  int w = sx_pick("seek", 0, nm); void *e;
  if (w < nm) e = mod[w];
  else { e = &pool[MX-1]; key[MX-1] = sx_int("absent", -1000001, 1000001); for (int k = 0; k < nm; k++) sx_assume(key[(int*)mod[k]-pool] != key[MX-1]); }
  int r = List_RemSorted(L, e, getkey);
  sx_assert(r == (w < nm), "RemSorted result"); if (w < nm) mrem(w);
  finish();
}
