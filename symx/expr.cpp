#include "expr.h"
#include <cmath>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <unistd.h>

// ------------------------------------------------------------------ storage
struct Key { uint8_t op, w; uint32_t c32; Expr *a, *b, *d; uint64_t c;
  bool operator==(const Key& o) const { return op == o.op && w == o.w && c32 == o.c32 && a == o.a && b == o.b && d == o.d && c == o.c; } };
struct KeyH { size_t operator()(const Key& k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.c32); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d); mix(k.c); return h; } };
static std::unordered_map<Key, Expr*, KeyH> tab;
static uint32_t nextId = 1;
static std::vector<std::string> vnames; static std::vector<int> vwidths; static std::vector<Expr*> vexprs;
static std::vector<uint64_t> mval;             // current model, by variable
static std::unordered_map<Expr*, uint64_t> mUF; // current model, UF applications
static std::vector<std::string> ufNames; static std::map<std::string, int> ufMap;
static uint32_t evStampNow = 1;
const std::string& varName(uint64_t i) { return vnames[i]; }
int ufIndex(const std::string& n) { auto it = ufMap.find(n); if (it != ufMap.end()) return it->second; int i = ufNames.size(); ufNames.push_back(n); ufMap[n] = i; return i; }
#define UFDEP(i) (0x80000000u | (i))

static int64_t satAdd(int64_t a, int64_t b, bool& ov) { int64_t r; ov |= __builtin_add_overflow(a, b, &r); return r; }
static int64_t satSub(int64_t a, int64_t b, bool& ov) { int64_t r; ov |= __builtin_sub_overflow(a, b, &r); return r; }
static int64_t satMul(int64_t a, int64_t b, bool& ov) { int64_t r; ov |= __builtin_mul_overflow(a, b, &r); return r; }
static int64_t smin(int w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static int64_t smax(int w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }
static bool isFPop(int op) { return op >= E_I2F && op <= E_FROUND; }

static void analyse(Expr* e) {
  int w = e->w; uint64_t m = maskw(w); Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  e->kz = 0; e->ko = 0; e->lo = smin(w); e->hi = smax(w);
  auto setIv = [&](int64_t lo, int64_t hi, bool ov) { if (!ov && lo >= smin(w) && hi <= smax(w)) { e->lo = lo; e->hi = hi; } };
  bool ov = false;
  switch (e->op) {
    case E_CONST: e->ko = e->c; e->kz = ~e->c & m; e->lo = e->hi = sextw(e->c, w); return;
    case E_AND: e->ko = a->ko & b->ko; e->kz = a->kz | b->kz; break;
    case E_OR: e->ko = a->ko | b->ko; e->kz = a->kz & b->kz; break;
    case E_XOR: e->ko = (a->ko & b->kz) | (a->kz & b->ko); e->kz = (a->ko & b->ko) | (a->kz & b->kz); break;
    case E_SHL: if (b->op == E_CONST && b->c < (uint64_t)w) { e->ko = (a->ko << b->c) & m; e->kz = ((a->kz << b->c) | maskw(b->c)) & m; if (b->c < 62) { int64_t f = 1ll << b->c; int64_t l = satMul(a->lo, f, ov), h = satMul(a->hi, f, ov); setIv(l, h, ov); } } break;
    case E_LSHR: if (b->op == E_CONST && b->c < (uint64_t)w) { e->ko = a->ko >> b->c; e->kz = (a->kz >> b->c) | (m & ~(m >> b->c)); if (a->lo >= 0) setIv(a->lo >> b->c, a->hi >> b->c, false); } break;
    case E_ASHR: if (b->op == E_CONST && b->c < (uint64_t)w) { setIv(a->lo >> b->c, a->hi >> b->c, false); uint64_t lowm = m >> b->c; e->ko = (a->ko >> b->c) & lowm; e->kz = (a->kz >> b->c) & lowm; } break;
    case E_ADD: { int64_t l = satAdd(a->lo, b->lo, ov), h = satAdd(a->hi, b->hi, ov); setIv(l, h, ov); break; }
    case E_SUB: { int64_t l = satSub(a->lo, b->hi, ov), h = satSub(a->hi, b->lo, ov); setIv(l, h, ov); break; }
    case E_MUL: { int64_t p[4] = {satMul(a->lo, b->lo, ov), satMul(a->lo, b->hi, ov), satMul(a->hi, b->lo, ov), satMul(a->hi, b->hi, ov)}; if (!ov) { int64_t l = *std::min_element(p, p + 4); if (a == b && l < 0) l = 0; setIv(l, *std::max_element(p, p + 4), false); } break; }
    case E_SREM: if (b->op == E_CONST && sextw(b->c, w) > 0) { int64_t d = sextw(b->c, w); setIv(a->lo >= 0 ? 0 : -(d - 1), d - 1, false); } break;
    case E_UREM: if (b->op == E_CONST && sextw(b->c, w) > 0) setIv(0, sextw(b->c, w) - 1, false); break;
    case E_SDIV: if (b->op == E_CONST && sextw(b->c, w) > 0) { int64_t d = sextw(b->c, w); setIv(a->lo / d, a->hi / d, false); } break;
    case E_UDIV: if (b->op == E_CONST && sextw(b->c, w) > 0 && a->lo >= 0) { int64_t d = sextw(b->c, w); setIv(a->lo / d, a->hi / d, false); } break;
    case E_ITE: e->ko = b->ko & c->ko; e->kz = b->kz & c->kz; e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); break;
    case E_EXTRACT: e->ko = (a->ko >> e->c32) & m; e->kz = (a->kz >> e->c32) & m; if (e->c32 == 0 && a->lo >= smin(w) && a->hi <= smax(w)) { e->lo = a->lo; e->hi = a->hi; } break;
    case E_CONCAT: e->ko = (a->ko << b->w) | b->ko; e->kz = (a->kz << b->w) | b->kz; break;
    case E_ZEXT: e->ko = a->ko; e->kz = a->kz | (m & ~maskw(a->w)); if (a->lo >= 0) { e->lo = a->lo; e->hi = a->hi; } else if (a->w < 64) { e->lo = 0; e->hi = (int64_t)maskw(a->w); } break;
    case E_SEXT: e->lo = a->lo; e->hi = a->hi; e->ko = a->ko & maskw(a->w - 1); e->kz = a->kz & maskw(a->w - 1);
      if (a->kz >> (a->w - 1) & 1) e->kz |= m & ~maskw(a->w - 1); if (a->ko >> (a->w - 1) & 1) e->ko |= m & ~maskw(a->w - 1); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FLT: case E_FLE: case E_FEQ: case E_FNEAR: case E_FISNAN: break;
    default: break;
  }
  // intervals <-> known bits
  if (e->kz >> (w - 1) & 1) { e->lo = std::max<int64_t>(e->lo, 0); int64_t mx = (int64_t)(~e->kz & m); if (mx >= 0) e->hi = std::min(e->hi, mx); e->lo = std::max<int64_t>(e->lo, (int64_t)e->ko); }
  if (e->lo >= 0) { int bits = e->hi ? 64 - __builtin_clzll((uint64_t)e->hi) : 0; e->kz |= m & ~maskw(bits); }
}

static Expr* intern(EOp op, int w, Expr* a, Expr* b, Expr* d, uint64_t c, uint32_t c32) {
  Key k{op, (uint8_t)w, c32, a, b, d, c};
  auto it = tab.find(k); if (it != tab.end()) return it->second;
  Expr* e = new Expr(); e->op = op; e->w = w; e->c = c; e->c32 = c32; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = nextId++;
  for (int i = 0; i < 3; i++) if (e->k[i]) e->flags |= e->k[i]->flags;
  if (isFPop(op)) e->flags |= X_FP;
  if (op >= E_MUL && op <= E_SREM) e->flags |= X_MULDIV;
  if (op == E_UF) e->flags |= X_UF;
  analyse(e); tab[k] = e; return e;
}
Expr* eConst(uint64_t v, int w) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w), 0); }
Expr* eVar(const std::string& name, int w, int64_t lo, int64_t hi, uint8_t flags) {
  uint64_t i = vnames.size(); vnames.push_back(name); vwidths.push_back(w); mval.push_back(0);
  Expr* e = intern(E_VAR, w, 0, 0, 0, i, 0); e->flags |= flags; e->lo = lo; e->hi = hi; if (lo >= 0) { int bits = hi ? 64 - __builtin_clzll((uint64_t)hi) : 0; e->kz |= maskw(w) & ~maskw(bits); }
  vexprs.push_back(e); return e;
}
static bool isC(Expr* e) { return e->op == E_CONST; }
static bool isC(Expr* e, uint64_t v) { return e->op == E_CONST && e->c == (v & maskw(e->w)); }
static bool isBool(Expr* e) { return e->w == 1; }

static uint64_t foldOp(int op, int w, uint64_t a, uint64_t b, uint64_t c, int wa, int wb, uint32_t c32) {
  uint64_t m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case E_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= (uint64_t)w ? 0 : (a << b) & m; case E_LSHR: return b >= (uint64_t)w ? 0 : a >> b;
    case E_ASHR: return (uint64_t)(sextw(a, w) >> (b >= (uint64_t)w ? w - 1 : b)) & m;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sextw(a, wa) < sextw(b, wa); case E_SLE: return sextw(a, wa) <= sextw(b, wa);
    case E_ITE: return a ? b : c; case E_EXTRACT: return (a >> c32) & m; case E_CONCAT: return ((a << wb) | b) & m;
    case E_ZEXT: return a; case E_SEXT: return (uint64_t)sextw(a, wa) & m;
    case E_I2F: return dbits((double)sextw(a, wa));
    case E_FADD: return dbits(asD(a) + asD(b)); case E_FSUB: return dbits(asD(a) - asD(b));
    case E_FMUL: return dbits(asD(a) * asD(b)); case E_FDIV: return dbits(asD(a) / asD(b)); case E_FSQRT: return dbits(std::sqrt(asD(a)));
    case E_FLT: return asD(a) < asD(b); case E_FLE: return asD(a) <= asD(b); case E_FEQ: return asD(a) == asD(b); case E_FISNAN: return asD(a) != asD(a);
    case E_FNEAR: { double x = asD(a), y = asD(b); return std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y)); }
    case E_F2I: { double d = asD(a); return (d >= 9.3e18 || d <= -9.3e18 || d != d) ? (1ull << (w - 1)) : (uint64_t)(int64_t)d & m; }
    case E_F64TO32: return fbits((float)asD(a)); case E_F32TO64: return dbits((double)asF(a));
    case E_FROUND: return dbits(c32 == 0 ? std::floor(asD(a)) : c32 == 1 ? std::ceil(asD(a)) : std::trunc(asD(a)));
  }
  return 0;
}

// an expression that agrees with e on the bits of mask
static Expr* SD(Expr* e, uint64_t mask, int depth = 0) {
  mask &= maskw(e->w);
  if (e->op == E_CONST) return e;
  if (e->known) return eConst(e->kv, e->w);
  if (((e->kz | e->ko) & mask) == mask) return eConst(e->ko & mask, e->w);
  if (depth > 24) return e;
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case E_AND:
      if (isC(b)) { Expr* a2 = SD(a, mask & b->c, depth + 1); if ((mask & ~b->c & ~a2->kz) == 0) return a2; return a2 == a ? e : eMk(E_AND, e->w, a2, b); }
      { Expr* a2 = SD(a, mask & ~b->kz, depth + 1); Expr* b2 = SD(b, mask & ~a->kz, depth + 1); return (a2 == a && b2 == b) ? e : eMk(E_AND, e->w, a2, b2); }
    case E_OR: {
      Expr* a2 = SD(a, mask & ~b->ko, depth + 1); Expr* b2 = SD(b, mask & ~a->ko, depth + 1);
      if ((a2->kz & mask) == mask) return b2; if ((b2->kz & mask) == mask) return a2;
      return (a2 == a && b2 == b) ? e : eMk(E_OR, e->w, a2, b2); }
    case E_XOR: { Expr* a2 = SD(a, mask, depth + 1); Expr* b2 = SD(b, mask, depth + 1);
      if ((a2->kz & mask) == mask) return b2; if ((b2->kz & mask) == mask) return a2;
      return (a2 == a && b2 == b) ? e : eMk(E_XOR, e->w, a2, b2); }
    case E_SHL: if (isC(b) && b->c < e->w) { uint64_t k = b->c; if (a->op == E_LSHR && isC(a->k[1], k) && (mask & maskw(k)) == 0) return SD(a->k[0], mask, depth + 1);
        Expr* a2 = SD(a, mask >> k, depth + 1); return a2 == a ? e : eMk(E_SHL, e->w, a2, b); } return e;
    case E_LSHR: if (isC(b) && b->c < e->w) { uint64_t k = b->c; if (a->op == E_SHL && isC(a->k[1], k) && (mask & ~(maskw(e->w) >> k)) == 0) return SD(a->k[0], mask, depth + 1);
        Expr* a2 = SD(a, (mask << k) & maskw(e->w), depth + 1); return a2 == a ? e : eMk(E_LSHR, e->w, a2, b); } return e;
    case E_ASHR: if (isC(b) && b->c < e->w) { uint64_t k = b->c; if ((mask & ~(maskw(e->w) >> k)) == 0) return SD(eMk(E_LSHR, e->w, a, b), mask, depth + 1); } return e;
    case E_ZEXT: { Expr* a2 = SD(a, mask, depth + 1); return a2 == a ? e : eMk(E_ZEXT, e->w, a2); }
    case E_SEXT: { if ((mask & ~maskw(a->w)) == 0) return eMk(E_ZEXT, e->w, SD(a, mask, depth + 1)); return e; }
    case E_EXTRACT: { Expr* a2 = SD(a, mask << e->c32, depth + 1); return a2 == a ? e : eExtract(a2, e->c32, e->w); }
    case E_CONCAT: { Expr* a2 = SD(a, mask >> b->w, depth + 1); Expr* b2 = SD(b, mask, depth + 1); return (a2 == a && b2 == b) ? e : eMk(E_CONCAT, e->w, a2, b2); }
    case E_ITE: { Expr* b2 = SD(b, mask, depth + 1); Expr* c2 = SD(e->k[2], mask, depth + 1); return (b2 == b && c2 == e->k[2]) ? e : eMk(E_ITE, e->w, a, b2, c2); }
  }
  return e;
}
Expr* eExtract(Expr* a, int lo, int w) {
  if (a->known) a = eConst(a->kv, a->w);
  if (isC(a)) return eConst(a->c >> lo, w);
  if (lo == 0 && w == a->w) return a;
  a = SD(a, maskw(w) << lo);
  if (isC(a)) return eConst(a->c >> lo, w);
  switch (a->op) {
    case E_EXTRACT: return eExtract(a->k[0], lo + a->c32, w);
    case E_CONCAT: { int bw = a->k[1]->w; if (lo >= bw) return eExtract(a->k[0], lo - bw, w); if (lo + w <= bw) return eExtract(a->k[1], lo, w); break; }
    case E_ZEXT: case E_SEXT: { int aw = a->k[0]->w; if (lo + w <= aw) return eExtract(a->k[0], lo, w); if (a->op == E_ZEXT && lo >= aw) return eConst(0, w);
      if (lo == 0 && w > aw) return eMk((EOp)a->op, w, a->k[0]); break; }
    case E_AND: case E_OR: case E_XOR: if (isC(a->k[1])) return eMk((EOp)a->op, w, eExtract(a->k[0], lo, w), eConst(a->k[1]->c >> lo, w)); break;
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return eMk((EOp)a->op, w, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w)); break;
    case E_LSHR: if (isC(a->k[1]) && lo + w + a->k[1]->c <= a->w) return eExtract(a->k[0], lo + a->k[1]->c, w); break;
    case E_SHL: if (isC(a->k[1])) { if ((uint64_t)lo >= a->k[1]->c) return eExtract(a->k[0], lo - a->k[1]->c, w); } break;
    case E_ITE: if (isC(a->k[1]) || isC(a->k[2])) return eMk(E_ITE, w, a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w)); break;
  }
  return intern(E_EXTRACT, w, a, 0, 0, 0, lo);
}
Expr* eNot(Expr* a) {
  if (isC(a)) return eConst(!a->c, 1);
  return eMk(E_XOR, 1, a, eConst(1, 1));
}
static bool intD(uint64_t bits, int64_t& v) { double d = asD(bits); if (d != d || d > 4e15 || d < -4e15) return false; v = (int64_t)d; return (double)v == d; }
// integer-valued double: returns a 64-bit signed integer expression or null
static Expr* asIntD(Expr* e) {
  if (e->op == E_I2F) { Expr* a = e->k[0]; if (a->lo < -(1ll << 52) || a->hi > (1ll << 52)) return nullptr; return a->w == 64 ? a : eMk(E_SEXT, 64, a); }
  if (e->op == E_CONST) { int64_t v; if (intD(e->c, v)) return eConst((uint64_t)v, 64); return nullptr; }
  if (e->op == E_ITE) { Expr* x = asIntD(e->k[1]); if (!x) return nullptr; Expr* y = asIntD(e->k[2]); if (!y) return nullptr; return eMk(E_ITE, 64, e->k[0], x, y); }
  return nullptr;
}
static bool inR(Expr* e) { return e->lo >= -(1ll << 52) && e->hi <= (1ll << 52); }
// exact dyadic x * 2^-s (|x| <= 2^52, 0 <= s <= 40), canonically E_FMUL(E_I2F x, 2^-s)
static bool pow2(uint64_t bits, int& k) { double d = asD(bits); int ex; if (!(d > 0) || std::frexp(d, &ex) != 0.5) return false; k = ex - 1; return k >= -40 && k <= 40; }
static Expr* i2f(Expr* e);
static bool align2(Expr*& x, int& sx, Expr*& y, int& sy);
static Expr* asDy(Expr* e, int& s) {
  s = 0; int k;
  if (e->op == E_FMUL && isC(e->k[1]) && e->k[0]->op == E_I2F && pow2(e->k[1]->c, k) && k < 0) { Expr* x = asIntD(e->k[0]); if (x) { s = -k; return x; } return nullptr; }
  if (e->op == E_CONST) { double d = asD(e->c); if (d != d || std::fabs(d) > 1e12) return nullptr; for (s = 0; s <= 40; s++) { double z = std::ldexp(d, s); if (std::fabs(z) > 4e15) return nullptr; if (z == std::floor(z)) return eConst((uint64_t)(int64_t)z, 64); } return nullptr; }
  if (Expr* x = asIntD(e)) return x;
  if (e->op == E_ITE) { int sx, sy; Expr* x = asDy(e->k[1], sx); Expr* y = x ? asDy(e->k[2], sy) : nullptr; if (!y || !align2(x, sx, y, sy)) return nullptr; s = sx; return eMk(E_ITE, 64, e->k[0], x, y); }
  return nullptr;
}
static Expr* up(Expr* x, int k) { if (!k) return x; if (k > 50) return nullptr; Expr* z = eMk(E_MUL, 64, x, eConst(1ull << k, 64)); int64_t b = (1ll << 52) >> k; return x->lo >= -b && x->hi <= b ? z : nullptr; }
static bool align2(Expr*& x, int& sx, Expr*& y, int& sy) { int s = sx > sy ? sx : sy; x = up(x, s - sx); y = up(y, s - sy); sx = sy = s; return x && y; }
static Expr* mkDy(Expr* x, int s);
bool eIsDy(Expr* e) { int s; return asDy(e, s) != nullptr; }
// largest absolute value, or infinity if not known to be finite (then NaN is possible)
static double maxAbs(Expr* e, int d = 0) {
  int s; if (Expr* x = asDy(e, s)) return std::ldexp(std::fmax(std::fabs((double)x->lo), std::fabs((double)x->hi)), -s);
  if (d > 12) return INFINITY; double a, b;
  switch (e->op) {
    case E_CONST: { double v = std::fabs(asD(e->c)); return v == v ? v : INFINITY; }
    case E_FADD: case E_FSUB: a = maxAbs(e->k[0], d + 1); b = maxAbs(e->k[1], d + 1); a = (a + b) * 1.0000001; return a < 1e300 ? a : INFINITY;
    case E_FMUL: a = maxAbs(e->k[0], d + 1); b = maxAbs(e->k[1], d + 1); a = a * b * 1.0000001; return a < 1e300 ? a : INFINITY;
    case E_FDIV: if (isC(e->k[1]) && std::fabs(asD(e->k[1]->c)) > 1e-9) { a = maxAbs(e->k[0], d + 1) * 1.0000001 / std::fabs(asD(e->k[1]->c)); return a < 1e300 ? a : INFINITY; } return INFINITY;
    case E_ITE: a = maxAbs(e->k[1], d + 1); b = maxAbs(e->k[2], d + 1); return a > b ? a : b;
    default: return INFINITY;
  }
}
static Expr* i2f(Expr* e) { return isC(e) ? eConst(dbits((double)(int64_t)e->c), 64) : intern(E_I2F, 64, e, 0, 0, 0, 0); }

Expr* eMk(EOp op, int w, Expr* a, Expr* b, Expr* c, uint64_t imm, uint32_t c32) {
  if (a && a->known) a = eConst(a->kv, a->w);
  if (b && b->known) b = eConst(b->kv, b->w);
  if (c && c->known) c = eConst(c->kv, c->w);
  if (op != E_UF && (!a || isC(a)) && (!b || isC(b)) && (!c || isC(c)))
    return eConst(foldOp(op, w, a->c, b ? b->c : 0, c ? c->c : 0, a->w, b ? b->w : 0, c32), w);
  uint64_t m = maskw(w);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id < b->id))) std::swap(a, b);
  Expr* r = nullptr;
  switch (op) {
    case E_ADD:
      if (isC(b)) { if (!b->c) return a; if (a->op == E_ADD && isC(a->k[1])) return eMk(E_ADD, w, a->k[0], eConst(a->k[1]->c + b->c, w));
        if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return eMk(E_ITE, w, a->k[0], eMk(E_ADD, w, a->k[1], b), eMk(E_ADD, w, a->k[2], b));
        if (a->op == E_SUB && isC(a->k[0])) return eMk(E_SUB, w, eConst(a->k[0]->c + b->c, w), a->k[1]); }
      if (a->op == E_SUB && a->k[1] == b) return a->k[0]; if (b->op == E_SUB && b->k[1] == a) return b->k[0];
      if (a->op == E_ADD && isC(a->k[1])) return eMk(E_ADD, w, eMk(E_ADD, w, a->k[0], b), a->k[1]);
      if (b->op == E_ADD && isC(b->k[1])) return eMk(E_ADD, w, eMk(E_ADD, w, a, b->k[0]), b->k[1]);
      break;
    case E_SUB: if (a == b) return eConst(0, w); if (isC(b)) return eMk(E_ADD, w, a, eConst(0 - b->c, w));
      if (a->op == E_ADD && a->k[0] == b) return a->k[1]; if (a->op == E_ADD && a->k[1] == b) return a->k[0];
      if (b->op == E_ADD && isC(b->k[1])) return eMk(E_ADD, w, eMk(E_SUB, w, a, b->k[0]), eConst(0 - b->k[1]->c, w));
      if (a->op == E_ADD && isC(a->k[1])) return eMk(E_ADD, w, eMk(E_SUB, w, a->k[0], b), a->k[1]);
      break;
    case E_MUL: if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a; if (a->op == E_MUL && isC(a->k[1])) return eMk(E_MUL, w, a->k[0], eConst(a->k[1]->c * b->c, w));
        if ((b->c & (b->c - 1)) == 0) { r = intern(E_SHL, w, a, eConst(__builtin_ctzll(b->c), w), 0, 0, 0); return r; } } break;
    case E_UDIV: if (isC(b) && b->c == 1) return a; if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return eMk(E_LSHR, w, a, eConst(__builtin_ctzll(b->c), w)); break;
    case E_SDIV: if (isC(b) && b->c == 1) return a;
      if (isC(b) && (int64_t)sextw(b->c, w) > 0 && a->op == E_MUL && isC(a->k[1]) && a->k[1]->c == b->c && a->k[0]->lo >= smin(w) / (int64_t)b->c && a->k[0]->hi <= smax(w) / (int64_t)b->c) return a->k[0];
      if (isC(b) && a->lo >= 0) { if ((b->c & (b->c - 1)) == 0 && b->c) return eMk(E_LSHR, w, a, eConst(__builtin_ctzll(b->c), w)); } 
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0 && (int64_t)sextw(b->c, w) > 0 && (~a->kz & (b->c - 1)) == 0) return eMk(E_ASHR, w, a, eConst(__builtin_ctzll(b->c), w));
      break;
    case E_UREM: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return eMk(E_AND, w, a, eConst(b->c - 1, w)); if (isC(b) && a->lo >= 0 && a->hi < sextw(b->c, w)) return a; break;
    case E_SREM: if (isC(b) && a->lo >= 0 && b->c && (b->c & (b->c - 1)) == 0 && (int64_t)sextw(b->c, w) > 0) return eMk(E_AND, w, a, eConst(b->c - 1, w)); if (isC(b) && a->lo >= 0 && a->hi < sextw(b->c, w)) return a; break;
    case E_AND: if (a == b) return a; if (isC(b)) { if (!b->c) return b; if (b->c == m) return a;
        if (a->op == E_AND && isC(a->k[1])) return eMk(E_AND, w, a->k[0], eConst(a->k[1]->c & b->c, w));
        Expr* a2 = SD(a, b->c); if (a2 != a) return eMk(E_AND, w, a2, b);
        if ((~b->c & m & ~a->kz) == 0) return a; }
      if (isBool(a) && ((a->op == E_XOR && isC(a->k[1]) && a->k[0] == b) || (b->op == E_XOR && isC(b->k[1]) && b->k[0] == a))) return eConst(0, 1);
      break;
    case E_OR: if (a == b) return a; if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; Expr* a2 = SD(a, m & ~b->c); if (a2 != a) return eMk(E_OR, w, a2, b); }
      if (isBool(a) && ((a->op == E_XOR && isC(a->k[1]) && a->k[0] == b) || (b->op == E_XOR && isC(b->k[1]) && b->k[0] == a))) return eConst(1, 1);
      if ((a->kz & m) == m) return b; if ((b->kz & m) == m) return a;
      // reassemble (x & c1) | (x & c2)
      if (a->op == E_AND && b->op == E_AND && isC(a->k[1]) && isC(b->k[1]) && a->k[0] == b->k[0]) return eMk(E_AND, w, a->k[0], eConst(a->k[1]->c | b->k[1]->c, w));
      break;
    case E_XOR: if (a == b) return eConst(0, w); if (isC(b)) { if (!b->c) return a; if (a->op == E_XOR && isC(a->k[1])) return eMk(E_XOR, w, a->k[0], eConst(a->k[1]->c ^ b->c, w));
        if (w == 1) { if (a->op == E_ULT) return eMk(E_ULE, 1, a->k[1], a->k[0]); if (a->op == E_ULE) return eMk(E_ULT, 1, a->k[1], a->k[0]);
          if (a->op == E_SLT) return eMk(E_SLE, 1, a->k[1], a->k[0]); if (a->op == E_SLE) return eMk(E_SLT, 1, a->k[1], a->k[0]); } }
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (isC(b)) { if (!b->c) return a; if (b->c >= (uint64_t)w && op != E_ASHR) return eConst(0, w);
        if (op == E_ASHR && a->lo >= 0) return eMk(E_LSHR, w, a, b);
        if (op == E_LSHR) { Expr* a2 = SD(a, m << b->c & m); if (a2 != a) return eMk(op, w, a2, b); if (a->op == E_LSHR && isC(a->k[1])) return eMk(op, w, a->k[0], eConst(std::min<uint64_t>(64, a->k[1]->c + b->c), w)); }
        if (op == E_SHL) { Expr* a2 = SD(a, m >> b->c); if (a2 != a) return eMk(op, w, a2, b); if (a->op == E_SHL && isC(a->k[1])) return a->k[1]->c + b->c >= (uint64_t)w ? eConst(0, w) : eMk(op, w, a->k[0], eConst(a->k[1]->c + b->c, w)); }
        if (op == E_ASHR && a->op == E_SHL && isC(a->k[1], b->c)) { Expr* x = eExtract(a->k[0], 0, w - b->c); return eMk(E_SEXT, w, x); }
        if (op == E_LSHR && a->op == E_SHL && isC(a->k[1], b->c)) return eMk(E_AND, w, a->k[0], eConst(m >> b->c, w)); }
      break;
    case E_EQ:
      if (a == b) return eConst(1, 1);
      if (a->lo > b->hi || b->lo > a->hi) return eConst(0, 1);
      if ((a->ko & b->kz) | (a->kz & b->ko)) return eConst(0, 1);
      if (isC(b)) {
        if (a->w == 1) return b->c ? a : eNot(a);
        if (a->op == E_ADD && isC(a->k[1])) return eMk(E_EQ, 1, a->k[0], eConst(b->c - a->k[1]->c, a->w));
        if (a->op == E_ZEXT) return eMk(E_EQ, 1, a->k[0], eConst(b->c, a->k[0]->w));
        if (a->op == E_SEXT) { uint64_t t = b->c & maskw(a->k[0]->w); if (((uint64_t)sextw(t, a->k[0]->w) & maskw(a->w)) != b->c) return eConst(0, 1); return eMk(E_EQ, 1, a->k[0], eConst(t, a->k[0]->w)); }
        if (a->op == E_XOR && isC(a->k[1])) return eMk(E_EQ, 1, a->k[0], eConst(b->c ^ a->k[1]->c, a->w));
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) { bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c; if (t && f) return eConst(1, 1); if (t) return a->k[0]; if (f) return eNot(a->k[0]); return eConst(0, 1); }
        if (a->op == E_ITE && isC(a->k[1]) && a->k[1]->c != b->c) return eMk(E_AND, 1, eNot(a->k[0]), eMk(E_EQ, 1, a->k[2], b));
        if (a->op == E_ITE && isC(a->k[2]) && a->k[2]->c != b->c) return eMk(E_AND, 1, a->k[0], eMk(E_EQ, 1, a->k[1], b));
        if (a->op == E_SUB && isC(a->k[0])) return eMk(E_EQ, 1, a->k[1], eConst(a->k[0]->c - b->c, a->w));
        if (a->op == E_SUB && b->c == 0) return eMk(E_EQ, 1, a->k[0], a->k[1]);
        if (a->op == E_SHL && isC(a->k[1]) && a->k[1]->c < a->w) { uint64_t k = a->k[1]->c; if (b->c & maskw(k)) return eConst(0, 1); return eMk(E_EQ, 1, eMk(E_AND, a->w, a->k[0], eConst(maskw(a->w) >> k, a->w)), eConst(b->c >> k, a->w)); }
      } else {
        if (a->op == E_ADD && isC(a->k[1]) && a->k[0] == b) return eConst(0, 1);
        if (b->op == E_ADD && isC(b->k[1]) && b->k[0] == a) return eConst(0, 1);
        if ((a->op == E_ZEXT || a->op == E_SEXT) && b->op == a->op && a->k[0]->w == b->k[0]->w) return eMk(E_EQ, 1, a->k[0], b->k[0]);
        if (a->op == E_ADD && b->op == E_ADD && isC(a->k[1]) && isC(b->k[1])) return eMk(E_EQ, 1, eMk(E_ADD, a->w, a->k[0], eConst(a->k[1]->c - b->k[1]->c, a->w)), b->k[0]);
      }
      break;
    case E_ULT: if (a == b) return eConst(0, 1); if (isC(b) && b->c == 0) return eConst(0, 1);
      if (a->lo >= 0 && b->lo >= 0) { if (a->hi < b->lo) return eConst(1, 1); if (a->lo >= b->hi) return eConst(0, 1); }
      else if (isC(b) && a->lo >= 0 && b->hi < 0) return eConst(1, 1);
      if ((~a->kz & maskw(a->w)) < b->ko) return eConst(1, 1); if (a->ko >= (~b->kz & maskw(b->w))) return eConst(0, 1);
      break;
    case E_ULE: if (a == b) return eConst(1, 1); if (isC(a) && a->c == 0) return eConst(1, 1);
      if (a->lo >= 0 && b->lo >= 0) { if (a->hi <= b->lo) return eConst(1, 1); if (a->lo > b->hi) return eConst(0, 1); }
      if ((~a->kz & maskw(a->w)) <= b->ko) return eConst(1, 1); if (a->ko > (~b->kz & maskw(b->w))) return eConst(0, 1);
      break;
    case E_SLT: if (a == b) return eConst(0, 1); if (a->hi < b->lo) return eConst(1, 1); if (a->lo >= b->hi) return eConst(0, 1);
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return eMk(op, 1, a->k[0], b->k[0]); break;
    case E_SLE: if (a == b) return eConst(1, 1); if (a->hi <= b->lo) return eConst(1, 1); if (a->lo > b->hi) return eConst(0, 1);
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return eMk(op, 1, a->k[0], b->k[0]); break;
    case E_ITE: if (isC(a)) return a->c ? b : c; if (b == c) return b;
      if (a->op == E_XOR && isC(a->k[1])) return eMk(E_ITE, w, a->k[0], c, b);
      if (w == 1) { if (isC(b) && isC(c)) return b->c ? a : eNot(a); if (isC(b)) return b->c ? eMk(E_OR, 1, a, c) : eMk(E_AND, 1, eNot(a), c); if (isC(c)) return c->c ? eMk(E_OR, 1, eNot(a), b) : eMk(E_AND, 1, a, b); }
      break;
    case E_CONCAT: if (isC(a) && a->c == 0) return eMk(E_ZEXT, w, b);
      if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->k[0] == b->k[0] && a->c32 == b->c32 + b->w) return eExtract(a->k[0], b->c32, w);
      if (a->op == E_EXTRACT && b->op != E_EXTRACT && a->k[0] == b && a->c32 == b->w) break;
      if (b->op == E_CONCAT && a->op == E_EXTRACT && b->k[0]->op == E_EXTRACT && a->k[0] == b->k[0]->k[0] && a->c32 == b->k[0]->c32 + b->k[0]->w) return eMk(E_CONCAT, w, eExtract(a->k[0], b->k[0]->c32, a->w + b->k[0]->w), b->k[1]);
      break;
    case E_ZEXT: if (w == a->w) return a; if (a->op == E_ZEXT) return eMk(E_ZEXT, w, a->k[0]); 
      if (a->op == E_EXTRACT && a->c32 == 0 && a->k[0]->w == w && (a->k[0]->kz | maskw(a->w)) == m) return a->k[0];
      break;
    case E_SEXT: if (w == a->w) return a; if (a->op == E_SEXT) return eMk(E_SEXT, w, a->k[0]); if (a->op == E_ZEXT || (a->kz >> (a->w - 1) & 1)) return eMk(E_ZEXT, w, a);
      if (a->op == E_EXTRACT && a->c32 == 0 && a->k[0]->w == w && a->k[0]->lo >= smin(a->w) && a->k[0]->hi <= smax(a->w)) return a->k[0];
      break;
    case E_I2F: return i2f(a->w == 64 ? a : eMk(E_SEXT, 64, a));
    case E_FADD: case E_FSUB: case E_FMUL: {
      if (op == E_FMUL) { if (isC(b) && b->c == dbits(1.0)) return a; if (isC(a) && a->c == dbits(1.0)) return b; }
      Expr* x = asIntD(a); Expr* y = x ? asIntD(b) : nullptr;
      if (x && y) { Expr* z = eMk(op == E_FADD ? E_ADD : op == E_FSUB ? E_SUB : E_MUL, 64, x, y); if (inR(z)) return i2f(z); }
      int sa, sb; x = asDy(a, sa); y = x ? asDy(b, sb) : nullptr;
      if (x && y && !(sa == 0 && sb == 0)) {
        if (op == E_FMUL) { if (sa + sb <= 40) { Expr* z = eMk(E_MUL, 64, x, y); if (inR(z)) { if (!(isC(b) && x->op != E_CONST && b->c == dbits(std::ldexp(1.0, -sb)) && sa == 0)) return mkDy(z, sa + sb); return mkDy(x, sb); } } }
        else if (align2(x, sa, y, sb)) { Expr* z = eMk(op == E_FADD ? E_ADD : E_SUB, 64, x, y); if (inR(z)) return mkDy(z, sa); }
      }
      if (op != E_FSUB && a->id < b->id) std::swap(a, b);
      break; }
    case E_FDIV: if (isC(b) && b->c == dbits(1.0)) return a;
      if (isC(b)) { int k, s; uint64_t ab = b->c & ~(1ull << 63); if (pow2(ab, k)) { Expr* x = asDy(a, s); if (x && s + k <= 40 && s + k >= 0) { if (ab != b->c) x = eMk(E_SUB, 64, eConst(0, 64), x); return mkDy(x, s + k); } } }
      break;
    case E_FLT: case E_FLE: case E_FEQ: {
      Expr* x = asIntD(a); Expr* y = asIntD(b);
      if (x && y) return eMk(op == E_FLT ? E_SLT : op == E_FLE ? E_SLE : E_EQ, 1, x, y);
      if (x && isC(b)) { double d = asD(b->c); if (d == d && std::fabs(d) < 1e15) { if (op == E_FEQ) return eConst(0, 1); return eMk(E_SLE, 1, x, eConst((uint64_t)(int64_t)std::floor(d), 64)); } }
      if (y && isC(a)) { double d = asD(a->c); if (d == d && std::fabs(d) < 1e15) { if (op == E_FEQ) return eConst(0, 1); return eMk(E_SLE, 1, eConst((uint64_t)(int64_t)std::ceil(d), 64), y); } }
      { int sa, sb; Expr* p = asDy(a, sa); Expr* q = asDy(b, sb);
        if (p && q && align2(p, sa, q, sb)) return eMk(op == E_FLT ? E_SLT : op == E_FLE ? E_SLE : E_EQ, 1, p, q);
        if (p && !q && isC(b)) { double d = std::ldexp(asD(b->c), sa); if (d == d && std::fabs(asD(b->c)) < 1e12 && std::fabs(d) < 1e15) { if (op == E_FEQ) return eConst(0, 1); return eMk(E_SLE, 1, asDy(a, sa), eConst((uint64_t)(int64_t)std::floor(d), 64)); } }
        if (q && !p && isC(a)) { double d = std::ldexp(asD(a->c), sb); if (d == d && std::fabs(asD(a->c)) < 1e12 && std::fabs(d) < 1e15) { if (op == E_FEQ) return eConst(0, 1); return eMk(E_SLE, 1, eConst((uint64_t)(int64_t)std::ceil(d), 64), asDy(b, sb)); } } }
      if (a == b && op != E_FLT && maxAbs(a) < INFINITY) return eConst(1, 1);
      if (a == b && op == E_FLT) return eConst(0, 1);
      if (op == E_FEQ && a->id < b->id) std::swap(a, b);
      // sqrt of an integer-valued double against a non-negative constant whose square is exact
      if (a->op == E_FSQRT && isC(b)) { double d = asD(b->c); if (op != E_FEQ) { if (d < 0) return eConst(0, 1); } if (op == E_FEQ && d == 0) return eMk(E_FEQ, 1, a->k[0], b); }
      if (b->op == E_FSQRT && isC(a)) { double d = asD(a->c); if (op == E_FLT && d == 0) return eMk(E_FLT, 1, a, b->k[0]); if (op == E_FEQ && d == 0) return eMk(E_FEQ, 1, b->k[0], a); }
      if (a->op == E_FSQRT && b->op == E_FSQRT && false) break;
      break; }
    case E_FNEAR: if (a == b && maxAbs(a) < 1e300) return eConst(1, 1); if (a->id > b->id) std::swap(a, b); break;
    case E_FISNAN: if (maxAbs(a) < INFINITY) return eConst(0, 1); break;
    case E_F2I: { Expr* x = asIntD(a); if (x) { if (w == 64) return x; if (x->lo >= smin(w) && x->hi <= smax(w)) return eExtract(x, 0, w); } break; }
    case E_FROUND: if (asIntD(a)) return a; break;
    default: break;
  }
  return intern(op, w, a, b, c, imm, c32);
}
static Expr* mkDy(Expr* x, int s) {
  if (isC(x)) return eConst(dbits(std::ldexp((double)(int64_t)x->c, -s)), 64);
  return s ? intern(E_FMUL, 64, i2f(x), eConst(dbits(std::ldexp(1.0, -s)), 64), 0, 0, 0) : i2f(x);
}

// ------------------------------------------------------------------ evaluation
static bool evOK;
static const ModelVals* evOver; static std::unordered_map<uint32_t, uint64_t> evMap; static std::unordered_map<Expr*, uint64_t> evUF;
static uint64_t evalR(Expr* e) {
  if (e->op == E_CONST) return e->c;
  if (e->known && !evOver) return e->kv;
  if (e->evStamp == evStampNow) return e->ev;
  uint64_t r = 0;
  if (e->op == E_VAR) { r = mval[e->c]; if (evOver) { auto it = evMap.find((uint32_t)e->c); if (it != evMap.end()) r = it->second; } }
  else if (e->op == E_UF) { if (evOver) { auto it = evUF.find(e); if (it != evUF.end()) { e->evStamp = evStampNow; return e->ev = it->second; } }
    auto it = mUF.find(e); if (it == mUF.end()) { evOK = false; r = 0; } else r = it->second; }
  else {
    uint64_t a = evalR(e->k[0]), b = 0, c = 0;
    if (e->op == E_ITE) { r = a ? evalR(e->k[1]) : evalR(e->k[2]); }
    else { if (e->k[1]) b = evalR(e->k[1]); if (e->k[2]) c = evalR(e->k[2]); r = foldOp(e->op, e->w, a, b, c, e->k[0]->w, e->k[1] ? e->k[1]->w : 0, e->c32); }
  }
  e->evStamp = evStampNow; e->ev = r; return r;
}
uint64_t evalModel(Expr* e) { evOver = nullptr; evOK = true; return evalR(e); }
bool modelValid(Expr* e) { if (!(e->flags & X_UF)) return true; evOver = nullptr; evStampNow++; evOK = true; evalR(e); if (!evOK) evStampNow++; return evOK; }
uint64_t evalModelWith(Expr* e, const ModelVals& m) {
  evMap.clear(); evUF.clear(); for (auto& p : m.v) evMap[p.first] = p.second; for (auto& p : m.uf) evUF[p.first] = p.second;
  evOver = &m; evStampNow++; evOK = true; uint64_t r = evalR(e); evOver = nullptr; evStampNow++; return r;
}
void markKnown(Expr* e, uint64_t v) { if (e->op == E_CONST) return; e->known = true; e->kv = v & maskw(e->w);
  // propagate through simple injective wrappers
  if (e->op == E_ZEXT || e->op == E_SEXT) markKnown(e->k[0], e->kv & maskw(e->k[0]->w));
  else if (e->op == E_ADD && e->k[1]->op == E_CONST) markKnown(e->k[0], e->kv - e->k[1]->c);
}

// ------------------------------------------------------------------ z3
static Z3_context Z; static Z3_sort bvs[65], fp64s, fp32s; static Z3_ast rne;
SolverStats gSol; static Z3_solver zSimple; static uint64_t gRlimit = 60000000;
static std::vector<Z3_func_decl> ufDecl;
static Z3_sort bvsort(int w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, bvs[w])); } return bvs[w]; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast zbv(Expr* e); static Z3_ast zbool(Expr* e); static Z3_ast zfp(Expr* e);
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error %s\n", Z3_get_error_msg(c, e)); abort(); }
void solverInit() {
  Z3_global_param_set("smt.random_seed", "0");
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, zerr);
  fp64s = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, fp64s)); fp32s = Z3_mk_fpa_sort_single(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, fp32s));
  rne = keep(Z3_mk_fpa_rne(Z));
  zSimple = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, zSimple);
  if (getenv("SYMX_RLIMIT")) gRlimit = strtoull(getenv("SYMX_RLIMIT"), 0, 10);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)gRlimit); Z3_solver_set_params(Z, zSimple, p);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, bvsort(1)), Z3_mk_unsigned_int64(Z, 0, bvsort(1))); }
static Z3_ast zfp(Expr* e) {
  if (e->zf) return e->zf; Z3_ast r;
  switch (e->op) {
    case E_I2F: r = Z3_mk_fpa_to_fp_signed(Z, rne, zbv(e->k[0]), fp64s); break;
    case E_FADD: r = Z3_mk_fpa_add(Z, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FSUB: r = Z3_mk_fpa_sub(Z, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FMUL: r = Z3_mk_fpa_mul(Z, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FDIV: r = Z3_mk_fpa_div(Z, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FSQRT: r = Z3_mk_fpa_sqrt(Z, rne, zfp(e->k[0])); break;
    case E_F32TO64: r = Z3_mk_fpa_to_fp_float(Z, rne, Z3_mk_fpa_to_fp_bv(Z, zbv(e->k[0]), fp32s), fp64s); break;
    case E_FROUND: r = Z3_mk_fpa_round_to_integral(Z, e->c32 == 0 ? Z3_mk_fpa_rtn(Z) : e->c32 == 1 ? Z3_mk_fpa_rtp(Z) : Z3_mk_fpa_rtz(Z), zfp(e->k[0])); break;
    case E_ITE: r = Z3_mk_ite(Z, zbool(e->k[0]), zfp(e->k[1]), zfp(e->k[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(Z, zbv(e), fp64s);
  }
  return e->zf = keep(r);
}
static Z3_ast zbool(Expr* e) {
  if (e->op == E_CONST) return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
  if (e->zb) return e->zb; Z3_ast r; Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case E_EQ: r = a->w == 1 ? Z3_mk_eq(Z, zbool(a), zbool(b)) : Z3_mk_eq(Z, zbv(a), zbv(b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, zbv(a), zbv(b)); break; case E_ULE: r = Z3_mk_bvule(Z, zbv(a), zbv(b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, zbv(a), zbv(b)); break; case E_SLE: r = Z3_mk_bvsle(Z, zbv(a), zbv(b)); break;
    case E_FLT: r = Z3_mk_fpa_lt(Z, zfp(a), zfp(b)); break; case E_FLE: r = Z3_mk_fpa_leq(Z, zfp(a), zfp(b)); break;
    case E_FEQ: r = Z3_mk_fpa_eq(Z, zfp(a), zfp(b)); break; case E_FISNAN: r = Z3_mk_fpa_is_nan(Z, zfp(a)); break;
    case E_FNEAR: { Z3_ast d = Z3_mk_fpa_abs(Z, Z3_mk_fpa_sub(Z, rne, zfp(a), zfp(b))), t = Z3_mk_fpa_add(Z, rne, Z3_mk_fpa_add(Z, rne, Z3_mk_fpa_numeral_double(Z, 1, fp64s), Z3_mk_fpa_abs(Z, zfp(a))), Z3_mk_fpa_abs(Z, zfp(b)));
      r = Z3_mk_fpa_leq(Z, d, Z3_mk_fpa_mul(Z, rne, Z3_mk_fpa_numeral_double(Z, 1e-9, fp64s), t)); break; }
    case E_AND: { Z3_ast x[2] = {zbool(a), zbool(b)}; r = Z3_mk_and(Z, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zbool(a), zbool(b)}; r = Z3_mk_or(Z, 2, x); break; }
    case E_XOR: if (isC(b) && b->c) r = Z3_mk_not(Z, zbool(a)); else r = Z3_mk_xor(Z, zbool(a), zbool(b)); break;
    case E_ITE: r = Z3_mk_ite(Z, zbool(a), zbool(b), zbool(e->k[2])); break;
    default: r = Z3_mk_eq(Z, zbv(e), Z3_mk_unsigned_int64(Z, 1, bvsort(1)));
  }
  return e->zb = keep(r);
}
static Z3_ast zbv(Expr* e) {
  if (e->op == E_CONST) { if (e->z) return e->z; return e->z = keep(Z3_mk_unsigned_int64(Z, e->c, bvsort(e->w))); }
  if (e->z) return e->z; Z3_ast r; Expr *a = e->k[0], *b = e->k[1];
  if (e->w == 1 && ((e->op >= E_EQ && e->op <= E_SLE) || (e->op >= E_FLT && e->op <= E_FISNAN) || e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ITE)) return e->z = keep(b2bv(zbool(e)));
  switch (e->op) {
    case E_VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->c), bvsort(e->w)); break;
#define B(x, f) case x: r = f(Z, zbv(a), zbv(b)); break;
    B(E_ADD, Z3_mk_bvadd) B(E_SUB, Z3_mk_bvsub) B(E_MUL, Z3_mk_bvmul) B(E_UDIV, Z3_mk_bvudiv) B(E_SDIV, Z3_mk_bvsdiv) B(E_UREM, Z3_mk_bvurem) B(E_SREM, Z3_mk_bvsrem)
    B(E_AND, Z3_mk_bvand) B(E_OR, Z3_mk_bvor) B(E_XOR, Z3_mk_bvxor) B(E_SHL, Z3_mk_bvshl) B(E_LSHR, Z3_mk_bvlshr) B(E_ASHR, Z3_mk_bvashr) B(E_CONCAT, Z3_mk_concat)
#undef B
    case E_ITE: r = Z3_mk_ite(Z, zbool(a), zbv(b), zbv(e->k[2])); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, e->c32 + e->w - 1, e->c32, zbv(a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - a->w, zbv(a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - a->w, zbv(a)); break;
    case E_F2I: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), zfp(a), e->w); break;
    case E_F64TO32: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, rne, zfp(a), fp32s)); break;
    case E_UF: { while (ufDecl.size() < ufNames.size()) ufDecl.push_back(nullptr);
      Z3_ast args[3]; Z3_sort s[3]; unsigned n = 0; for (int i = 0; i < 3 && e->k[i]; i++) { args[n] = zbv(e->k[i]); s[n++] = bvsort(e->k[i]->w); }
      if (!ufDecl[e->c32]) { ufDecl[e->c32] = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, ("uf_" + ufNames[e->c32]).c_str()), n, s, bvsort(e->w)); Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, ufDecl[e->c32])); }
      r = Z3_mk_app(Z, ufDecl[e->c32], n, args); break; }
    default: if (isFPop(e->op)) { r = Z3_mk_fpa_to_ieee_bv(Z, zfp(e)); break; }
      fprintf(stderr, "symx: zbv op %d\n", e->op); abort();
  }
  return e->z = keep(r);
}

// ------------------------------------------------------------------ path condition
static const std::vector<uint32_t>& vars(Expr* e) {
  if (e->vars) return *e->vars;
  auto* v = new std::vector<uint32_t>();
  if (e->op == E_VAR) v->push_back((uint32_t)e->c);
  else { for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->op != E_CONST) { auto& kv = vars(e->k[i]); std::vector<uint32_t> t; std::set_union(v->begin(), v->end(), kv.begin(), kv.end(), std::back_inserter(t)); v->swap(t); }
    if (e->op == E_UF) { v->push_back(UFDEP(e->c32)); std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); } }
  e->vars = v; return *v;
}
static std::vector<Expr*> PC; static std::unordered_map<uint32_t, std::vector<int>> pcByVar;
size_t pcSize() { return PC.size(); }
static uint32_t visitStamp = 0;
static void collectUF(Expr* e, std::vector<Expr*>& out) {
  if (e->stamp == visitStamp || !(e->flags & X_UF)) return; e->stamp = visitStamp;
  if (e->op == E_UF) out.push_back(e);
  for (int i = 0; i < 3; i++) if (e->k[i]) collectUF(e->k[i], out);
}
static void pushPC(Expr* c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { pushPC(c->k[0]); pushPC(c->k[1]); return; }
  int i = PC.size(); PC.push_back(c); for (uint32_t v : vars(c)) pcByVar[v].push_back(i);
  if (c->op == E_EQ && isC(c->k[1])) markKnown(c->k[0], c->k[1]->c);
  if (!c->known) { c->known = true; c->kv = 1; }
  if (c->op == E_XOR && c->w == 1 && isC(c->k[1]) && c->k[1]->c && !isC(c->k[0])) { c->k[0]->known = true; c->k[0]->kv = 0; }
  auto upd = [](Expr* x, int64_t lo, int64_t hi) { if (x->op == E_VAR || x->op == E_SEXT || x->op == E_ZEXT || x->op == E_ADD || x->op == E_EXTRACT || x->op == E_AND) { if (lo > x->lo) x->lo = lo; if (hi < x->hi) x->hi = hi; if (x->lo == x->hi && !x->known) { x->known = true; x->kv = (uint64_t)x->lo & maskw(x->w); } } };
  std::function<void(Expr*, int64_t, int64_t)> tighten = [&](Expr* x, int64_t lo, int64_t hi) { if (isC(x)) return; upd(x, lo, hi);
    if (x->op == E_SEXT || (x->op == E_ZEXT && x->k[0]->lo >= 0)) tighten(x->k[0], lo, hi);
    else if (x->op == E_ADD && isC(x->k[1])) { int64_t k = sextw(x->k[1]->c, x->w); bool ov = false; int64_t l = satSub(lo, k, ov), h = satSub(hi, k, ov); Expr* y = x->k[0]; bool ov2 = false; int64_t yl = satAdd(y->lo, k, ov2), yh = satAdd(y->hi, k, ov2);
      if (!ov && !ov2 && yl >= smin(x->w) && yh <= smax(x->w)) tighten(y, l, h); } };
  if (c->op == E_SLT) { if (c->k[1]->hi > smin(c->k[1]->w)) tighten(c->k[0], c->k[0]->lo, c->k[1]->hi - 1); if (c->k[0]->lo < smax(c->k[0]->w)) tighten(c->k[1], c->k[0]->lo + 1, c->k[1]->hi); }
  if (c->op == E_SLE) { tighten(c->k[0], c->k[0]->lo, c->k[1]->hi); tighten(c->k[1], c->k[0]->lo, c->k[1]->hi); }
}
void pcAdd(Expr* c) { pushPC(c); evStampNow++; }
static void sliceFor(Expr* c, std::vector<Expr*>& out) {
  std::vector<char> inPC(PC.size(), 0); std::vector<uint32_t> work(vars(c)); std::unordered_map<uint32_t, char> seen; for (auto v : work) seen[v] = 1;
  while (!work.empty()) { uint32_t v = work.back(); work.pop_back(); auto it = pcByVar.find(v); if (it == pcByVar.end()) continue;
    for (int i : it->second) if (!inPC[i]) { inPC[i] = 1; for (uint32_t u : vars(PC[i])) if (!seen[u]) { seen[u] = 1; work.push_back(u); } } }
  for (size_t i = 0; i < PC.size(); i++) if (inPC[i]) out.push_back(PC[i]);
}
static std::unordered_map<uint64_t, std::pair<char, ModelVals*>> qcache;
// ------------------------------------------------------------------ ideal (real-number) arithmetic
// With sx_real(1) a query over floating-point terms that are not exact is decided over the reals: rounding is left out,
// everything the translation cannot express becomes unconstrained (so "unsatisfiable" is sound for ideal arithmetic),
// and "satisfiable" is only answered with integer inputs that satisfy the constraints in true double arithmetic.
int gReal = 0; uint64_t gRealQ = 0;
struct RealTr {
  std::unordered_map<Expr*, Z3_ast> num, boo; std::vector<Z3_ast> side; std::unordered_map<uint32_t, Z3_ast> vars; int nfresh = 0; Z3_sort R;
  Z3_ast k(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
  Z3_ast lit(int64_t v) { return k(Z3_mk_int64(Z, v, R)); }
  Z3_ast fresh() { return k(Z3_mk_fresh_const(Z, "o", R)); }
  Z3_ast op2(int o, Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(o == 0 ? Z3_mk_add(Z, 2, x) : o == 1 ? Z3_mk_sub(Z, 2, x) : o == 2 ? Z3_mk_mul(Z, 2, x) : Z3_mk_div(Z, a, b)); }
  Z3_ast dbl(double d) { if (d != d || std::isinf(d)) return fresh(); int e; double m = std::frexp(d, &e); int64_t mi = (int64_t)std::ldexp(m, 53); e -= 53; while (mi && !(mi & 1)) { mi /= 2; e++; } Z3_ast r = lit(mi);
    while (e > 0) { int s = std::min(e, 60); r = op2(2, r, lit(1ll << s)); e -= s; } while (e < 0) { int s = std::min(-e, 60); r = op2(3, r, lit(1ll << s)); e += s; } return r; }
  Z3_ast I(Expr* e) { auto it = num.find(e); if (it != num.end()) return it->second; Z3_ast r; bool full = e->lo == smin(e->w) && e->hi == smax(e->w);
    switch (e->op) {
      case E_CONST: r = lit(sextw(e->c, e->w)); break;
      case E_VAR: r = k(Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->c), R)); vars[(uint32_t)e->c] = r; break;
      case E_SEXT: r = I(e->k[0]); break;
      case E_ZEXT: r = e->k[0]->lo >= 0 ? I(e->k[0]) : fresh(); break;
      case E_ADD: case E_SUB: case E_MUL: r = full ? fresh() : op2(e->op == E_ADD ? 0 : e->op == E_SUB ? 1 : 2, I(e->k[0]), I(e->k[1])); break;
      case E_SHL: r = !full && isC(e->k[1]) && e->k[1]->c < 60 ? op2(2, I(e->k[0]), lit(1ll << e->k[1]->c)) : fresh(); break;
      case E_ITE: r = k(Z3_mk_ite(Z, B(e->k[0]), I(e->k[1]), I(e->k[2]))); break;
      default: r = fresh();
    }
    return num[e] = r; }
  Z3_ast F(Expr* e) { if (e->op == E_CONST) return dbl(asD(e->c)); auto it = num.find(e); if (it != num.end()) return it->second; Z3_ast r;
    switch (e->op) {
      case E_I2F: r = I(e->k[0]); break;
      case E_FADD: r = op2(0, F(e->k[0]), F(e->k[1])); break; case E_FSUB: r = op2(1, F(e->k[0]), F(e->k[1])); break;
      case E_FMUL: r = op2(2, F(e->k[0]), F(e->k[1])); break; case E_FDIV: r = op2(3, F(e->k[0]), F(e->k[1])); break;
      case E_FSQRT: { Z3_ast x = F(e->k[0]), z = lit(0); r = fresh(); side.push_back(k(Z3_mk_ge(Z, r, z)));
        int sc; Expr* q = asDy(e->k[0], sc); if (q && q->lo >= 0) { side.push_back(k(Z3_mk_eq(Z, op2(2, r, r), x))); if (q->lo > 0) side.push_back(k(Z3_mk_gt(Z, r, z))); break; }
        Z3_ast o[2] = {k(Z3_mk_lt(Z, x, z)), k(Z3_mk_eq(Z, op2(2, r, r), x))}; side.push_back(k(Z3_mk_or(Z, 2, o))); break; }
      case E_ITE: r = k(Z3_mk_ite(Z, B(e->k[0]), F(e->k[1]), F(e->k[2]))); break;
      case E_AND: if (isC(e->k[1], ~(1ull << 63))) { Z3_ast x = F(e->k[0]); r = k(Z3_mk_ite(Z, k(Z3_mk_lt(Z, x, lit(0))), k(Z3_mk_unary_minus(Z, x)), x)); } else r = fresh(); break;
      case E_XOR: if (isC(e->k[1], 1ull << 63)) r = k(Z3_mk_unary_minus(Z, F(e->k[0]))); else r = fresh(); break;
      default: r = fresh();
    }
    return num[e] = r; }
  Z3_ast B(Expr* e) { if (e->op == E_CONST) return k(e->c ? Z3_mk_true(Z) : Z3_mk_false(Z)); auto it = boo.find(e); if (it != boo.end()) return it->second; Z3_ast r; Expr *a = e->k[0], *b = e->k[1];
    auto fb = [&] { return k(Z3_mk_fresh_const(Z, "ob", Z3_mk_bool_sort(Z))); };
    switch (e->op) {
      case E_EQ: r = a->w == 1 ? k(Z3_mk_iff(Z, B(a), B(b))) : k(Z3_mk_eq(Z, I(a), I(b)));   // integers differ by at least one
        if (a->w != 1 && !isC(a) && !(isC(b) && b->lo != 0)) { Z3_ast o[3] = {r, k(Z3_mk_le(Z, I(a), op2(1, I(b), lit(1)))), k(Z3_mk_ge(Z, I(a), op2(0, I(b), lit(1))))}; side.push_back(k(Z3_mk_or(Z, 3, o))); } break;
      case E_SLT: r = k(Z3_mk_le(Z, I(a), op2(1, I(b), lit(1)))); if (!isC(a) && !isC(b)) { Z3_ast o[2] = {r, k(Z3_mk_ge(Z, I(a), I(b)))}; side.push_back(k(Z3_mk_or(Z, 2, o))); } break;
      case E_SLE: r = k(Z3_mk_le(Z, I(a), I(b))); if ((!isC(a) && !isC(b)) || e->flags & X_MULDIV) { Z3_ast o[2] = {r, k(Z3_mk_ge(Z, I(a), op2(0, I(b), lit(1))))}; side.push_back(k(Z3_mk_or(Z, 2, o))); } break;
      case E_FLT: r = k(Z3_mk_lt(Z, F(a), F(b))); break; case E_FLE: r = k(Z3_mk_le(Z, F(a), F(b))); break; case E_FEQ: r = k(Z3_mk_eq(Z, F(a), F(b))); break;
      case E_FISNAN: r = k(Z3_mk_false(Z)); break;
      case E_FNEAR: { r = fb(); Z3_ast o[2] = {r, k(Z3_mk_not(Z, k(Z3_mk_eq(Z, F(a), F(b)))))}; side.push_back(k(Z3_mk_or(Z, 2, o))); break; }   // equal implies near
      case E_AND: { Z3_ast x[2] = {B(a), B(b)}; r = k(Z3_mk_and(Z, 2, x)); break; }
      case E_OR: { Z3_ast x[2] = {B(a), B(b)}; r = k(Z3_mk_or(Z, 2, x)); break; }
      case E_XOR: r = isC(b) && b->c ? k(Z3_mk_not(Z, B(a))) : k(Z3_mk_xor(Z, B(a), B(b))); break;
      case E_ITE: r = k(Z3_mk_ite(Z, B(a), B(b), B(e->k[2]))); break;
      default: r = fb();
    }
    return boo[e] = r; }
};
static Sat checkReal(const std::vector<Expr*>& cs, ModelVals& out) {
  RealTr T; T.R = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, T.R)); gRealQ++;
  std::vector<uint32_t> vs; for (auto* x : cs) for (auto v : vars(x)) { if (v & 0x80000000u) return S_UNK; vs.push_back(v); } std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  auto holds = [&](const std::vector<int64_t>& val) { ModelVals m; for (size_t i = 0; i < vs.size(); i++) m.v.push_back({vs[i], (uint64_t)val[i] & maskw(vexprs[vs[i]]->w)});
    for (auto* x : cs) if (!evalModelWith(x, m)) return false; out = m; return true; };
  std::vector<Z3_ast> as; for (auto* x : cs) as.push_back(T.B(x));
  for (auto v : vs) { Z3_ast r = T.I(vexprs[v]); as.push_back(T.k(Z3_mk_ge(Z, r, T.lit(vexprs[v]->lo)))); as.push_back(T.k(Z3_mk_le(Z, r, T.lit(vexprs[v]->hi)))); }
  uint64_t rng = 88172645463325252ull; auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto tactic = [&](std::initializer_list<const char*> ts) { Z3_tactic t = nullptr; for (auto* n : ts) { Z3_tactic u = Z3_mk_tactic(Z, n); Z3_tactic_inc_ref(Z, u); if (t) { t = Z3_tactic_and_then(Z, t, u); Z3_tactic_inc_ref(Z, t); } else t = u; } return t; };
  std::vector<int64_t> fixed(vs.size(), 0); size_t nfix = 0; Sat res = S_UNK;
  auto solve = [&](std::vector<int64_t>* mv) { Z3_solver s = Z3_mk_solver_from_tactic(Z, tactic({"simplify", "purify-arith", "qfnra-nlsat"})); Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)(gRlimit / 4)); Z3_solver_set_params(Z, s, p);
    for (auto a : as) Z3_solver_assert(Z, s, a); for (auto a : T.side) Z3_solver_assert(Z, s, a); for (size_t i = 0; i < nfix; i++) Z3_solver_assert(Z, s, Z3_mk_eq(Z, T.I(vexprs[vs[i]]), T.lit(fixed[i])));
    if (getenv("SYMX_DUMPR")) { static int dn; char fn[64]; snprintf(fn, 64, "/tmp/rq.%d.%d.smt2", getpid(), dn++); FILE* f = fopen(fn, "w"); fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(Z, s)); fclose(f); }
    Z3_lbool r = Z3_solver_check(Z, s);
    if (r == Z3_L_TRUE && mv) { Z3_model md = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, md); mv->clear();
      for (auto v : vs) { Z3_ast o; double d = 0; if (Z3_model_eval(Z, md, T.I(vexprs[v]), true, &o)) { Z3_inc_ref(Z, o); d = strtod(Z3_get_numeral_decimal_string(Z, o, 12), 0); Z3_dec_ref(Z, o); } int64_t t = llround(d); mv->push_back(std::min(std::max(t, vexprs[v]->lo), vexprs[v]->hi)); }
      Z3_model_dec_ref(Z, md); }
    Z3_solver_dec_ref(Z, s); return r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNK; };
  std::vector<int64_t> mv; res = solve(&mv);
  if (res == S_UNSAT) return S_UNSAT;
  if (res == S_SAT) { if (holds(mv)) return S_SAT; std::vector<int64_t> t(mv);
    for (int it = 0; it < 500; it++) { for (size_t i = 0; i < vs.size(); i++) t[i] = std::min(std::max(mv[i] + (int64_t)(rnd() % 3) - 1, vexprs[vs[i]]->lo), vexprs[vs[i]]->hi); if (holds(t)) return S_SAT; } }
  { std::vector<int64_t> t(vs.size()); for (int it = 0; it < 1500; it++) { int64_t span = 1 + (it >> 6); for (size_t i = 0; i < vs.size(); i++) t[i] = std::min(std::max((int64_t)(rnd() % (2 * span + 1)) - span, vexprs[vs[i]]->lo), vexprs[vs[i]]->hi); if (holds(t)) return S_SAT; } }
  if (res == S_SAT) { for (nfix = 0; nfix < vs.size();) { fixed[nfix] = mv[nfix]; nfix++; std::vector<int64_t> m2; Sat r = solve(&m2); if (r != S_SAT) { // try the neighbours
        bool ok = false; for (int64_t d : {1, -1, 2, -2}) { fixed[nfix - 1] = mv[nfix - 1] + d; if (solve(&m2) == S_SAT) { ok = true; break; } } if (!ok) return S_UNK; }
      mv = m2; if (holds(mv)) return S_SAT; } }
  return S_UNK;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
Sat checkWith(Expr* c, ModelVals* m) {
  if (isC(c)) { if (!c->c) return S_UNSAT; return S_SAT; }
  std::vector<Expr*> cs; sliceFor(c, cs); cs.push_back(c);
  uint64_t h = 1469598103934665603ull; for (auto* x : cs) { h ^= x->id; h *= 1099511628211ull; h ^= h >> 29; }
  auto it = qcache.find(h); if (it != qcache.end()) { gSol.cacheHits++; if (m && it->second.second) *m = *it->second.second; return (Sat)it->second.first; }
  uint8_t fl = 0; for (auto* x : cs) fl |= x->flags;
  if (gReal && (fl & (X_FP | X_MULDIV)) && !(fl & X_UF)) { double t0 = now(); ModelVals mm; Sat r = checkReal(cs, mm); gSol.queries++; gSol.time += now() - t0;
    if (getenv("SYMX_SLOWQ") && (now() - t0 > 1.0 || r == S_UNK)) { fprintf(stderr, "real query %.2fs res=%d n=%zu\n", now() - t0, (int)r, cs.size()); }
    if (r == S_SAT) gSol.sat++; else if (r == S_UNSAT) gSol.unsat++; else gSol.unknown++;
    if (r != S_UNK || (fl & X_FP)) { ModelVals* mv = r == S_SAT ? new ModelVals(mm) : nullptr; qcache[h] = {(char)r, mv}; if (m && mv) *m = *mv; return r; } }
  Z3_solver s = zSimple; bool fresh = false;
  auto mk = [&](std::initializer_list<const char*> ts) { Z3_tactic t = Z3_mk_tactic(Z, *ts.begin()); Z3_tactic_inc_ref(Z, t); bool first = true; for (auto* n : ts) { if (first) { first = false; continue; } Z3_tactic u = Z3_mk_tactic(Z, n); Z3_tactic_inc_ref(Z, u); t = Z3_tactic_and_then(Z, t, u); Z3_tactic_inc_ref(Z, t); }
    s = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, s); fresh = true;
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)gRlimit); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); };
  if (!(fl & X_UF)) { if (fl & X_FP) mk({"qffpbv"}); else if (fl & X_MULDIV) mk({"qfbv"}); }
  double t0 = now();
  if (!fresh) Z3_solver_push(Z, s);
  for (auto* x : cs) { // path constraints are translated as they were asserted; `known` marks must not erase them
    Z3_solver_assert(Z, s, zbool(x)); }
  Z3_lbool r = Z3_solver_check(Z, s);
  gSol.queries++; Sat res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNK;
  ModelVals* mv = nullptr;
  if (res == S_SAT) {
    gSol.sat++; mv = new ModelVals(); Z3_model md = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, md);
    std::vector<uint32_t> vs; for (auto* x : cs) for (auto v : vars(x)) vs.push_back(v); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    auto val = [&](Expr* e) { Z3_ast o; uint64_t u = 0; if (Z3_model_eval(Z, md, zbv(e), true, &o)) { Z3_inc_ref(Z, o); Z3_get_numeral_uint64(Z, o, &u); Z3_dec_ref(Z, o); } return u; };
    for (auto v : vs) if (!(v & 0x80000000u)) mv->v.push_back({v, val(vexprs[v])});
    if (fl & X_UF) { std::vector<Expr*> ufs; visitStamp++; for (auto* x : cs) collectUF(x, ufs); for (auto* u : ufs) mv->uf.push_back({u, val(u)}); }
    Z3_model_dec_ref(Z, md);
  } else if (res == S_UNSAT) gSol.unsat++; else gSol.unknown++;
  if (fresh) Z3_solver_dec_ref(Z, s); else Z3_solver_pop(Z, s, 1);
  gSol.time += now() - t0;
  if (getenv("SYMX_SLOWQ") && now() - t0 > 1.0) { fprintf(stderr, "slow query %.2fs res=%d flags=%d n=%zu\n", now() - t0, (int)res, fl, cs.size()); if (atoi(getenv("SYMX_SLOWQ")) > 1) for (auto* x : cs) fprintf(stderr, "   %s\n", Z3_ast_to_string(Z, zbool(x))); }
  qcache[h] = {(char)res, mv}; if (m && mv) *m = *mv; return res;
}
void applyModel(const ModelVals& m) { for (auto& p : m.v) mval[p.first] = p.second; for (auto& p : m.uf) mUF[p.first] = p.second; evStampNow++; }
bool pcAddChecked(Expr* c) {
  if (isC(c)) return c->c;
  if (c->known) return c->kv;
  bool mv = modelValid(c);
  if (!mv || !evalModel(c)) { ModelVals m; if (checkWith(c, &m) != S_SAT) return false; applyModel(m); }
  pcAdd(c); return true;
}
