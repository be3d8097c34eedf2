// Hash-consed bit-vector / floating-point expressions, simplifier, evaluator and z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <z3.h>

enum EOp : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_EXTRACT, E_CONCAT, E_ZEXT, E_SEXT,
  // floating point, 64-bit patterns (E_F32 to/from conversions use 32-bit patterns)
  E_I2F, E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FSQRT, E_FLT, E_FLE, E_FEQ, E_FNEAR, E_FISNAN,
  E_F2I, E_F64TO32, E_F32TO64, E_FROUND,
  E_UF
};
enum : uint8_t { X_UNINIT = 1, X_FP = 2, X_MULDIV = 4, X_UF = 8 };

struct Expr {
  uint8_t op, w, flags; bool known;
  uint32_t id; uint32_t c32;          // c32: UF index / rounding kind / extract low bit
  Expr* k[3]; uint64_t c;             // c: constant / variable index
  uint64_t kz, ko; int64_t lo, hi;    // known zero/one bits, signed interval
  uint64_t kv;                        // value when `known`
  Z3_ast z, zb, zf;                   // cached translations (bv, bool, fp)
  std::vector<uint32_t>* vars;        // sorted variable / UF dependency ids
  uint32_t evStamp; uint64_t ev; uint32_t stamp;
};
struct Val { uint64_t c; Expr* e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t dbits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline float asF(uint64_t v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline uint64_t fbits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

Expr* eConst(uint64_t v, int w);
Expr* eVar(const std::string& name, int w, int64_t lo, int64_t hi, uint8_t flags = 0);  // interval is NOT asserted here
Expr* eMk(EOp op, int w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint64_t imm = 0, uint32_t imm32 = 0);
Expr* eNot(Expr* a);
bool eIsDy(Expr* e);                       // exactly representable scaled integer
Expr* eExtract(Expr* a, int lo, int w);
int ufIndex(const std::string& name);
const std::string& varName(uint64_t i);

static inline Expr* toE(Val v, int w) { return v.e ? v.e : eConst(v.c & maskw(w), w); }
static inline Val fromE(Expr* e) {
  if (e->op == E_CONST) return CV(e->c);
  if (e->known) return CV(e->kv);
  return Val{0, e};
}

struct SolverStats { uint64_t queries, sat, unsat, unknown, cacheHits, modelHits; double time; };
extern SolverStats gSol;
void solverInit();
extern int gReal; extern uint64_t gRealQ;       // decide inexact floating-point queries over the reals
void pcAdd(Expr* c);                       // add a constraint (must hold in the current model)
bool pcAddChecked(Expr* c);                // add; re-solve if the current model violates it; false if infeasible
enum Sat { S_UNSAT = 0, S_SAT = 1, S_UNK = 2 };
struct ModelVals { std::vector<std::pair<uint32_t, uint64_t>> v; std::vector<std::pair<Expr*, uint64_t>> uf; };
Sat checkWith(Expr* c, ModelVals* m);      // is PC && c satisfiable?
void applyModel(const ModelVals& m);
uint64_t evalModel(Expr* e);               // value under the current model
uint64_t evalModelWith(Expr* e, const ModelVals& m);
void markKnown(Expr* e, uint64_t v);
size_t pcSize();
bool modelValid(Expr* e);                  // current model determines e (no unassigned UF application)
