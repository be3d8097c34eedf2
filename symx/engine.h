// Symbolic interpreter: memory, frames, scheduling of paths, builtins.
#pragma once
#include "prog.h"
#include "expr.h"
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <set>

// ---------------------------------------------------------------- memory
enum : uint8_t { SH_NONE = 0, SH_UNINIT = 1, SH_CONC = 2, SH_SYM = 3, SH_FREED = 4, SH_DEADSTACK = 5, SH_RED = 6, SH_PEND = 7 };
static const uint64_t ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 30;
static const uint64_t SHB = 0x110000000000ull, SYB = 0x120000000000ull, SIB = 0x130000000000ull, GRB = 0x140000000000ull;
#define SHADOW(a) ((uint8_t*)(SHB + ((a) - ARENA)))
#define SYMP(a) ((Expr**)(SYB + ((a) - ARENA) * 8))
#define SYMI(a) ((uint8_t*)(SIB + ((a) - ARENA)))
#define GRAN(a) ((uint32_t*)(GRB) + (((a) - ARENA) >> 4))
#define HOST(a) ((uint8_t*)(a))
struct Obj { uint64_t addr, size; uint8_t kind; bool alive, ro; uint32_t fn, line; int rank; };  // kind: 0 heap 1 stack 2 global 3 other

struct Frame { const Func* f; uint32_t pc, base; int32_t dst; uint64_t sp; std::vector<Val> va; std::vector<uint8_t> vafp; uint32_t callLine; };
struct MByte { uint8_t sh, c, idx; Expr* e; };
struct Msg { int src, dst, tag; uint64_t dtype; std::vector<MByte> data; bool consumed = false; uint64_t buf = 0; };
struct Req { bool isSend = false, done = false, active = false; int msg = -1; int src = 0, tag = 0; uint64_t buf = 0, cap = 0, dtype = 0; uint64_t bytes = 0; };
struct Rank {
  int id = -1; std::vector<Val> regs; std::vector<Frame> frames; uint64_t sp = 0, stackLo = 0, stackHi = 0;
  std::vector<uint64_t> gaddr; std::vector<Val> consts; int state = 0;  // 0 runnable 1 blocked 2 finished
  bool posted = false; int postedMsg = -1; int collSeq = 0; std::string where; std::map<std::string, uint64_t> statics;
};

// ---------------------------------------------------------------- shared between path processes
struct Waiter { int used; int depth; int word; int pad; };
struct ErrSlot { char key[240]; int count; };
struct CoverSlot { char label[96]; uint64_t count; };
struct Shared {
  int lock; int tokens; int live; int stop; int nwait;
  uint64_t paths, pathsDone, pathsAssume, pathsExit, pathsErr, pathsGap, forks, instrs, queries, sat, unsat, unknown, cacheHits, modelHits, asserts, assertQ, fileSeq, hangs, crashes;
  uint64_t solverUs, maxDepth, samples, leaves;
  int nerr; ErrSlot err[256]; int ncov; CoverSlot cov[512];
  Waiter w[65536];
  uint8_t fnUsed[1 << 16];
};
extern Shared* SH;
