// Internal program representation shared by the LLVM decoder and the engine.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

enum Op : uint16_t {
  O_NOP, O_MOV, O_LDSLOT, O_STSLOT,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
  O_ICMP, O_FCMP, O_SELECT, O_TRUNCI, O_ZEXT, O_SEXT,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
  O_LOAD, O_STORE, O_ALLOCA, O_GEP0, O_GEP1, O_GEPN,
  O_BR, O_CBR, O_SWITCH, O_RET, O_RETV, O_CALL, O_CALLI, O_CALLX, O_UNREACH,
  // intrinsics
  O_MEMCPY, O_MEMSET, O_FABS, O_SQRT, O_FMULADD, O_MINMAX, O_IABS, O_VASTART, O_VAEND, O_VACOPY,
  O_BSWAP, O_CTPOP, O_CTLZ, O_CTTZ, O_FLOOR, O_CEIL, O_STACKSAVE, O_STACKRESTORE
};

struct Inst {
  Op op = O_NOP;
  uint8_t w = 0, w2 = 0;       // result / operand widths in bits
  uint8_t pred = 0;            // icmp/fcmp predicate (LLVM numbering) or minmax kind
  uint8_t n = 0;               // number of leaves (aggregates)
  int32_t dst = -1, a = 0, b = 0, c = 0;
  int64_t imm = 0;
  uint32_t aux = 0, aux2 = 0;
  uint32_t line = 0;
};

struct PhiCopy { int32_t dst, src; };
struct Edge { uint32_t target; std::vector<PhiCopy> copies; };
struct SwitchTab { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct CallInfo { int32_t fn = -1; int32_t fnop = 0; std::vector<int32_t> args; std::vector<uint8_t> argw; std::vector<uint8_t> argfp; int32_t dst = -1; uint8_t retw = 0; uint8_t nret = 0; };
struct GepInfo { std::vector<int32_t> idx; std::vector<uint8_t> w; std::vector<int64_t> scale; int64_t off = 0; };

struct Func {
  std::string name, file;
  bool defined = false; bool vararg = false;
  int nregs = 0, nslots = 0;   // slots come first in the register file
  std::vector<int32_t> params; std::vector<uint8_t> paramw;
  std::vector<Inst> code;
  std::vector<uint32_t> blockStart;
  std::vector<Edge> edges; std::vector<SwitchTab> switches; std::vector<CallInfo> calls; std::vector<GepInfo> geps;
  int retw = 0;
  int builtin = -1;
};

struct ConstDesc { enum K { INT, GLOBAL, FUNC, UNDEF } k = INT; uint64_t v = 0; int32_t idx = 0; uint8_t w = 64; };
struct Reloc { uint64_t off; ConstDesc c; };
struct Global {
  std::string name; uint64_t size = 0; uint32_t align = 1; bool isConst = false; bool defined = false;
  std::vector<uint8_t> init; std::vector<Reloc> relocs;
};

struct Prog {
  std::vector<Func> funcs; std::vector<Global> globals; std::vector<ConstDesc> consts;
  std::unordered_map<std::string, int> fnIndex, glIndex;
};
void decodeBitcode(const char* path, Prog& P);
