// LLVM 18 bitcode -> Prog
#include "prog.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

static void die(const std::string& m, const Value* v = nullptr) {
  std::string s; raw_string_ostream os(s); if (v) v->print(os);
  fprintf(stderr, "symx decode: %s: %s\n", m.c_str(), os.str().c_str()); exit(3);
}

namespace {
struct Dec {
  Prog& P; LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
  std::map<std::tuple<int, uint64_t, int, int>, int> constMap;
  std::map<const GlobalVariable*, int> gidx; std::map<const Function*, int> fidx;
  Dec(Prog& p) : P(p) {}

  int leaves(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += leaves(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * leaves(a->getElementType());
    return 1;
  }
  int width(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isVoidTy()) return 0;
    if (t->isAggregateType()) return 64;
    std::string s; raw_string_ostream os(s); t->print(os);
    fprintf(stderr, "symx decode: unsupported type %s\n", os.str().c_str()); exit(3);
  }
  int cidx(const ConstDesc& c) {
    auto key = std::make_tuple((int)c.k, c.v, c.idx, (int)c.w);
    auto it = constMap.find(key); if (it != constMap.end()) return it->second;
    int i = P.consts.size(); P.consts.push_back(c); constMap[key] = i; return i;
  }
  ConstDesc constant(const Constant* c) {
    ConstDesc d; d.w = width(c->getType());
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) die("wide const", c); d.v = i->getZExtValue(); return d; }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
      APFloat ap = f->getValueAPF();
      if (c->getType()->isX86_FP80Ty()) { bool li; ap.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); }
      d.v = ap.bitcastToAPInt().getZExtValue(); return d;
    }
    if (isa<ConstantPointerNull>(c)) return d;
    if (isa<UndefValue>(c)) { d.k = ConstDesc::UNDEF; return d; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { d.k = ConstDesc::GLOBAL; d.idx = gidx.at(g); return d; }
    if (auto* f = dyn_cast<Function>(c)) { d.k = ConstDesc::FUNC; d.idx = fidx.at(f); return d; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0); auto* g = cast<GEPOperator>(e);
          if (!g->accumulateConstantOffset(*DL, off)) die("gep const", c);
          ConstDesc b = constant(cast<Constant>(g->getPointerOperand())); b.v += off.getSExtValue(); return b;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
          return constant(e->getOperand(0));
        case Instruction::Sub: { ConstDesc x = constant(e->getOperand(0)), y = constant(e->getOperand(1));
          if (x.k == y.k && x.idx == y.idx) { ConstDesc r; r.w = d.w; r.v = x.v - y.v; return r; } die("const sub", c); }
        default: die("constexpr", c);
      }
    }
    if (c->isNullValue()) return d;
    die("constant", c); return d;
  }
  void initBytes(Global& g, const Constant* c, uint64_t off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(ca->getElementType());
      for (unsigned i = 0; i < ca->getNumElements(); i++) initBytes(g, ca->getElementAsConstant(i), off + i * es);
      return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(s->getType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(g, s->getOperand(i), off + sl->getElementOffset(i));
      return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
      for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(g, a->getOperand(i), off + i * es);
      return;
    }
    ConstDesc d = constant(c);
    if (d.k == ConstDesc::INT) { uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n && i < 8; i++) g.init[off + i] = (uint8_t)(d.v >> (8 * i)); }
    else if (d.k != ConstDesc::UNDEF) g.relocs.push_back({off, d});
  }

  // ---- function ----
  Func* F; std::map<const Value*, int> reg; std::map<const AllocaInst*, int> slot;
  int opnd(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return ~cidx(constant(c));
    auto it = reg.find(v); if (it == reg.end()) die("no reg", v); return it->second;
  }
  int opndLeaf(const Value* v, int leaf) { // leaf of an aggregate value
    if (auto* c = dyn_cast<Constant>(v)) {
      if (isa<UndefValue>(c)) { ConstDesc d; d.k = ConstDesc::UNDEF; return ~cidx(d); }
      int k = 0; const Constant* r = nullptr;
      std::function<void(const Constant*)> walk = [&](const Constant* x) {
        if (x->getType()->isAggregateType()) { for (unsigned i = 0; auto* e = x->getAggregateElement(i); i++) walk(e); }
        else { if (k == leaf) r = x; k++; } };
      walk(c); return ~cidx(constant(r));
    }
    return reg.at(v) + leaf;
  }
  int leafOffset(Type* t, ArrayRef<unsigned> idx) {
    int off = 0;
    for (unsigned i : idx) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += leaves(s->getElementType(k)); t = s->getElementType(i); }
      else { auto* a = cast<ArrayType>(t); off += i * leaves(a->getElementType()); t = a->getElementType(); }
    }
    return off;
  }
  static bool promotable(const AllocaInst* A) {
    Type* t = A->getAllocatedType();
    if (A->isArrayAllocation()) return false;
    if (!(t->isIntegerTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy())) return false;
    for (const User* u : A->users()) {
      if (auto* l = dyn_cast<LoadInst>(u)) { if (l->getType() != t) return false; continue; }
      if (auto* s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == A || s->getValueOperand()->getType() != t) return false; continue; }
      if (auto* ii = dyn_cast<IntrinsicInst>(u)) { if (ii->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(ii)) continue; }
      return false;
    }
    return true;
  }
  void function(const Function& fn, Func& f) {
    F = &f; reg.clear(); slot.clear(); int nr = 0;
    for (auto& bb : fn) for (auto& in : bb) if (auto* A = dyn_cast<AllocaInst>(&in)) if (promotable(A)) slot[A] = nr++;
    f.nslots = nr;
    for (auto& a : fn.args()) { reg[&a] = nr; f.params.push_back(nr++); f.paramw.push_back(width(a.getType())); }
    for (auto& bb : fn) for (auto& in : bb) {
      int n = leaves(in.getType()); if (!n) continue;
      if (auto* A = dyn_cast<AllocaInst>(&in)) if (slot.count(A)) continue;
      reg[&in] = nr; nr += n;
    }
    f.nregs = nr; f.retw = width(fn.getReturnType());
    std::map<const BasicBlock*, unsigned> bidx; unsigned k = 0; for (auto& bb : fn) bidx[&bb] = k++;
    f.blockStart.resize(k);
    auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) -> uint32_t {
      Edge e; e.target = bidx[to];
      for (auto& phi : to->phis()) { int n = leaves(phi.getType()); for (int i = 0; i < n; i++) {
        const Value* v = phi.getIncomingValueForBlock(from);
        e.copies.push_back({reg[&phi] + i, n == 1 ? opnd(v) : opndLeaf(v, i)}); } }
      f.edges.push_back(e); return f.edges.size() - 1;
    };
    for (auto& bb : fn) {
      f.blockStart[bidx[&bb]] = f.code.size();
      for (auto& in : bb) inst(in, f, bidx, mkEdge);
    }
    // resolve edge targets to instruction indices
    for (auto& e : f.edges) e.target = f.blockStart[e.target];
  }
  template <class ME> void inst(const Instruction& in, Func& f, std::map<const BasicBlock*, unsigned>& bidx, ME& mkEdge) {
    Inst I; if (in.getDebugLoc()) I.line = in.getDebugLoc().getLine();
    Type* T = in.getType(); int nl = leaves(T); I.n = nl;
    if (nl) { auto it = reg.find(&in); if (it != reg.end()) I.dst = it->second; if (nl == 1 && !T->isAggregateType()) I.w = width(T); }
    auto push = [&]() { f.code.push_back(I); };
    if (auto* b = dyn_cast<BinaryOperator>(&in)) {
      I.a = opnd(b->getOperand(0)); I.b = opnd(b->getOperand(1));
      switch (b->getOpcode()) {
#define B(x, y) case Instruction::x: I.op = y; break;
        B(Add, O_ADD) B(Sub, O_SUB) B(Mul, O_MUL) B(UDiv, O_UDIV) B(SDiv, O_SDIV) B(URem, O_UREM) B(SRem, O_SREM)
        B(And, O_AND) B(Or, O_OR) B(Xor, O_XOR) B(Shl, O_SHL) B(LShr, O_LSHR) B(AShr, O_ASHR)
        B(FAdd, O_FADD) B(FSub, O_FSUB) B(FMul, O_FMUL) B(FDiv, O_FDIV) B(FRem, O_FREM)
#undef B
        default: die("binop", &in);
      }
      push(); return;
    }
    switch (in.getOpcode()) {
      case Instruction::FNeg: I.op = O_FNEG; I.a = opnd(in.getOperand(0)); push(); return;
      case Instruction::ICmp: case Instruction::FCmp: {
        auto& c = cast<CmpInst>(in); I.op = in.getOpcode() == Instruction::ICmp ? O_ICMP : O_FCMP; I.pred = c.getPredicate();
        I.a = opnd(in.getOperand(0)); I.b = opnd(in.getOperand(1)); I.w2 = width(in.getOperand(0)->getType()); push(); return; }
      case Instruction::Select: {
        if (nl != 1) die("select agg", &in);
        I.op = O_SELECT; I.a = opnd(in.getOperand(0)); I.b = opnd(in.getOperand(1)); I.c = opnd(in.getOperand(2)); push(); return; }
#define C(x, y) case Instruction::x: I.op = y; I.a = opnd(in.getOperand(0)); I.w2 = width(in.getOperand(0)->getType()); push(); return;
      C(Trunc, O_TRUNCI) C(ZExt, O_ZEXT) C(SExt, O_SEXT) C(SIToFP, O_SITOFP) C(UIToFP, O_UITOFP) C(FPToSI, O_FPTOSI) C(FPToUI, O_FPTOUI)
      C(FPExt, O_FPEXT) C(FPTrunc, O_FPTRUNC) C(BitCast, O_MOV) C(IntToPtr, O_MOV) C(PtrToInt, O_MOV) C(Freeze, O_MOV)
#undef C
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(in); if (slot.count(&A)) return;
        I.op = O_ALLOCA; I.imm = DL->getTypeAllocSize(A.getAllocatedType()); I.a = opnd(A.getArraySize()); I.w2 = width(A.getArraySize()->getType());
        I.aux = A.getAlign().value(); push(); return; }
      case Instruction::Load: {
        auto& L = cast<LoadInst>(in);
        if (auto* A = dyn_cast<AllocaInst>(L.getPointerOperand())) if (slot.count(A)) { I.op = O_LDSLOT; I.a = slot[A]; push(); return; }
        if (T->isAggregateType()) die("agg load", &in);
        I.op = O_LOAD; I.a = opnd(L.getPointerOperand()); I.imm = DL->getTypeStoreSize(T); push(); return; }
      case Instruction::Store: {
        auto& S = cast<StoreInst>(in); Type* vt = S.getValueOperand()->getType();
        if (auto* A = dyn_cast<AllocaInst>(S.getPointerOperand())) if (slot.count(A)) { I.op = O_STSLOT; I.dst = slot[A]; I.a = opnd(S.getValueOperand()); I.w = width(vt); push(); return; }
        if (vt->isAggregateType()) die("agg store", &in);
        I.op = O_STORE; I.a = opnd(S.getPointerOperand()); I.b = opnd(S.getValueOperand()); I.w = width(vt); I.imm = DL->getTypeStoreSize(vt); push(); return; }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(in); I.a = opnd(G.getPointerOperand()); GepInfo gi;
        for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          const Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = it.getSequentialElementStride(*DL);
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { gi.off += ci->getSExtValue() * sc; continue; }
          gi.idx.push_back(opnd(ix)); gi.w.push_back(width(ix->getType())); gi.scale.push_back(sc);
        }
        I.imm = gi.off;
        if (gi.idx.empty()) I.op = O_GEP0;
        else { I.op = O_GEPN; I.aux = f.geps.size(); f.geps.push_back(gi); }
        push(); return; }
      case Instruction::Br: {
        auto& b = cast<BranchInst>(in);
        if (b.isUnconditional()) { I.op = O_BR; I.aux = mkEdge(in.getParent(), b.getSuccessor(0)); }
        else { I.op = O_CBR; I.a = opnd(b.getCondition()); I.aux = mkEdge(in.getParent(), b.getSuccessor(0)); I.aux2 = mkEdge(in.getParent(), b.getSuccessor(1)); }
        push(); return; }
      case Instruction::Switch: {
        auto& s = cast<SwitchInst>(in); SwitchTab t; I.op = O_SWITCH; I.a = opnd(s.getCondition()); I.w2 = width(s.getCondition()->getType());
        t.def = mkEdge(in.getParent(), s.getDefaultDest());
        for (auto& c : s.cases()) t.cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(in.getParent(), c.getCaseSuccessor())});
        I.aux = f.switches.size(); f.switches.push_back(t); push(); return; }
      case Instruction::Ret: {
        auto& r = cast<ReturnInst>(in);
        if (!r.getReturnValue()) I.op = O_RET;
        else { I.op = O_RETV; I.n = leaves(r.getReturnValue()->getType());
          if (I.n == 1) I.a = opnd(r.getReturnValue());
          else { if (isa<Constant>(r.getReturnValue())) die("ret agg const", &in); I.a = reg.at(r.getReturnValue()); } }
        push(); return; }
      case Instruction::Unreachable: I.op = O_UNREACH; push(); return;
      case Instruction::PHI: return;
      case Instruction::ExtractValue: {
        auto& e = cast<ExtractValueInst>(in); int off = leafOffset(e.getAggregateOperand()->getType(), e.getIndices());
        for (int i = 0; i < nl; i++) { Inst J = I; J.op = O_MOV; J.dst = I.dst + i; J.a = opndLeaf(e.getAggregateOperand(), off + i); J.w = 64; f.code.push_back(J); }
        return; }
      case Instruction::InsertValue: {
        auto& e = cast<InsertValueInst>(in); int off = leafOffset(T, e.getIndices()); int vn = leaves(e.getInsertedValueOperand()->getType());
        for (int i = 0; i < nl; i++) { Inst J = I; J.op = O_MOV; J.dst = I.dst + i; J.w = 64;
          if (i >= off && i < off + vn) J.a = vn == 1 ? opnd(e.getInsertedValueOperand()) : opndLeaf(e.getInsertedValueOperand(), i - off);
          else J.a = opndLeaf(e.getAggregateOperand(), i);
          f.code.push_back(J); }
        return; }
      case Instruction::Call: call(cast<CallInst>(in), I, f); return;
      default: die("instruction", &in);
    }
  }
  void call(const CallInst& c, Inst I, Func& f) {
    const Function* fn = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
    auto A = [&](int i) { return opnd(c.getArgOperand(i)); };
    auto push = [&]() { f.code.push_back(I); };
    if (fn && fn->isIntrinsic()) {
      if (isa<DbgInfoIntrinsic>(c)) return;
      switch (fn->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
          I.op = O_MEMCPY; I.pred = fn->getIntrinsicID() == Intrinsic::memmove; I.a = A(0); I.b = A(1); I.c = A(2); push(); return;
        case Intrinsic::memset: I.op = O_MEMSET; I.a = A(0); I.b = A(1); I.c = A(2); push(); return;
        case Intrinsic::fabs: I.op = O_FABS; I.a = A(0); push(); return;
        case Intrinsic::sqrt: I.op = O_SQRT; I.a = A(0); push(); return;
        case Intrinsic::floor: I.op = O_FLOOR; I.a = A(0); push(); return;
        case Intrinsic::ceil: I.op = O_CEIL; I.a = A(0); push(); return;
        case Intrinsic::fmuladd: case Intrinsic::fma: I.op = O_FMULADD; I.a = A(0); I.b = A(1); I.c = A(2); push(); return;
        case Intrinsic::smax: I.op = O_MINMAX; I.pred = 0; I.a = A(0); I.b = A(1); push(); return;
        case Intrinsic::smin: I.op = O_MINMAX; I.pred = 1; I.a = A(0); I.b = A(1); push(); return;
        case Intrinsic::umax: I.op = O_MINMAX; I.pred = 2; I.a = A(0); I.b = A(1); push(); return;
        case Intrinsic::umin: I.op = O_MINMAX; I.pred = 3; I.a = A(0); I.b = A(1); push(); return;
        case Intrinsic::abs: I.op = O_IABS; I.a = A(0); push(); return;
        case Intrinsic::vastart: I.op = O_VASTART; I.a = A(0); push(); return;
        case Intrinsic::vaend: return;
        case Intrinsic::vacopy: I.op = O_VACOPY; I.a = A(0); I.b = A(1); push(); return;
        case Intrinsic::expect: I.op = O_MOV; I.a = A(0); push(); return;
        case Intrinsic::stacksave: I.op = O_STACKSAVE; push(); return;
        case Intrinsic::stackrestore: I.op = O_STACKRESTORE; I.a = A(0); push(); return;
        case Intrinsic::trap: I.op = O_UNREACH; push(); return;
        case Intrinsic::objectsize: { I.op = O_MOV; ConstDesc d; d.v = ~0ull; I.a = ~cidx(d); push(); return; }
        case Intrinsic::is_constant: { I.op = O_MOV; ConstDesc d; d.w = 1; I.a = ~cidx(d); push(); return; }
        default: die("intrinsic", &c);
      }
    }
    if (isa<InlineAsm>(c.getCalledOperand())) die("inline asm", &c);
    CallInfo ci; ci.dst = I.dst; ci.nret = I.n; ci.retw = I.w;
    for (unsigned i = 0; i < c.arg_size(); i++) {
      const Value* a = c.getArgOperand(i); Type* t = a->getType();
      if (leaves(t) != 1 || t->isAggregateType()) die("agg arg", &c);
      if (c.isByValArgument(i)) die("byval arg", &c);
      ci.args.push_back(opnd(a)); ci.argw.push_back(width(t)); ci.argfp.push_back(t->isFloatingPointTy());
    }
    if (fn) { ci.fn = fidx.at(fn); I.op = O_CALL; } else { ci.fnop = opnd(c.getCalledOperand()); I.op = O_CALLI; }
    I.aux = f.calls.size(); f.calls.push_back(ci); push();
  }
  void run(const char* path) {
    SMDiagnostic err; M = parseIRFile(path, err, ctx);
    if (!M) { fprintf(stderr, "symx: cannot read %s\n", path); exit(3); }
    DL = &M->getDataLayout();
    for (auto& g : M->globals()) { gidx[&g] = P.globals.size(); Global G; G.name = g.getName().str(); G.size = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
      G.align = g.getAlign() ? g.getAlign()->value() : 16; G.isConst = g.isConstant(); G.defined = g.hasInitializer(); P.glIndex[G.name] = P.globals.size(); P.globals.push_back(G); }
    for (auto& f : *M) { fidx[&f] = P.funcs.size(); Func F; F.name = f.getName().str(); F.defined = !f.isDeclaration(); F.vararg = f.isVarArg();
      if (auto* sp = f.getSubprogram()) F.file = sp->getFilename().str();
      P.fnIndex[F.name] = P.funcs.size(); P.funcs.push_back(F); }
    for (auto& g : M->globals()) if (g.hasInitializer()) { Global& G = P.globals[gidx[&g]]; G.init.assign(G.size, 0); initBytes(G, g.getInitializer(), 0); }
    for (auto& f : *M) if (!f.isDeclaration()) { Func F = P.funcs[fidx[&f]]; function(f, F); P.funcs[fidx[&f]] = F; }
  }
};
}
void decodeBitcode(const char* path, Prog& P) { Dec d(P); d.run(path); }
