#include "engine.h"
#include <map>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <ctime>
#include <csignal>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <linux/futex.h>

Shared* SH;
static Prog P;
static std::string gOut = "/tmp/symx-out", gHarness = "h";
static uint64_t gMaxInstr = 60000000; static double gDeadline = 600; static int gProcs = 8; static uint64_t gSampleMax = 12; static int gVerbose = 0; static uint64_t gSeed = 1;
static double tStart;
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ================================================================ per-path state
static std::vector<Obj> objs; static uint64_t heapTop; static uint64_t liveBlocks, liveBytes; static uint64_t gHeapLimit = ARENA + (700ull << 20);
static std::vector<Rank*> ranks; static Rank* R; static Rank* mainRank;
static uint64_t instrCount, pathInstrBase; static int depth; static std::string decisions;
struct Input { std::string name; int kind; int w; Val v; uint64_t lo, hi; };   // kind 0 int 1 double 2 bytes
static std::vector<Input> inputs;
struct LogItem { std::string label; Val v; int w; bool fp; };
static std::vector<LogItem> logs;
static bool gExitOK = false; static int uninitCtr = 0; static int gNRanks = 1; static bool inRanks = false; static int gRendezvous = 0; static int gDescend = 0;
static std::string pathNote;
static SolverStats lastFlushed;

// ---------------------------------------------------------------- locking / tokens
static void lk() { while (__sync_lock_test_and_set(&SH->lock, 1)) { sched_yield(); } }
static void ulk() { __sync_lock_release(&SH->lock); }
static void fwake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE, 1, 0, 0, 0); }
static void releaseToken() {
  lk(); int best = -1; for (int i = 0; i < SH->nwait; i++) if (SH->w[i].used == 1 && (best < 0 || SH->w[i].depth > SH->w[best].depth)) best = i;
  if (best >= 0) { SH->w[best].used = 2; SH->w[best].word = 1; ulk(); fwake(&SH->w[best].word); }
  else { SH->tokens++; ulk(); }
}
static void waitToken() {
  lk(); if (SH->tokens > 0) { SH->tokens--; ulk(); return; }
  int i = 0; while (i < SH->nwait && SH->w[i].used) i++; if (i == SH->nwait) { if (i >= 65536) { ulk(); _exit(9); } SH->nwait++; }
  SH->w[i].used = 1; SH->w[i].depth = depth; SH->w[i].word = 0; ulk();
  while (!__atomic_load_n(&SH->w[i].word, __ATOMIC_ACQUIRE)) { syscall(SYS_futex, &SH->w[i].word, FUTEX_WAIT, 0, 0, 0, 0); }
  lk(); SH->w[i].used = 0; while (SH->nwait > 0 && !SH->w[SH->nwait - 1].used) SH->nwait--; ulk();
}
static void flushStats() {
  __atomic_add_fetch(&SH->instrs, instrCount, __ATOMIC_RELAXED); instrCount = 0;
#define F(n, f) __atomic_add_fetch(&SH->n, gSol.f - lastFlushed.f, __ATOMIC_RELAXED)
  F(queries, queries); F(sat, sat); F(unsat, unsat); F(unknown, unknown); F(cacheHits, cacheHits); F(modelHits, modelHits);
  __atomic_add_fetch(&SH->solverUs, (uint64_t)((gSol.time - lastFlushed.time) * 1e6), __ATOMIC_RELAXED);
  lastFlushed = gSol;
  if ((uint64_t)depth > SH->maxDepth) SH->maxDepth = depth;
}
static void finishProcess() { flushStats(); releaseToken(); __atomic_sub_fetch(&SH->live, 1, __ATOMIC_SEQ_CST); _exit(0); }
static void checkStop() { if (__atomic_load_n(&SH->stop, __ATOMIC_RELAXED)) { finishProcess(); } }

// ---------------------------------------------------------------- reporting
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string loc(int up = 0) {
  if (!R || (int)R->frames.size() <= up) return "?"; Frame& fr = R->frames[R->frames.size() - 1 - up];
  uint32_t pc = fr.pc; uint32_t line = pc < fr.f->code.size() ? fr.f->code[pc].line : 0; std::string fl = fr.f->file; size_t s = fl.rfind('/'); if (s != std::string::npos) fl = fl.substr(s + 1);
  return fr.f->name + " (" + fl + ":" + std::to_string(line) + ")";
}
static std::string stackTrace() { std::string s = "["; if (R) for (int i = 0; i < (int)R->frames.size() && i < 24; i++) { if (i) s += ","; s += jstr(loc(i)); } return s + "]"; }
static bool isHarnessFile(const std::string& f) { return f.find("/repo/") != 0; }
static std::string topRepoFn() { if (R) for (int i = (int)R->frames.size() - 1; i >= 0; i--) if (!isHarnessFile(R->frames[i].f->file)) return R->frames[i].f->name; return "harness"; }
static std::string inputsJson(const ModelVals* mv) {
  std::string s = "["; bool first = true;
  for (auto& in : inputs) {
    uint64_t v = in.v.e ? (mv ? evalModelWith(in.v.e, *mv) : evalModel(in.v.e)) : in.v.c;
    char b[256]; snprintf(b, sizeof b, "%s{\"name\":%s,\"kind\":%d,\"w\":%d,\"v\":%llu}", first ? "" : ",", jstr(in.name).c_str(), in.kind, in.w, (unsigned long long)(in.kind == 0 ? (uint64_t)sextw(v, in.w) : v)); 
    if (in.kind == 0) snprintf(b, sizeof b, "%s{\"name\":%s,\"kind\":0,\"w\":%d,\"v\":%lld}", first ? "" : ",", jstr(in.name).c_str(), in.w, (long long)sextw(v, in.w));
    s += b; first = false;
  }
  return s + "]";
}
static std::string logsJson(const ModelVals* mv) {
  std::string s = "["; bool first = true;
  for (auto& l : logs) { uint64_t v = l.v.e ? (mv ? evalModelWith(l.v.e, *mv) : evalModel(l.v.e)) : l.v.c; bool un = l.v.e && (l.v.e->flags & X_UF) && !modelValid(l.v.e);
    char b[200]; if (un) snprintf(b, sizeof b, "%s[%s,null]", first ? "" : ",", jstr(l.label).c_str()); else snprintf(b, sizeof b, "%s[%s,%llu]", first ? "" : ",", jstr(l.label).c_str(), (unsigned long long)(v & maskw(l.w))); s += b; first = false; }
  return s + "]";
}
static void writeFile(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0) return; size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd); }
static void report(const char* kind, const std::string& msg, const ModelVals* mv = nullptr, bool gap = false) {
  std::string key = std::string(kind) + "|" + msg + "|" + topRepoFn(); if (key.size() > 230) key.resize(230);
  lk(); int i = 0; while (i < SH->nerr && strcmp(SH->err[i].key, key.c_str())) i++;
  bool isnew = false; if (i == SH->nerr && i < 256) { strcpy(SH->err[i].key, key.c_str()); SH->err[i].count = 0; SH->nerr++; isnew = true; }
  int cnt = i < 256 ? SH->err[i].count++ : 99; uint64_t seq = SH->fileSeq++; ulk(); (void)isnew;
  if (cnt < 3) {
    std::string j = "{\"harness\":" + jstr(gHarness) + ",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"fn\":" + jstr(topRepoFn()) + ",\"gap\":" + (gap ? "true" : "false") + ",\"rank\":" + std::to_string(R ? R->id : -1) +
      ",\"nranks\":" + std::to_string(gNRanks) + ",\"rendezvous\":" + std::to_string(gRendezvous) + ",\"stack\":" + stackTrace() + ",\"inputs\":" + inputsJson(mv) + ",\"log\":" + logsJson(mv) + ",\"note\":" + jstr(pathNote) + "}\n";
    writeFile(gOut + "/err-" + std::to_string(seq) + ".json", j);
  }
  if (gVerbose) fprintf(stderr, "[symx] %s: %s at %s inputs %s\n", kind, msg.c_str(), loc().c_str(), inputsJson(mv).c_str());
}
[[noreturn]] static void endPath(uint64_t* ctr) {
  __atomic_add_fetch(ctr, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&SH->leaves, 1, __ATOMIC_RELAXED); finishProcess(); abort();
}
[[noreturn]] static void violation(const char* kind, const std::string& msg) { report(kind, msg); endPath(&SH->pathsErr); }
[[noreturn]] static void gap(const std::string& msg) { report("gap", msg, nullptr, true); endPath(&SH->pathsGap); }

// ================================================================ forking
// returns 0 in the process that keeps the current model's side, 1 in the one that takes the other side (already applied)
static int forkPath() {
  checkStop();
  __atomic_add_fetch(&SH->forks, 1, __ATOMIC_RELAXED); depth++;
  if (depth > 20000) gap("path too deep");
  flushStats();
  lk(); bool tok = SH->tokens > 0; if (tok) SH->tokens--; __atomic_add_fetch(&SH->live, 1, __ATOMIC_SEQ_CST); ulk();
  pid_t pid = fork();
  if (pid < 0) { __atomic_sub_fetch(&SH->live, 1, __ATOMIC_SEQ_CST); if (tok) releaseToken(); gap("fork failed"); }
  if (pid == 0) { memset(&gSol, 0, sizeof gSol); memset(&lastFlushed, 0, sizeof lastFlushed); instrCount = 0; return 0; }
  if (!tok) { waitToken(); }        // the child runs on our token
  checkStop();
  return 1;
}
// decide a 1-bit expression; forks when both sides are feasible
static bool decide(Expr* e) {
  if (e->op == E_CONST) return e->c;
  if (e->known) return e->kv;
  bool b;
  ModelVals m0;
  if (!modelValid(e)) {
    Sat s = checkWith(e, &m0); if (s == S_SAT) { applyModel(m0); b = true; } else { Sat s2 = checkWith(eNot(e), &m0); if (s2 != S_SAT) { gap("solver gave no answer at a branch"); } applyModel(m0); b = false; }
  } else { b = evalModel(e); }
  ModelVals m; Expr* other = b ? eNot(e) : e;
  Sat s = checkWith(other, &m);
  if (s == S_UNK) { report("gap", "solver resource limit at a branch", nullptr, true); __atomic_add_fetch(&SH->pathsGap, 1, __ATOMIC_RELAXED); }
  if (s != S_SAT) { e->known = true; e->kv = b; return b; }
  if (e->flags & X_UNINIT) violation("uninit", "branch depends on uninitialised memory");
  if (forkPath() == 0) { decisions += b ? '1' : '0'; pcAdd(b ? e : eNot(e)); return b; }
  decisions += b ? '0' : '1'; applyModel(m); pcAdd(other); return !b;
}
static uint64_t concretize(Expr* e, const char* what) {
  if (e->op == E_CONST) return e->c;
  int iter = 0;
  for (;;) {
    if (e->known) return e->kv;
    if (!modelValid(e)) { ModelVals m0; if (checkWith(eMk(E_EQ, 1, e, e), &m0) != S_SAT) {} Expr* t = eMk(E_ULE, 1, eConst(0, e->w), e); (void)t; gap(std::string("cannot evaluate uninterpreted value at ") + what); }
    uint64_t v = evalModel(e); Expr* eq = eMk(E_EQ, 1, e, eConst(v, e->w));
    if (eq->op == E_CONST) { if (eq->c) return v; gap("concretize"); }
    if (decide(eq)) { markKnown(e, v); return v; }
    if (++iter > 4096) gap(std::string("too many values for ") + what);
  }
}
static uint64_t conc(Val v, const char* what) {
  if (!v.e) return v.c;
  if (v.e->known) return v.e->kv;
  if (v.e->flags & X_UNINIT) {
    uint64_t x = evalModel(v.e); ModelVals m; Expr* ne = eNot(eMk(E_EQ, 1, v.e, eConst(x, v.e->w)));
    if (checkWith(ne, &m) == S_SAT) violation("uninit", std::string("uninitialised value used as ") + what); markKnown(v.e, x); return x; }
  return concretize(v.e, what);
}

// ================================================================ memory
static void setShadow(uint64_t a, uint64_t n, uint8_t s) { memset(SHADOW(a), s, n); }
static int newObj(uint64_t addr, uint64_t size, int kind) { Obj o; o.addr = addr; o.size = size; o.kind = kind; o.alive = true; o.ro = false; o.rank = R ? R->id : -1; o.fn = 0; o.line = 0;
  if (R && !R->frames.empty()) { Frame& fr = R->frames.back(); o.fn = (uint32_t)(fr.f - &P.funcs[0]); o.line = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].line : 0; }
  objs.push_back(o); uint32_t id = objs.size();  // ids start at 1
  for (uint64_t g = addr; g < addr + std::max<uint64_t>(size, 1); g += 16) *GRAN(g) = id; return id; }
static uint64_t heapLow;
static uint64_t heapAlloc(uint64_t n, int kind, uint8_t sh) {
  uint64_t sz = (std::max<uint64_t>(n, 1) + 15) & ~15ull; uint64_t a;
  if (n > (256ull << 20)) gap("huge allocation");
  if (gDescend && kind == 0) { heapLow -= sz + 32; a = heapLow; if (heapLow < heapTop + 4096) gap("arena exhausted"); }
  else { a = heapTop + 32; heapTop = a + sz; if (heapTop + 64 > (gDescend ? heapLow : gHeapLimit)) gap("arena exhausted"); }
  setShadow(a - 32, 32, SH_RED); setShadow(a, n, sh); setShadow(a + n, sz - n + 32, SH_RED);
  if (sh == SH_CONC) memset(HOST(a), 0, n);
  newObj(a, n, kind); return a;
}
static Obj* objAt(uint64_t a) { if (a < ARENA || a >= ARENA + ARENA_SZ) return nullptr; uint32_t id = *GRAN(a); return id ? &objs[id - 1] : nullptr; }
static std::string describe(uint64_t a) {
  if (a < 4096) return "null pointer"; if (a < ARENA || a >= ARENA + ARENA_SZ) return "wild pointer";
  return "";
}
[[noreturn]] static void badAccess(uint64_t a, uint64_t n, bool wr) {
  std::string d = describe(a); const char* rw = wr ? "write" : "read";
  if (!d.empty()) violation("mem", std::string(rw) + " through " + d);
  uint8_t s = SH_CONC; for (uint64_t i = 0; i < n; i++) { s = *SHADOW(a + i); if (s != SH_CONC && s != SH_SYM && s != SH_UNINIT) break; }
  if (s == SH_FREED) violation("mem", std::string("heap use after free (") + rw + ")");
  if (s == SH_DEADSTACK) violation("mem", std::string("use of dead stack memory (") + rw + ")");
  if (s == SH_PEND) violation("mpi", "receive buffer accessed before the receive completed");
  violation("mem", std::string("out-of-bounds ") + rw);
}
static inline bool accessible(uint64_t a, uint64_t n) { if (a < ARENA || a + n > ARENA + ARENA_SZ) return false; for (uint64_t i = 0; i < n; i++) { uint8_t s = *SHADOW(a + i); if (s == SH_NONE || s > SH_SYM) return false; } return true; }
static Expr* freshUninit(int w) { return eVar("uninit" + std::to_string(uninitCtr++), w, w >= 64 ? INT64_MIN : -(1ll << (w - 1)), w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1, X_UNINIT); }
static Val loadSlow(uint64_t a, int n, int w) {
  if (!accessible(a, n)) badAccess(a, n, false);
  bool allU = true; for (int i = 0; i < n; i++) if (*SHADOW(a + i) != SH_UNINIT) allU = false;
  if (allU) { Expr* v = freshUninit(n * 8); for (int i = 0; i < n; i++) { *SHADOW(a + i) = SH_SYM; *SYMP(a + i) = v; *SYMI(a + i) = i; } }
  else for (int i = 0; i < n; i++) if (*SHADOW(a + i) == SH_UNINIT) { Expr* v = freshUninit(8); *SHADOW(a + i) = SH_SYM; *SYMP(a + i) = v; *SYMI(a + i) = 0; }
  // one whole expression?
  Expr* e0 = *SHADOW(a) == SH_SYM ? *SYMP(a) : nullptr; bool whole = e0 && *SYMI(a) == 0 && e0->w == n * 8;
  if (e0) for (int i = 0; whole && i < n; i++) if (*SHADOW(a + i) != SH_SYM || *SYMP(a + i) != e0 || *SYMI(a + i) != i) whole = false;
  Expr* r;
  if (whole) r = e0;
  else { r = nullptr; int i = 0;
    while (i < n) { Expr* piece; int len = 1;
      if (*SHADOW(a + i) == SH_CONC) { uint64_t c = HOST(a)[i]; while (i + len < n && *SHADOW(a + i + len) == SH_CONC) { c |= (uint64_t)HOST(a)[i + len] << (8 * len); len++; } piece = eConst(c, len * 8); }
      else { Expr* x = *SYMP(a + i); int st = *SYMI(a + i); while (i + len < n && *SHADOW(a + i + len) == SH_SYM && *SYMP(a + i + len) == x && *SYMI(a + i + len) == st + len) len++; piece = eExtract(x, st * 8, len * 8); }
      r = r ? eMk(E_CONCAT, r->w + piece->w, piece, r) : piece; i += len; } }
  if (r->known) r = eConst(r->kv, r->w);
  if (w < n * 8) r = eExtract(r, 0, w);
  return fromE(r);
}
static inline Val loadMem(uint64_t a, int n, int w) {
  if (a >= ARENA && a + n <= ARENA + ARENA_SZ) {
    uint8_t* s = SHADOW(a); uint64_t v;
    switch (n) {
      case 1: if (*s == SH_CONC) return CV(*HOST(a) & maskw(w)); break;
      case 2: if (*(uint16_t*)s == 0x0202) return CV(*(uint16_t*)a); break;
      case 4: if (*(uint32_t*)s == 0x02020202u) return CV(*(uint32_t*)a); break;
      case 8: if (*(uint64_t*)s == 0x0202020202020202ull) { memcpy(&v, (void*)a, 8); return CV(v & maskw(w)); } break;
    }
  }
  return loadSlow(a, n > 8 ? 8 : n, w > 64 ? 64 : w);
}
static inline bool roObj(uint64_t a) { Obj* o = objAt(a); return o && o->ro; }
static void storeMem(uint64_t a, Val v, int n, int w) {
  if (n > 8) { n = 8; w = 64; }
  if (!(a >= ARENA && a + n <= ARENA + ARENA_SZ)) badAccess(a, n, true);
  uint8_t* s = SHADOW(a); bool ok = true; for (int i = 0; i < n; i++) if (s[i] == SH_NONE || s[i] > SH_SYM) ok = false;
  if (!ok) badAccess(a, n, true);
  if (a < ARENA + (64ull << 20) && roObj(a)) violation("mem", "write to read-only memory");
  if (v.e && v.e->known) v = CV(v.e->kv);
  if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(HOST(a), &c, n); memset(s, SH_CONC, n); return; }
  Expr* e = v.e; if (e->w < n * 8) e = eMk(E_ZEXT, n * 8, e);
  for (int i = 0; i < n; i++) { s[i] = SH_SYM; *SYMP(a + i) = e; *SYMI(a + i) = i; }
}
static std::vector<MByte> readBytes(uint64_t a, uint64_t n) {
  std::vector<MByte> r(n); if (n && !accessible(a, n)) badAccess(a, n, false);
  for (uint64_t i = 0; i < n; i++) { r[i].sh = *SHADOW(a + i); r[i].c = HOST(a)[i]; r[i].e = r[i].sh == SH_SYM ? *SYMP(a + i) : nullptr; r[i].idx = *SYMI(a + i); } return r; }
static void writeBytes(uint64_t a, const std::vector<MByte>& b, bool force = false) {
  uint64_t n = b.size(); if (!n) return; if (!force && !accessible(a, n)) badAccess(a, n, true);
  if (roObj(a)) violation("mem", "write to read-only memory");
  for (uint64_t i = 0; i < n; i++) { *SHADOW(a + i) = b[i].sh; HOST(a)[i] = b[i].c; if (b[i].sh == SH_SYM) { *SYMP(a + i) = b[i].e; *SYMI(a + i) = b[i].idx; } } }
static void memCopy(uint64_t d, uint64_t s, uint64_t n) { if (!n) return;
  if (!accessible(s, n)) badAccess(s, n, false); if (!accessible(d, n)) badAccess(d, n, true); if (roObj(d)) violation("mem", "write to read-only memory");
  bool sym = memchr(SHADOW(s), SH_SYM, n) != nullptr;
  if (!sym) { memmove(HOST(d), HOST(s), n); memmove(SHADOW(d), SHADOW(s), n); return; }
  writeBytes(d, readBytes(s, n)); }
static std::string cstr(uint64_t a) { std::string s; for (;; a++) { Val v = loadMem(a, 1, 8); uint8_t c = (uint8_t)conc(v, "string byte"); if (!c) return s; s += c; if (s.size() > 100000) gap("long string"); } }
static void putStr(uint64_t a, const std::string& s) { for (size_t i = 0; i <= s.size(); i++) storeMem(a + i, CV(i < s.size() ? (uint8_t)s[i] : 0), 1, 8); }
static uint64_t doMalloc(uint64_t n, bool zero) { uint64_t a = heapAlloc(n, 0, zero ? SH_CONC : SH_UNINIT); liveBlocks++; liveBytes += n; return a; }
static void doFree(uint64_t a) {
  if (!a) return; Obj* o = objAt(a);
  if (!o || o->kind != 0 || o->addr != a) violation("mem", a < 4096 || !o ? "free of an invalid pointer" : o->kind == 0 ? "free of an interior pointer" : "free of non-heap memory");
  if (!o->alive) violation("mem", "double free");
  o->alive = false; liveBlocks--; liveBytes -= o->size; setShadow(a, o->size, SH_FREED);
}

// ================================================================ virtual files
struct FItem { uint8_t c; bool tok; Val v; int w; bool fp; std::string rt; };
struct VFile { std::vector<FItem> d; };
static std::map<std::string, VFile> vfs;
struct Stream { std::string name; size_t pos = 0; bool rd = false, wr = false, eof = false, open = false, app = false; int std_ = 0; };
static std::map<uint64_t, Stream> streams;
struct Tok { Val v; int w; bool fp; std::string rt; };
static std::vector<Tok> toks;
static Val rtVal(Val v, const std::string& rt) { // value of a double after printing with conversion rt and reading back
  if (v.e && v.e->known) v = CV(v.e->kv);
  if (!v.e) { char b[512]; snprintf(b, sizeof b, rt.c_str(), asD(v.c)); return CV(dbits(strtod(b, 0))); }
  // 17 or more significant digits with %e/%g round-trips exactly
  size_t dot = rt.find('.'); int prec = 6; if (dot != std::string::npos) prec = atoi(rt.c_str() + dot + 1); char conv = rt.back();
  if ((conv == 'e' || conv == 'E') && prec >= 16) return v; if ((conv == 'g' || conv == 'G') && prec >= 17) return v;
  if (v.e->op == E_I2F && v.e->k[0]->lo >= -99999 && v.e->k[0]->hi <= 99999) { if (conv == 'f' || prec >= 6) return v; }
  std::string canon = std::string(1, (char)tolower(conv)) + std::to_string(prec);
  return fromE(eMk(E_UF, 64, v.e, nullptr, nullptr, 0, ufIndex("rt_" + canon)));
}
// printf-style formatting into items
static std::vector<FItem> fmtOut(const std::string& fmt, const std::vector<Val>& args, const std::vector<uint8_t>& aw) {
  std::vector<FItem> out; size_t ai = 0; auto ch = [&](char c) { out.push_back(FItem{(uint8_t)c, false, CV(0), 0, false, ""}); };
  auto str = [&](const std::string& s) { for (char c : s) ch(c); };
  auto next = [&](int& w) -> Val { if (ai >= args.size()) { violation("mem", "too few arguments for format string"); } Val v = args[ai]; w = aw[ai]; ai++; if (v.e && v.e->known) v = CV(v.e->kv); return v; };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { ch(fmt[i]); continue; }
    if (i + 1 < fmt.size() && fmt[i + 1] == '%') { ch('%'); i++; continue; }
    std::string spec = "%"; i++; std::string lenmod; int width = 0;
    while (i < fmt.size() && strchr("-+ #0123456789.*", fmt[i])) { if (fmt[i] == '*') { int w; Val v = next(w); spec += std::to_string((int)conc(v, "format width")); } else spec += fmt[i]; i++; }
    while (i < fmt.size() && strchr("hlLqjzt", fmt[i])) { lenmod += fmt[i]; i++; }
    char cv = i < fmt.size() ? fmt[i] : 0; { size_t p = 1; while (p < spec.size() && strchr("-+ #0", spec[p])) p++; width = atoi(spec.c_str() + p); }
    int w; char buf[1024];
    switch (cv) {
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'c': {
        Val v = next(w); bool l = lenmod.find('l') != std::string::npos || lenmod == "z"; int tw = l ? 64 : 32;
        if (v.e && (v.e->flags & X_UNINIT)) conc(v, "formatted output");
        if (v.e && cv == 'c') v = CV(conc(v, "character output"));
        if (v.e) { Expr* e = v.e; if (e->w > tw) e = eExtract(e, 0, tw); 
          int64_t lim = 1; for (int k = 0; k < width - 1 && k < 17; k++) lim *= 10; bool pad = width > 1 && e->hi < lim && e->lo > -(lim / 10);
          if (pad) ch(' '); out.push_back(FItem{0, true, fromE(e), tw, false, ""}); if (e->op == E_CONST || e->known) {} break; }
        if (cv == 'c') snprintf(buf, sizeof buf, (spec + "c").c_str(), (int)v.c);
        else if (l) snprintf(buf, sizeof buf, (spec + "l" + cv).c_str(), (long)v.c); else snprintf(buf, sizeof buf, (spec + cv).c_str(), (int)v.c);
        str(buf); break; }
      case 'f': case 'e': case 'g': case 'E': case 'G': case 'F': {
        Val v = next(w); if (v.e && (v.e->flags & X_UNINIT)) conc(v, "formatted output");
        if (v.e) { if (width > 1) ch(' '); std::string sp2 = "%"; size_t dot = spec.find('.'); if (dot != std::string::npos) sp2 += spec.substr(dot); sp2 += cv; out.push_back(FItem{0, true, v, 64, true, sp2}); break; }
        snprintf(buf, sizeof buf, (spec + cv).c_str(), asD(v.c)); str(buf); break; }
      case 's': { Val v = next(w); std::string s = cstr(conc(v, "string pointer")); if (s.size() < 900) { snprintf(buf, sizeof buf, (spec + "s").c_str(), s.c_str()); str(buf); } else str(s); break; }
      case 'p': { Val v = next(w); snprintf(buf, sizeof buf, "%p", (void*)conc(v, "pointer")); str(buf); break; }
      default: gap(std::string("printf conversion ") + cv);
    }
  }
  return out;
}
static std::string encodeItems(const std::vector<FItem>& it) { std::string s; for (auto& f : it) { if (!f.tok) s += (char)f.c; else { toks.push_back(Tok{f.v, f.w, f.fp, f.rt}); s += "\x01" + std::to_string(toks.size() - 1) + "\x02"; } } return s; }
// character source for scanf: items
struct Src { std::vector<FItem>* d; size_t* pos; bool eof() { return *pos >= d->size(); } FItem& cur() { return (*d)[*pos]; } };
static Val tokAsDouble(const FItem& t) { if (t.fp) return rtVal(t.v, t.rt); return fromE(eMk(E_I2F, 64, toE(t.v, t.w))); }
static std::vector<FItem> decodeStr(const std::string& s) { std::vector<FItem> o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x01') { int id = atoi(s.c_str() + i + 1); while (s[i] != '\x02') i++; Tok& t = toks[id]; o.push_back(FItem{0, true, t.v, t.w, t.fp, t.rt}); } else o.push_back(FItem{(uint8_t)s[i], false, CV(0), 0, false, ""}); } return o; }
static int doScanf(Src s, const std::string& fmt, const std::vector<Val>& args, size_t ai) {
  int n = 0; auto ws = [&]() { while (!s.eof() && !s.cur().tok && isspace(s.cur().c)) (*s.pos)++; };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (isspace((unsigned char)fmt[i])) { ws(); continue; }
    if (fmt[i] != '%') { if (s.eof()) return n ? n : -1; if (s.cur().tok || s.cur().c != (uint8_t)fmt[i]) return n; (*s.pos)++; continue; }
    i++; bool skip = false; if (fmt[i] == '*') { skip = true; i++; } int width = 0; while (isdigit((unsigned char)fmt[i])) width = width * 10 + fmt[i++] - '0';
    std::string lm; while (strchr("hlLz", fmt[i])) lm += fmt[i++];
    char cv = fmt[i]; if (cv != 'c') ws(); if (s.eof()) return n ? n : -1;
    uint64_t dst = 0; if (!skip) { if (ai >= args.size()) violation("mem", "too few arguments for scanf"); dst = conc(args[ai++], "pointer"); }
    if (cv == 's') { std::string t; while (!s.eof() && (s.cur().tok || !isspace(s.cur().c)) && (!width || (int)t.size() < width)) { if (s.cur().tok) t += encodeItems({s.cur()}); else t += (char)s.cur().c; (*s.pos)++; } if (!skip) { putStr(dst, t); n++; } continue; }
    if (cv == 'c') { if (s.cur().tok) gap("scanf %c on symbolic number"); if (!skip) { storeMem(dst, CV(s.cur().c), 1, 8); n++; } (*s.pos)++; continue; }
    bool isInt = cv == 'd' || cv == 'i' || cv == 'u'; if (!isInt && !strchr("fegEG", cv)) gap(std::string("scanf conversion ") + cv);
    bool l = lm.find('l') != std::string::npos;
    if (s.cur().tok) {
      FItem t = s.cur(); (*s.pos)++; if (!s.eof() && (s.cur().tok || isdigit(s.cur().c))) gap("adjacent symbolic numbers in a file"); 
      if (isInt) { if (t.fp) gap("integer read of a symbolic floating-point field"); if (!skip) { Expr* e = toE(t.v, t.w); int ow = l ? 64 : 32; e = e->w < ow ? eMk(E_SEXT, ow, e) : eExtract(e, 0, ow); storeMem(dst, fromE(e), ow / 8, ow); n++; } }
      else { Val d = tokAsDouble(t); if (!skip) { if (l) storeMem(dst, d, 8, 64); else storeMem(dst, fromE(eMk(E_F64TO32, 32, toE(d, 64))), 4, 32); n++; } }
      continue;
    }
    std::string t; size_t q = *s.pos; while (q < s.d->size() && !(*s.d)[q].tok && !isspace((*s.d)[q].c) && t.size() < 400) t += (char)(*s.d)[q++].c;
    char* end; if (isInt) { long long v = strtoll(t.c_str(), &end, 10); if (end == t.c_str()) return n; if (!skip) { storeMem(dst, CV((uint64_t)v), l ? 8 : 4, l ? 64 : 32); n++; } }
    else { double v = strtod(t.c_str(), &end); if (end == t.c_str()) return n; if (!skip) { if (l) storeMem(dst, CV(dbits(v)), 8, 64); else storeMem(dst, CV(fbits((float)v)), 4, 32); n++; } }
    *s.pos += end - t.c_str();
  }
  return n;
}

// ================================================================ ranks, calls
static uint64_t stackTopAll;
static void setupRank(Rank* r) {
  r->gaddr.resize(P.globals.size());
  Rank* saveR = R; R = nullptr;
  static std::map<std::string, uint64_t> shared;
  for (size_t i = 0; i < P.globals.size(); i++) { Global& g = P.globals[i];
    if (!g.defined || g.isConst) { auto it = shared.find(g.name); if (it != shared.end()) { r->gaddr[i] = it->second; continue; } }
    uint64_t sz = g.defined ? g.size : std::max<uint64_t>(g.size, 64);
    uint64_t a = heapAlloc(sz, 2, SH_CONC); r->gaddr[i] = a; if (g.defined && sz) memcpy(HOST(a), g.init.data(), g.size);
    if (!g.defined || g.isConst) shared[g.name] = a;
  }
  auto cval = [&](const ConstDesc& c) -> uint64_t { switch (c.k) { case ConstDesc::GLOBAL: return r->gaddr[c.idx] + c.v; case ConstDesc::FUNC: return 0x200000000000ull + 16 * (uint64_t)c.idx + c.v; default: return c.v; } };
  for (size_t i = 0; i < P.globals.size(); i++) { Global& g = P.globals[i]; for (auto& rl : g.relocs) { uint64_t v = cval(rl.c); memcpy(HOST(r->gaddr[i] + rl.off), &v, 8); } if (g.defined && g.isConst) objAt(r->gaddr[i])->ro = true; }
  for (size_t i = 0; i < P.globals.size(); i++) if (!P.globals[i].defined && (P.globals[i].name == "stdout" || P.globals[i].name == "stderr" || P.globals[i].name == "stdin")) { uint64_t v = r->gaddr[i]; memcpy(HOST(v), &v, 8); streams[v].std_ = 1; streams[v].open = true; }
  r->consts.resize(P.consts.size());
  for (size_t i = 0; i < P.consts.size(); i++) { if (P.consts[i].k == ConstDesc::UNDEF) r->consts[i] = Val{0, freshUninit(P.consts[i].w > 64 ? 64 : P.consts[i].w)}; else r->consts[i] = CV(cval(P.consts[i])); }
  uint64_t ss = 8ull << 20; r->stackLo = stackTopAll; r->sp = stackTopAll + 64; r->stackHi = stackTopAll + ss; stackTopAll += ss + 4096;
  R = saveR;
}
static void pushFrame(Rank* r, const Func* f, const Val* args, int n, int32_t dst, const uint8_t* fp = nullptr) {
  if (r->frames.size() > 2000) { R = r; violation("hang", "unbounded recursion"); }
  uint32_t base = r->frames.empty() ? 0 : r->frames.back().base + r->frames.back().f->nregs;
  if (r->regs.size() < base + f->nregs) r->regs.resize((base + f->nregs) * 2);
  Frame fr; fr.f = f; fr.pc = 0; fr.base = base; fr.dst = dst; fr.sp = r->sp; fr.callLine = 0;
  for (size_t i = 0; i < f->params.size() && i < (size_t)n; i++) r->regs[base + f->params[i]] = args[i];
  if (f->vararg) for (int i = f->params.size(); i < n; i++) { fr.va.push_back(args[i]); fr.vafp.push_back(fp ? fp[i] : 0); }
  for (int i = 0; i < f->nslots; i++) r->regs[base + i] = Val{1, (Expr*)1};   // uninitialised slot marker
  r->frames.push_back(std::move(fr)); SH->fnUsed[f - &P.funcs[0]] = 1;
}
static uint64_t stackAlloc(uint64_t n, uint64_t align) {
  uint64_t a = (R->sp + 32 + 15) & ~15ull; (void)align; uint64_t sz = (std::max<uint64_t>(n, 1) + 15) & ~15ull;
  if (a + sz + 64 > R->stackHi) violation("mem", "stack overflow");
  setShadow(R->sp, a - R->sp, SH_RED); setShadow(a, n, SH_UNINIT); setShadow(a + n, sz - n + 16, SH_RED); R->sp = a + sz + 16; newObj(a, n, 1); return a;
}

#include "builtins.inc"

// ================================================================ interpreter
static inline Val norm(Val v) { if (v.e && v.e->known) return CV(v.e->kv); return v; }
static void takeEdge(Frame& fr, uint32_t ei) {
  const Edge& ed = fr.f->edges[ei]; Val* rg = &R->regs[fr.base];
  if (!ed.copies.empty()) { if (ed.copies.size() == 1) { auto& c = ed.copies[0]; rg[c.dst] = c.src < 0 ? R->consts[~c.src] : rg[c.src]; }
    else { std::vector<Val> t; for (auto& c : ed.copies) t.push_back(c.src < 0 ? R->consts[~c.src] : rg[c.src]); for (size_t i = 0; i < t.size(); i++) rg[ed.copies[i].dst] = t[i]; } }
  fr.pc = ed.target;
}
static bool builtinCall(Frame& fr, const CallInfo& ci, const Func& callee);

static Val binop(int op, int w, Val a, Val b) {
  if (w > 64) w = 64;
  static const EOp m[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
  return fromE(eMk(m[op - O_ADD], w, toE(a, w), toE(b, w)));
}
// executed instructions, for the author's coverage report (only with SYMX_COV set)
static uint8_t* gCov = nullptr; static std::vector<size_t> covBase;
static void covInit() { if (!getenv("SYMX_COV")) return; size_t n = 0; for (auto& f : P.funcs) { covBase.push_back(n); n += f.code.size(); } gCov = (uint8_t*)mmap(0, n + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void covWrite() {
  if (!gCov) return; FILE* o = fopen(getenv("SYMX_COV"), "a"); if (!o) return;
  for (size_t i = 0; i < P.funcs.size(); i++) { std::map<uint32_t, int> l; for (size_t k = 0; k < P.funcs[i].code.size(); k++) if (uint32_t ln = P.funcs[i].code[k].line) l[ln] |= gCov[covBase[i] + k];
    for (auto& x : l) fprintf(o, "%s %s %u %d\n", P.funcs[i].file.c_str(), P.funcs[i].name.c_str(), x.first, x.second); }
  fclose(o);
}
// run the current rank until it blocks, finishes or yields
static void runRank(Rank* r) {
  R = r;
  while (r->state == 0) {
    if (r->frames.empty()) { r->state = 2; return; }
    Frame& fr = r->frames.back(); const Func& f = *fr.f; const Inst* code = f.code.data(); Val* rg = &r->regs[fr.base]; const Val* cs = r->consts.data();
#define OP(x) norm((x) < 0 ? cs[~(x)] : rg[x])
    for (;;) {
      const Inst& I = code[fr.pc];
      if (__builtin_expect(gCov != nullptr, 0)) gCov[covBase[&f - &P.funcs[0]] + fr.pc] = 1;
      if (++instrCount % 65536 == 0) { pathInstrBase += 65536; if (pathInstrBase > gMaxInstr) { __atomic_add_fetch(&SH->hangs, 1, __ATOMIC_RELAXED); violation("hang", "instruction limit reached (possible non-termination)"); } checkStop(); }
      switch (I.op) {
        case O_NOP: break;
        case O_MOV: rg[I.dst] = OP(I.a); break;
        case O_LDSLOT: { Val v = rg[I.a]; if (v.e == (Expr*)1) { v = Val{0, freshUninit(I.w > 64 ? 64 : I.w)}; rg[I.a] = v; } rg[I.dst] = norm(v); break; }
        case O_STSLOT: rg[I.dst] = OP(I.a); break;
#define ARI(OPC, CEXPR) case OPC: { Val a = OP(I.a), b = OP(I.b); if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; (void)x; (void)y; rg[I.dst] = CV((uint64_t)(CEXPR) & maskw(I.w)); } else rg[I.dst] = binop(OPC, I.w, a, b); break; }
        ARI(O_ADD, x + y) ARI(O_SUB, x - y) ARI(O_MUL, x * y) ARI(O_AND, x & y) ARI(O_OR, x | y) ARI(O_XOR, x ^ y)
        ARI(O_SHL, y >= I.w ? 0 : x << y) ARI(O_LSHR, y >= I.w ? 0 : x >> y) ARI(O_ASHR, sextw(x, I.w) >> (y >= I.w ? I.w - 1 : y))
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
          Val a = OP(I.a), b = OP(I.b);
          if (b.e) { if (decide(eMk(E_EQ, 1, b.e, eConst(0, I.w)))) violation("mem", "integer division by zero"); b = norm(b); }
          else if (!b.c) violation("mem", "integer division by zero");
          rg[I.dst] = binop(I.op, I.w, a, b); break; }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
          Val a = OP(I.a), b = OP(I.b);
          if (I.w == 32) { if (a.e || b.e) gap("symbolic single-precision arithmetic"); float x = asF(a.c), y = asF(b.c), z = I.op == O_FADD ? x + y : I.op == O_FSUB ? x - y : I.op == O_FMUL ? x * y : I.op == O_FDIV ? x / y : fmodf(x, y); rg[I.dst] = CV(fbits(z)); break; }
          if (!a.e && !b.e) { double x = asD(a.c), y = asD(b.c), z = I.op == O_FADD ? x + y : I.op == O_FSUB ? x - y : I.op == O_FMUL ? x * y : I.op == O_FDIV ? x / y : fmod(x, y); rg[I.dst] = CV(dbits(z)); break; }
          if (I.op == O_FREM) gap("symbolic fmod");
          static const EOp m[] = {E_FADD, E_FSUB, E_FMUL, E_FDIV}; rg[I.dst] = fromE(eMk(m[I.op - O_FADD], 64, toE(a, 64), toE(b, 64))); break; }
        case O_FNEG: { Val a = OP(I.a); if (!a.e) { rg[I.dst] = CV(a.c ^ (1ull << (I.w == 32 ? 31 : 63))); break; }
          if (I.w == 64 && eIsDy(a.e)) rg[I.dst] = fromE(eMk(E_FSUB, 64, eConst(0, 64), a.e));
          else rg[I.dst] = fromE(eMk(E_XOR, I.w > 64 ? 64 : I.w, a.e, eConst(1ull << (I.w == 32 ? 31 : 63), I.w > 64 ? 64 : I.w))); break; }
        case O_FABS: { Val a = OP(I.a); if (!a.e) { rg[I.dst] = CV(a.c & ~(1ull << 63)); break; }
          if (a.e->op == E_I2F) { Expr* x = a.e->k[0]; if (x->w < 64) x = eMk(E_SEXT, 64, x); if (x->lo >= 0) rg[I.dst] = a; else rg[I.dst] = fromE(eMk(E_I2F, 64, eMk(E_ITE, 64, eMk(E_SLT, 1, x, eConst(0, 64)), eMk(E_SUB, 64, eConst(0, 64), x), x))); }
          else if (eIsDy(a.e)) rg[I.dst] = fromE(eMk(E_ITE, 64, eMk(E_FLT, 1, a.e, eConst(0, 64)), eMk(E_FSUB, 64, eConst(0, 64), a.e), a.e));
          else rg[I.dst] = fromE(eMk(E_AND, 64, a.e, eConst(~(1ull << 63), 64))); break; }
        case O_SQRT: { Val a = OP(I.a); rg[I.dst] = a.e ? fromE(eMk(E_FSQRT, 64, a.e)) : CV(dbits(sqrt(asD(a.c)))); break; }
        case O_FLOOR: case O_CEIL: { Val a = OP(I.a); rg[I.dst] = a.e ? fromE(eMk(E_FROUND, 64, a.e, 0, 0, 0, I.op == O_FLOOR ? 0 : 1)) : CV(dbits(I.op == O_FLOOR ? floor(asD(a.c)) : ceil(asD(a.c)))); break; }
        case O_FMULADD: { Val a = OP(I.a), b = OP(I.b), c = OP(I.c);
          if (!a.e && !b.e && !c.e) { rg[I.dst] = CV(dbits(asD(a.c) * asD(b.c) + asD(c.c))); break; }
          Expr* mm = eMk(E_FMUL, 64, toE(a, 64), toE(b, 64)); rg[I.dst] = fromE(eMk(E_FADD, 64, mm, toE(c, 64))); break; }
        case O_MINMAX: { Val a = OP(I.a), b = OP(I.b); Expr *x = toE(a, I.w), *y = toE(b, I.w); Expr* lt = eMk(I.pred < 2 ? E_SLT : E_ULT, 1, x, y);
          rg[I.dst] = fromE(I.pred == 0 || I.pred == 2 ? eMk(E_ITE, I.w, lt, y, x) : eMk(E_ITE, I.w, lt, x, y)); break; }
        case O_IABS: { Val a = OP(I.a); Expr* x = toE(a, I.w); rg[I.dst] = fromE(eMk(E_ITE, I.w, eMk(E_SLT, 1, x, eConst(0, I.w)), eMk(E_SUB, I.w, eConst(0, I.w), x), x)); break; }
        case O_ICMP: {
          Val a = OP(I.a), b = OP(I.b); int w = I.w2;
          if (!a.e && !b.e) { uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sx = sextw(x, w), sy = sextw(y, w); bool r2 = false;
            switch (I.pred) { case 32: r2 = x == y; break; case 33: r2 = x != y; break; case 34: r2 = x > y; break; case 35: r2 = x >= y; break; case 36: r2 = x < y; break; case 37: r2 = x <= y; break;
              case 38: r2 = sx > sy; break; case 39: r2 = sx >= sy; break; case 40: r2 = sx < sy; break; case 41: r2 = sx <= sy; break; }
            rg[I.dst] = CV(r2); break; }
          Expr *x = toE(a, w), *y = toE(b, w), *e = nullptr;
          switch (I.pred) { case 32: e = eMk(E_EQ, 1, x, y); break; case 33: e = eNot(eMk(E_EQ, 1, x, y)); break; case 34: e = eMk(E_ULT, 1, y, x); break; case 35: e = eMk(E_ULE, 1, y, x); break;
            case 36: e = eMk(E_ULT, 1, x, y); break; case 37: e = eMk(E_ULE, 1, x, y); break; case 38: e = eMk(E_SLT, 1, y, x); break; case 39: e = eMk(E_SLE, 1, y, x); break; case 40: e = eMk(E_SLT, 1, x, y); break; case 41: e = eMk(E_SLE, 1, x, y); break; }
          rg[I.dst] = fromE(e); break; }
        case O_FCMP: {
          Val a = OP(I.a), b = OP(I.b); int p = I.pred; // 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
          if (!a.e && !b.e) { double x = I.w2 == 32 ? asF(a.c) : asD(a.c), y = I.w2 == 32 ? asF(b.c) : asD(b.c); bool un = x != x || y != y, r2 = false;
            switch (p & 7) { case 1: r2 = x == y; break; case 2: r2 = x > y; break; case 3: r2 = x >= y; break; case 4: r2 = x < y; break; case 5: r2 = x <= y; break; case 6: r2 = !un && x != y; break; case 7: r2 = !un; break; case 0: r2 = false; break; }
            if (p >= 8) r2 = r2 || un; if (p == 15) r2 = true; rg[I.dst] = CV(r2); break; }
          if (I.w2 == 32) gap("symbolic single-precision comparison");
          Expr *x = toE(a, 64), *y = toE(b, 64), *e = nullptr; Expr* un = eMk(E_OR, 1, eMk(E_FISNAN, 1, x), eMk(E_FISNAN, 1, y));
          switch (p) { case 1: e = eMk(E_FEQ, 1, x, y); break; case 2: e = eMk(E_FLT, 1, y, x); break; case 3: e = eMk(E_FLE, 1, y, x); break; case 4: e = eMk(E_FLT, 1, x, y); break; case 5: e = eMk(E_FLE, 1, x, y); break;
            case 6: e = eMk(E_OR, 1, eMk(E_FLT, 1, x, y), eMk(E_FLT, 1, y, x)); break; case 7: e = eNot(un); break; case 8: e = un; break; case 9: e = eMk(E_OR, 1, eMk(E_FEQ, 1, x, y), un); break;
            case 10: e = eNot(eMk(E_FLE, 1, x, y)); break; case 11: e = eNot(eMk(E_FLT, 1, x, y)); break; case 12: e = eNot(eMk(E_FLE, 1, y, x)); break; case 13: e = eNot(eMk(E_FLT, 1, y, x)); break; case 14: e = eNot(eMk(E_FEQ, 1, x, y)); break; default: e = eConst(p == 15, 1); }
          rg[I.dst] = fromE(e); break; }
        case O_SELECT: { Val c = OP(I.a), x = OP(I.b), y = OP(I.c); if (!c.e) { rg[I.dst] = (c.c & 1) ? x : y; break; } int w = I.w > 64 ? 64 : I.w; rg[I.dst] = fromE(eMk(E_ITE, w, c.e, toE(x, w), toE(y, w))); break; }
        case O_TRUNCI: { Val a = OP(I.a); rg[I.dst] = a.e ? fromE(eExtract(a.e, 0, I.w)) : CV(a.c & maskw(I.w)); break; }
        case O_ZEXT: { Val a = OP(I.a); rg[I.dst] = a.e ? fromE(eMk(E_ZEXT, I.w, a.e)) : CV(a.c & maskw(I.w2)); break; }
        case O_SEXT: { Val a = OP(I.a); rg[I.dst] = a.e ? fromE(eMk(E_SEXT, I.w, a.e)) : CV((uint64_t)sextw(a.c, I.w2) & maskw(I.w)); break; }
        case O_SITOFP: { Val a = OP(I.a); if (!a.e) { double d = (double)sextw(a.c, I.w2); rg[I.dst] = CV(I.w == 32 ? fbits((float)d) : dbits(d)); break; } if (I.w == 32) gap("symbolic int to float"); rg[I.dst] = fromE(eMk(E_I2F, 64, a.e)); break; }
        case O_UITOFP: { Val a = OP(I.a); if (!a.e) { double d = (double)(a.c & maskw(I.w2)); rg[I.dst] = CV(I.w == 32 ? fbits((float)d) : dbits(d)); break; } if (I.w == 32 || I.w2 >= 64) { if (a.e->lo >= 0 && I.w == 64) { rg[I.dst] = fromE(eMk(E_I2F, 64, a.e)); break; } gap("symbolic unsigned to float"); } rg[I.dst] = fromE(eMk(E_I2F, 64, eMk(E_ZEXT, 64, a.e))); break; }
        case O_FPTOSI: case O_FPTOUI: { Val a = OP(I.a); if (!a.e) { double d = I.w2 == 32 ? asF(a.c) : asD(a.c); int64_t v = (d != d || d > 9.2e18 || d < -9.2e18) ? INT64_MIN : (int64_t)d; rg[I.dst] = CV((uint64_t)v & maskw(I.w)); break; } rg[I.dst] = fromE(eMk(E_F2I, I.w, a.e)); break; }
        case O_FPEXT: { Val a = OP(I.a); if (I.w2 != 32) { rg[I.dst] = a; break; } rg[I.dst] = a.e ? fromE(eMk(E_F32TO64, 64, a.e)) : CV(dbits((double)asF(a.c))); break; }
        case O_FPTRUNC: { Val a = OP(I.a); if (I.w != 32) { rg[I.dst] = a; break; } rg[I.dst] = a.e ? fromE(eMk(E_F64TO32, 32, a.e)) : CV(fbits((float)asD(a.c))); break; }
        case O_LOAD: { Val a = OP(I.a); uint64_t p = a.e ? conc(a, "address") : a.c; rg[I.dst] = loadMem(p, (int)I.imm, I.w); break; }
        case O_STORE: { Val a = OP(I.a); uint64_t p = a.e ? conc(a, "address") : a.c; storeMem(p, OP(I.b), (int)I.imm, I.w); break; }
        case O_ALLOCA: { uint64_t n = conc(OP(I.a), "alloca size") & maskw(I.w2); rg[I.dst] = CV(stackAlloc(n * I.imm, I.aux)); break; }
        case O_GEP0: { Val a = OP(I.a); rg[I.dst] = a.e ? fromE(eMk(E_ADD, 64, a.e, eConst(I.imm, 64))) : CV(a.c + I.imm); break; }
        case O_GEPN: { Val a = OP(I.a); const GepInfo& g = f.geps[I.aux]; uint64_t cpart = I.imm; Expr* se = nullptr; if (a.e) se = a.e; else cpart += a.c;
          for (size_t k = 0; k < g.idx.size(); k++) { Val x = OP(g.idx[k]); if (!x.e) cpart += (uint64_t)(sextw(x.c, g.w[k]) * g.scale[k]); else { Expr* t = g.w[k] < 64 ? eMk(E_SEXT, 64, x.e) : x.e; t = eMk(E_MUL, 64, t, eConst(g.scale[k], 64)); se = se ? eMk(E_ADD, 64, se, t) : t; } }
          rg[I.dst] = se ? fromE(eMk(E_ADD, 64, se, eConst(cpart, 64))) : CV(cpart); break; }
        case O_BR: takeEdge(fr, I.aux); continue;
        case O_CBR: { Val c = OP(I.a); bool t = c.e ? decide(c.e) : (c.c & 1); takeEdge(fr, t ? I.aux : I.aux2); continue; }
        case O_SWITCH: { Val c = OP(I.a); const SwitchTab& t = f.switches[I.aux]; uint32_t e = t.def;
          if (!c.e) { uint64_t v = c.c & maskw(I.w2); for (auto& k : t.cases) if (k.first == v) { e = k.second; break; } }
          else for (auto& k : t.cases) if (decide(eMk(E_EQ, 1, c.e, eConst(k.first, I.w2)))) { e = k.second; break; }
          takeEdge(fr, e); continue; }
        case O_RET: case O_RETV: {
          Val rv[8]; if (I.op == O_RETV) for (int i = 0; i < I.n; i++) rv[i] = I.n == 1 ? OP(I.a) : norm(rg[I.a + i]);
          if (r->sp > fr.sp) { setShadow(fr.sp, r->sp - fr.sp, SH_DEADSTACK); for (uint64_t g = fr.sp & ~15ull; g < r->sp; g += 16) *GRAN(g) = 0; r->sp = fr.sp; while (!objs.empty() && objs.back().kind == 1 && objs.back().addr >= fr.sp && objs.back().rank == r->id) objs.pop_back(); }
          int32_t dst = fr.dst; int n = I.op == O_RETV ? I.n : 0; r->frames.pop_back();
          if (r->frames.empty()) { r->state = 2; return; }
          Frame& up = r->frames.back(); if (dst >= 0) for (int i = 0; i < n; i++) r->regs[up.base + dst + i] = rv[i];
          up.pc++; goto next_frame; }
        case O_CALL: case O_CALLI: {
          const CallInfo& ci = f.calls[I.aux]; int fi = ci.fn;
          if (I.op == O_CALLI) { uint64_t p = conc(OP(ci.fnop), "function pointer"); if (p < 0x200000000000ull || p >= 0x200000000000ull + 16 * P.funcs.size() || (p & 15)) violation("mem", p == 0 ? "call through null function pointer" : "call through invalid function pointer"); fi = (p - 0x200000000000ull) / 16; }
          const Func& callee = P.funcs[fi];
          if (callee.defined) { Val args[64]; uint8_t fp[64]; int n = ci.args.size(); if (n > 64) gap("too many arguments"); for (int i = 0; i < n; i++) { args[i] = OP(ci.args[i]); fp[i] = ci.argfp[i]; } pushFrame(r, &callee, args, n, ci.dst, fp); goto next_frame; }
          size_t depth0 = r->frames.size();
          if (!builtinCall(fr, ci, callee)) return;      // blocked: re-executed later
          if (r->frames.size() != depth0) goto next_frame; // a builtin switched frames
          rg = &r->regs[fr.base];
          break; }
        case O_MEMCPY: { uint64_t n = conc(OP(I.c), "memcpy length"); uint64_t d = conc(OP(I.a), "address"), s = conc(OP(I.b), "address"); memCopy(d, s, n); break; }
        case O_MEMSET: { uint64_t n = conc(OP(I.c), "memset length"); uint64_t d = conc(OP(I.a), "address"); Val v = OP(I.b); if (n) { if (!accessible(d, n)) badAccess(d, n, true); if (v.e) for (uint64_t i = 0; i < n; i++) storeMem(d + i, v, 1, 8); else { memset(HOST(d), (int)v.c, n); setShadow(d, n, SH_CONC); } } break; }
        case O_VASTART: { uint64_t va = conc(OP(I.a), "address"); uint64_t n = fr.va.size(); uint64_t area = stackAlloc(n * 8 + 8, 16); for (uint64_t i = 0; i < n; i++) storeMem(area + 8 * i, fr.va[i], 8, 64);
          storeMem(va, CV(48), 4, 32); storeMem(va + 4, CV(176), 4, 32); storeMem(va + 8, CV(area), 8, 64); storeMem(va + 16, CV(0), 8, 64); break; }
        case O_VACOPY: memCopy(conc(OP(I.a), "address"), conc(OP(I.b), "address"), 24); break;
        case O_STACKSAVE: rg[I.dst] = CV(r->sp); break;
        case O_STACKRESTORE: { uint64_t s = conc(OP(I.a), "address"); if (r->sp > s) { setShadow(s, r->sp - s, SH_DEADSTACK); r->sp = s; } break; }
        case O_UNREACH: violation("mem", "reached unreachable code");
        default: gap("instruction not implemented: op " + std::to_string(I.op));
      }
      fr.pc++;
    }
  next_frame:;
  }
}
static bool builtinCall(Frame& fr, const CallInfo& ci, const Func& callee) {
  Val* rg = &R->regs[fr.base]; const Val* cs = R->consts.data(); std::vector<Val> a; for (auto x : ci.args) a.push_back(OP(x));
  Val ret = CV(0); if (callee.builtin < 0) gap("call to unmodelled function " + callee.name);
  SH->fnUsed[&callee - &P.funcs[0]] = 1;
  size_t d0 = R->frames.size();
  BRes br = builtins[callee.builtin].f(a, ci.argw, ret);
  if (br == B_BLOCK) { R->state = 1; return false; }
  if (br == B_SWITCH) return false;
  if (R->frames.size() != d0) return true;
  if (ci.dst >= 0) R->regs[R->frames.back().base + ci.dst] = (ret.e || ci.retw >= 64 || ci.retw == 0) ? ret : CV(ret.c & maskw(ci.retw));
  return true;
}

// schedule: main rank alone, or the MPI ranks round-robin until all finish
static void schedule() {
  for (;;) {
    if (!inRanks) { mainRank->state = 0; runRank(mainRank); if (mainRank->state == 2) return; if (!inRanks) { if (mainRank->state == 1) { R = mainRank; violation("mpi", "single process blocks forever"); } } continue; }
    bool progress = false, all = true;
    for (Rank* r : ranks) { if (r->state == 2) continue; uint64_t before = mpiProgress; uint64_t ic = 0; (void)ic; size_t fsz = r->frames.size(); uint32_t pc = r->frames.empty() ? 0 : r->frames.back().pc; r->state = 0; runRank(r);
      if (mpiProgress != before || r->state == 2 || r->frames.size() != fsz || (!r->frames.empty() && r->frames.back().pc != pc)) progress = true; if (r->state != 2) all = false; }
    if (all) { inRanks = false; R = mainRank; ranksFinished(); Frame& fr = mainRank->frames.back(); fr.pc++; continue; }
    if (!progress) { for (Rank* r : ranks) if (r->state == 1) { R = r; break; } std::string w; for (Rank* r : ranks) if (r->state != 2) w += "rank " + std::to_string(r->id) + " in " + r->where + "; "; pathNote = w; violation("mpi", "deadlock"); }
  }
}

static void crash(int sig) { static volatile int once = 0;
  if (!once) { once = 1; char b[64]; int n = snprintf(b, 64, "[symx] engine crash signal %d\n", sig); (void)!write(2, b, n); __atomic_add_fetch(&SH->pathsGap, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&SH->crashes, 1, __ATOMIC_RELAXED);
    releaseToken(); __atomic_sub_fetch(&SH->live, 1, __ATOMIC_SEQ_CST); } _exit(1); }

static void* region(uint64_t at, uint64_t sz) { void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }

int main(int argc, char** argv) {
  std::string bc, entry; std::vector<uint64_t> eargs;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (s == "-o") gOut = nx(); else if (s == "-e") entry = nx(); else if (s == "-t") gDeadline = atof(nx().c_str()); else if (s == "-j") gProcs = atoi(nx().c_str()); else if (s == "-i") gMaxInstr = strtoull(nx().c_str(), 0, 10);
    else if (s == "-s") gSampleMax = atoi(nx().c_str()); else if (s == "-v") gVerbose++; else if (s == "-a") eargs.push_back(strtoll(nx().c_str(), 0, 10)); else if (s == "--seed") gSeed = atoi(nx().c_str()); else if (s == "-n") gHarness = nx(); else bc = s; }
  tStart = nowS();
  decodeBitcode(bc.c_str(), P);
  if (entry == "--list") { for (auto& f : P.funcs) if (f.defined) printf("%s %s\n", f.name.c_str(), f.file.c_str()); return 0; }
  if (!P.fnIndex.count(entry)) { fprintf(stderr, "symx: no function %s\n", entry.c_str()); return 3; }
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(SH, 0, sizeof(Shared));
  region(ARENA, ARENA_SZ); region(SHB, ARENA_SZ); region(SYB, ARENA_SZ * 8); region(SIB, ARENA_SZ); region(GRB, ARENA_SZ / 4);
  heapTop = ARENA + 4096; stackTopAll = ARENA + (768ull << 20); heapLow = gHeapLimit;
  solverInit(); registerBuiltins();
  for (auto& f : P.funcs) if (!f.defined) { auto it = builtinIndex.find(f.name); if (it != builtinIndex.end()) f.builtin = it->second; }
  signal(SIGCHLD, SIG_IGN); prctl(PR_SET_CHILD_SUBREAPER, 1);
  SH->tokens = gProcs - 1; SH->live = 1; covInit();
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    { stack_t ss; ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, 0);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK; for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(sg, &sa, 0); }
    struct rlimit rl = {256 << 20, 256 << 20}; setrlimit(RLIMIT_STACK, &rl); struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    mainRank = new Rank(); setupRank(mainRank); R = mainRank; std::vector<Val> av; for (auto x : eargs) av.push_back(CV(x));
    pushFrame(mainRank, &P.funcs[P.fnIndex[entry]], av.data(), av.size(), -1);
    schedule(); pathComplete(0); endPath(&SH->pathsDone);
  }
  setpgid(pid, pid);
  bool timedOut = false; uint64_t lastLive = 0; (void)lastLive; int graceStop = 0;
  while (__atomic_load_n(&SH->live, __ATOMIC_SEQ_CST) > 0) {
    usleep(2000); double el = nowS() - tStart;
    if (!timedOut && el > gDeadline) { timedOut = true; SH->stop = 1; graceStop = 1;  }
    if (timedOut && el > gDeadline + 3) { kill(-pid, SIGKILL); break; }
    if (kill(-pid, 0) != 0 && errno == ESRCH) break;   // every path process is gone
    if (SH->nerr > 200) { SH->stop = 1; }
  }
  kill(-pid, SIGKILL);
  covWrite();
  bool lost = __atomic_load_n(&SH->live, __ATOMIC_SEQ_CST) > 0 && !timedOut;
  // summary
  std::string j = "{\"harness\":" + jstr(gHarness) + ",\"entry\":" + jstr(entry) + ",\"timed_out\":" + (timedOut ? "true" : "false") + ",\"lost_processes\":" + (lost ? "true" : "false");
#define N(n) j += std::string(",\"" #n "\":") + std::to_string(SH->n);
  N(pathsDone) N(pathsAssume) N(pathsExit) N(pathsErr) N(pathsGap) N(forks) N(instrs) N(queries) N(sat) N(unsat) N(unknown) N(cacheHits) N(asserts) N(assertQ) N(solverUs) N(maxDepth) N(leaves) N(hangs) N(crashes)
  j += ",\"seconds\":" + std::to_string(nowS() - tStart) + ",\"errors\":["; for (int i = 0; i < SH->nerr; i++) j += std::string(i ? "," : "") + "[" + jstr(SH->err[i].key) + "," + std::to_string(SH->err[i].count) + "]";
  j += "],\"cover\":{"; for (int i = 0; i < SH->ncov; i++) j += std::string(i ? "," : "") + jstr(SH->cov[i].label) + ":" + std::to_string(SH->cov[i].count);
  j += "},\"functions\":["; bool first = true; for (size_t i = 0; i < P.funcs.size() && i < (1 << 16); i++) if (SH->fnUsed[i] && P.funcs[i].defined && !isHarnessFile(P.funcs[i].file)) { j += (first ? "" : ",") + jstr(P.funcs[i].name); first = false; }
  j += "],\"models\":["; first = true; for (size_t i = 0; i < P.funcs.size() && i < (1 << 16); i++) if (SH->fnUsed[i] && !P.funcs[i].defined && P.funcs[i].name.compare(0, 3, "sx_")) { j += (first ? "" : ",") + jstr(P.funcs[i].name); first = false; }
  j += "]}\n"; writeFile(gOut + "/summary.json", j); printf("%s", j.c_str()); return 0;
}
