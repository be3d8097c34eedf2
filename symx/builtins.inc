// Builtins: harness API, allocation, stdio on a virtual file system, number parsing, MPI.
enum BRes { B_OK, B_BLOCK, B_SWITCH };
typedef std::vector<Val>& Args;
struct Builtin { std::string name; std::function<BRes(Args, const std::vector<uint8_t>&, Val&)> f; };
static std::vector<Builtin> builtins; static std::map<std::string, int> builtinIndex;
static uint64_t mpiProgress = 0;
static void cover(const std::string& l) {
  lk(); int i = 0; while (i < SH->ncov && strncmp(SH->cov[i].label, l.c_str(), 95)) i++;
  if (i == SH->ncov && i < 512) { strncpy(SH->cov[i].label, l.c_str(), 95); SH->ncov++; } if (i < 512) SH->cov[i].count++; ulk(); }
static void pathComplete(int how) {
  uint64_t n = __atomic_fetch_add(&SH->paths, 1, __ATOMIC_RELAXED);
  uint64_t h = (n + 1) * 0x9E3779B97F4A7C15ull + gSeed * 0xD1B54A32D192ED03ull; h ^= h >> 31; uint64_t half = gSampleMax / 2;
  bool take = n < half || (half && h % std::max<uint64_t>(1, n / std::max<uint64_t>(1, half / 3)) == 0);
  if (take && __atomic_fetch_add(&SH->samples, 1, __ATOMIC_RELAXED) < gSampleMax)
    writeFile(gOut + "/path-" + std::to_string(n) + ".json", "{\"harness\":" + jstr(gHarness) + ",\"exit\":" + std::to_string(how) + ",\"nranks\":" + std::to_string(gNRanks) + ",\"rendezvous\":" + std::to_string(gRendezvous) + ",\"inputs\":" + inputsJson(nullptr) + ",\"log\":" + logsJson(nullptr) + "}\n");
}
static std::string gname(uint64_t a) { for (size_t i = 0; i < P.globals.size(); i++) if (R->gaddr[i] == a) return P.globals[i].name; return ""; }
static uint64_t gaddrOf(const std::string& n) { auto it = P.glIndex.find(n); return it == P.glIndex.end() ? 0 : R->gaddr[it->second]; }

// ---------------------------------------------------------------- MPI
static std::vector<Msg> msgs; static std::vector<Req> reqs; static int mpiN = 1; static bool mpiLive = false;
struct Coll { std::string op; std::vector<int> arrived; std::vector<std::vector<Val>> args; int n = 0; bool done = false; int left = 0; };
static std::vector<Coll> colls;
static int myRank() { return R->id < 0 ? 0 : R->id; }
static int nRanks() { return inRanks ? mpiN : 1; }
static int dtSize(uint64_t a) { std::string n = gname(a); if (n == "ompi_mpi_int" || n == "ompi_mpi_unsigned" || n == "ompi_mpi_float") return 4; if (n == "ompi_mpi_double" || n == "ompi_mpi_long" || n == "ompi_mpi_long_long_int" || n == "ompi_mpi_unsigned_long") return 8; if (n == "ompi_mpi_char" || n == "ompi_mpi_byte" || n == "ompi_mpi_unsigned_char" || n == "ompi_mpi_signed_char") return 1; violation("mpi", "invalid datatype in MPI call"); }
static Msg* findMsg(int src, int dst, int tag, int* idx) { for (size_t i = 0; i < msgs.size(); i++) if (!msgs[i].consumed && msgs[i].dst == dst && msgs[i].src == src && msgs[i].tag == tag) { *idx = i; return &msgs[i]; } return nullptr; }
static void setStatus(uint64_t st, int src, int tag, uint64_t bytes) { if (st < 16) return; storeMem(st, CV(src), 4, 32); storeMem(st + 4, CV(tag), 4, 32); storeMem(st + 8, CV(0), 4, 32); storeMem(st + 12, CV(0), 4, 32); storeMem(st + 16, CV(bytes), 8, 64); }
static void deliver(Msg& m, uint64_t buf, uint64_t cap, uint64_t dt) {
  if (m.data.size() > cap) violation("mpi", "message truncated: receive buffer smaller than the message");
  if (m.dtype != dt) { std::string a = gname(m.dtype), b = gname(dt); bool ch = a == "ompi_mpi_byte" || b == "ompi_mpi_byte"; if (!ch) violation("mpi", "datatype mismatch between send and receive"); }
  writeBytes(buf, m.data); m.consumed = true; mpiProgress++;
}
static void checkPeer(int p) { if (p < 0 || p >= nRanks()) violation("mpi", "message to or from a rank outside the communicator"); }
static uint64_t reqNull() { return gaddrOf("ompi_request_null"); }
static bool tryReq(Req& q) { // attempt completion
  if (q.done) return true;
  if (q.isSend) { if (!gRendezvous || msgs[q.msg].consumed) q.done = true; return q.done; }
  // posted receives are matched in posting order
  for (auto& o : reqs) { if (&o == &q) break; if (o.active && !o.isSend && !o.done && o.src == q.src && o.tag == q.tag && o.cap && &o < &q && o.bytes == q.bytes) {} }
  return false;
}
// match every posted receive of the current rank in order of posting
static void progressRecvs() {
  for (auto& q : reqs) if (q.active && !q.isSend && !q.done) { int rk = (int)q.bytes >> 16; (void)rk; }
}
struct PostedRecv { int rank, req; };
static std::deque<PostedRecv> posted;
static void pumpReceives() { for (auto it = posted.begin(); it != posted.end();) { Req& q = reqs[it->req]; int idx; Msg* m = findMsg(q.src, it->rank, q.tag, &idx); bool earlier = false;
    for (auto jt = posted.begin(); jt != it; ++jt) if (jt->rank == it->rank && reqs[jt->req].src == q.src && reqs[jt->req].tag == q.tag) earlier = true;
    if (m && !earlier) { Rank* sv = R; for (Rank* r : ranks) if (r->id == it->rank) R = r; if (m->data.size() > q.cap) violation("mpi", "message truncated: receive buffer smaller than the message"); if (m->dtype != q.dtype) violation("mpi", "datatype mismatch between send and receive");
      q.bytes = m->data.size(); for (uint64_t i = 0; i < q.bytes; i++) if (*SHADOW(q.buf + i) == SH_FREED) violation("mem", "message received into freed memory");
      q.msg = idx; m->consumed = true; q.done = true; mpiProgress++; R = sv; it = posted.erase(it); } else ++it; } }
static BRes mpiSend(Args a, bool isend, Val& ret) {
  uint64_t buf = conc(a[0], "buffer"); int cnt = (int)conc(a[1], "count"); uint64_t dt = conc(a[2], "datatype"); int dst = (int)conc(a[3], "rank"); int tag = (int)conc(a[4], "tag");
  R->where = isend ? "MPI_Isend" : "MPI_Send to " + std::to_string(dst);
  if (!R->posted) {
    checkPeer(dst); if (cnt < 0) violation("mpi", "negative count"); Msg m; m.src = myRank(); m.dst = dst; m.tag = tag; m.dtype = dt; m.data = readBytes(buf, (uint64_t)cnt * dtSize(dt)); m.buf = buf; msgs.push_back(m); mpiProgress++; R->posted = true; R->postedMsg = msgs.size() - 1; pumpReceives();
    if (isend) { Req q; q.isSend = true; q.active = true; q.msg = R->postedMsg; q.buf = buf; reqs.push_back(q); storeMem(conc(a[6], "request"), CV(0x300000000000ull + reqs.size() - 1), 8, 64); R->posted = false; ret = CV(0); return B_OK; }
  }
  if (gRendezvous && dst != myRank() + 100000 && !msgs[R->postedMsg].consumed) return B_BLOCK;
  R->posted = false; ret = CV(0); return B_OK;
}
static BRes mpiRecv(Args a, Val& ret) {
  uint64_t buf = conc(a[0], "buffer"); int cnt = (int)conc(a[1], "count"); uint64_t dt = conc(a[2], "datatype"); int src = (int)conc(a[3], "rank"); int tag = (int)conc(a[4], "tag"); uint64_t st = conc(a[6], "status");
  R->where = "MPI_Recv from " + std::to_string(src); checkPeer(src); if (cnt < 0) violation("mpi", "negative count"); int idx; Msg* m = findMsg(src, myRank(), tag, &idx);
  for (auto& p : posted) if (p.rank == myRank() && reqs[p.req].src == src && reqs[p.req].tag == tag) m = nullptr;
  if (!m) return B_BLOCK;
  deliver(*m, buf, (uint64_t)cnt * dtSize(dt), dt); setStatus(st, src, tag, m->data.size()); ret = CV(0); return B_OK;
}
static BRes waitOne(uint64_t rq, uint64_t st) {
  uint64_t h = conc(loadMem(rq, 8, 64), "request"); if (h == reqNull()) return B_OK; if (h < 0x300000000000ull || h - 0x300000000000ull >= reqs.size()) violation("mpi", "wait on an invalid request");
  Req& q = reqs[h - 0x300000000000ull]; pumpReceives();
  if (q.isSend) { if (gRendezvous && !msgs[q.msg].consumed) return B_BLOCK;
    // the send buffer must not have changed before completion
    Msg& m = msgs[q.msg]; if (m.data.size()) { std::vector<MByte> now = readBytes(q.buf, m.data.size()); for (size_t i = 0; i < now.size(); i++) { bool same = now[i].sh == m.data[i].sh && (now[i].sh == SH_SYM ? now[i].e == m.data[i].e && now[i].idx == m.data[i].idx : now[i].c == m.data[i].c); if (!same && now[i].sh == SH_CONC && m.data[i].sh == SH_CONC) violation("mpi", "send buffer modified before the send completed"); } } }
  else { if (!q.done) return B_BLOCK; writeBytes(q.buf, msgs[q.msg].data); setStatus(st, q.src, q.tag, q.bytes); }
  q.active = false; storeMem(rq, CV(reqNull()), 8, 64); mpiProgress++; return B_OK;
}
static Expr* redOp(const std::string& op, Expr* x, Expr* y, bool dbl) {
  int w = x->w;
  if (dbl) { if (op == "ompi_mpi_op_sum") return eMk(E_FADD, 64, x, y); Expr* lt = eMk(E_FLT, 1, x, y); if (op == "ompi_mpi_op_max") return eMk(E_ITE, 64, lt, y, x); if (op == "ompi_mpi_op_min") return eMk(E_ITE, 64, lt, x, y); }
  else { if (op == "ompi_mpi_op_sum") return eMk(E_ADD, w, x, y); Expr* lt = eMk(E_SLT, 1, x, y); if (op == "ompi_mpi_op_max") return eMk(E_ITE, w, lt, y, x); if (op == "ompi_mpi_op_min") return eMk(E_ITE, w, lt, x, y);
    Expr *bx = eNot(eMk(E_EQ, 1, x, eConst(0, w))), *by = eNot(eMk(E_EQ, 1, y, eConst(0, w)));
    if (op == "ompi_mpi_op_lor") return eMk(E_ZEXT, w, eMk(E_OR, 1, bx, by)); if (op == "ompi_mpi_op_land") return eMk(E_ZEXT, w, eMk(E_AND, 1, bx, by));
    if (op == "ompi_mpi_op_bor") return eMk(E_OR, w, x, y); if (op == "ompi_mpi_op_prod") return eMk(E_MUL, w, x, y); }
  gap("MPI reduction " + op);
}
static void completeColl(Coll& c) {
  int n = nRanks(); auto A = [&](int r, int i) { return c.args[r][i].c; }; Rank* save = R;
  auto on = [&](int r) { for (Rank* q : ranks) if (q->id == r) R = q; };
  std::string op = c.op; auto agree = [&](int i, const char* what) { for (int r = 1; r < n; r++) if (A(r, i) != A(0, i)) violation("mpi", op + ": ranks disagree on " + what); };
  auto root = [&](int i) { agree(i, "root"); checkPeer((int)A(0, i)); return (int)A(0, i); };
  if (op == "MPI_Bcast") { agree(1, "count"); agree(2, "datatype"); int rt = root(3); uint64_t nb = A(0, 1) * dtSize(A(0, 2)); std::vector<MByte> d; on(rt); d = readBytes(A(rt, 0), nb); for (int r = 0; r < n; r++) if (r != rt) { on(r); writeBytes(A(r, 0), d); } }
  else if (op == "MPI_Gather") { int rt = root(6); uint64_t sb = A(0, 1) * dtSize(A(0, 2)); for (int r = 0; r < n; r++) { if (A(r, 1) * dtSize(A(r, 2)) != A(rt, 4) * dtSize(A(rt, 5))) violation("mpi", "MPI_Gather: send and receive counts differ"); } for (int r = 0; r < n; r++) { on(r); auto d = readBytes(A(r, 0), sb); on(rt); writeBytes(A(rt, 3) + r * sb, d); } }
  else if (op == "MPI_Scatter") { int rt = root(6); uint64_t sb = A(rt, 1) * dtSize(A(rt, 2)); for (int r = 0; r < n; r++) { if (A(r, 4) * dtSize(A(r, 5)) != sb) violation("mpi", "MPI_Scatter: send and receive counts differ"); on(rt); auto d = readBytes(A(rt, 0) + r * sb, sb); on(r); writeBytes(A(r, 3), d); } }
  else if (op == "MPI_Allgather") { agree(1, "count"); agree(2, "datatype"); uint64_t sb = A(0, 1) * dtSize(A(0, 2)); for (int r = 0; r < n; r++) if (A(r, 4) * dtSize(A(r, 5)) != sb) violation("mpi", "MPI_Allgather: send and receive counts differ");
    std::vector<std::vector<MByte>> d; for (int r = 0; r < n; r++) { on(r); if (A(r, 0) == 1) d.push_back(readBytes(A(r, 3) + r * sb, sb)); else d.push_back(readBytes(A(r, 0), sb)); } for (int r = 0; r < n; r++) { on(r); for (int s = 0; s < n; s++) writeBytes(A(r, 3) + s * sb, d[s]); } }
  else if (op == "MPI_Allreduce") { agree(2, "count"); agree(3, "datatype"); agree(4, "operation"); int es = dtSize(A(0, 3)); std::string dn = gname(A(0, 3)), on_ = gname(A(0, 4)); bool dbl = dn == "ompi_mpi_double"; std::vector<Val> res;
    for (uint64_t k = 0; k < A(0, 2); k++) { Expr* acc = nullptr; for (int r = 0; r < n; r++) { on(r); uint64_t src = A(r, 0) == 1 ? A(r, 1) : A(r, 0); Val v = loadMem(src + k * es, es, es * 8); Expr* e = toE(v, es * 8); acc = acc ? redOp(on_, acc, e, dbl) : e; } res.push_back(fromE(acc)); }
    for (int r = 0; r < n; r++) { on(r); for (uint64_t k = 0; k < A(0, 2); k++) storeMem(A(r, 1) + k * es, res[k], es, es * 8); } }
  R = save;
}
static BRes mpiColl(const std::string& op, Args a, Val& ret) {
  R->where = op; int me = myRank(), n = nRanks();
  int k = R->collSeq; while ((int)colls.size() <= k) { Coll c; c.arrived.assign(n, 0); c.args.resize(n); colls.push_back(c); }
  Coll& c = colls[k];
  if (!R->posted) { if (c.n == 0) c.op = op; else if (c.op != op) violation("mpi", "collective mismatch: " + c.op + " vs " + op);
    std::vector<Val> v; for (auto& x : a) v.push_back(CV(conc(x, "collective argument"))); for (auto& x : v) if (false) x.c = 0;
    // 32-bit counts
    c.args[me] = v; c.arrived[me] = 1; c.n++; R->posted = true; mpiProgress++;
    if (c.n == n) { if (inRanks) completeColl(c); else { // single process: every collective is local
        Rank* sv = R; std::vector<Rank*> svr = ranks; ranks.assign(1, R); int oid = R->id; R->id = 0; completeColl(c); R = sv; R->id = oid; ranks = svr; } c.done = true; } }
  if (!c.done) return B_BLOCK;
  R->posted = false; R->collSeq++; mpiProgress++; ret = CV(0); return B_OK;
}
static void ranksFinished() {
  mpiLive = false; for (auto& m : msgs) if (!m.consumed) { violation("mpi", "a message was sent but never received"); }
  for (auto& q : reqs) if (q.active && !q.isSend && !q.done) violation("mpi", "a posted receive was never completed");
  msgs.clear(); reqs.clear(); colls.clear(); posted.clear();
}

static void def(const char* n, std::function<BRes(Args, const std::vector<uint8_t>&, Val&)> f) { builtinIndex[n] = builtins.size(); builtins.push_back({n, f}); }
static Stream& stream(Val v) { uint64_t a = conc(v, "file handle"); auto it = streams.find(a); if (it == streams.end() || !it->second.open) { violation("mem", a == 0 ? "stdio call on a null FILE pointer" : "stdio call on an invalid or closed FILE pointer"); } return it->second; }
static void emit(Stream& s, const std::vector<FItem>& it) { if (s.std_) { if (gVerbose > 1) { for (auto& f : it) fputc(f.tok ? '?' : f.c, stderr); } return; } if (!s.wr) violation("assert", "write to a stream opened for reading"); auto& d = vfs[s.name].d; d.insert(d.end(), it.begin(), it.end()); }
static std::vector<Val> rest(Args a, size_t k) { return std::vector<Val>(a.begin() + k, a.end()); }
static std::vector<uint8_t> restw(const std::vector<uint8_t>& a, size_t k) { return std::vector<uint8_t>(a.begin() + k, a.end()); }
static Val newInput(const std::string& name, int kind, int w, int64_t lo, int64_t hi) {
  if (lo == hi && kind == 0) { Val v = CV((uint64_t)lo & maskw(w)); inputs.push_back(Input{name, kind, w, v, 0, 0}); return v; }
  Expr* e = eVar(name, w, w >= 64 ? INT64_MIN : -(1ll << (w - 1)), w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1);
  Val v{0, e}; inputs.push_back(Input{name, kind, w, v, 0, 0}); return v; }
static void must(Expr* c) { if (!pcAddChecked(c)) { endPath(&SH->pathsAssume); } }
static Val parseNum(uint64_t addr, bool fp, uint64_t* endp) { std::string s = cstr(addr); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++;
  if (i < s.size() && s[i] == '\x01') { int id = atoi(s.c_str() + i + 1); size_t q = s.find('\x02', i); if (endp) *endp = addr + q + 1; Tok& t = toks[id]; if (fp) return tokAsDouble(FItem{0, true, t.v, t.w, t.fp, t.rt}); if (t.fp) gap("integer parse of symbolic floating-point text"); return fromE(t.w == 32 ? toE(t.v, 32) : eExtract(toE(t.v, t.w), 0, 32)); }
  char* e; Val r; if (fp) r = CV(dbits(strtod(s.c_str(), &e))); else r = CV((uint64_t)strtol(s.c_str(), &e, 10)); if (endp) *endp = addr + (e - s.c_str()); return r; }
static uint64_t staticStr(const char* key, const std::string& s) { uint64_t& a = R->statics[std::string(key) + s]; if (!a) { a = heapAlloc(s.size() + 1, 3, SH_UNINIT); putStr(a, s); } return a; }

static void registerBuiltins() {
#define D(n, ...) def(n, [](Args a, const std::vector<uint8_t>& aw, Val& ret) -> BRes { (void)a; (void)aw; (void)ret; __VA_ARGS__; return B_OK; });
  // ---- harness API
  D("sx_int", { std::string n = cstr(a[0].c); int64_t lo = sextw(conc(a[1], "bound"), 32), hi = sextw(conc(a[2], "bound"), 32); if (lo > hi) endPath(&SH->pathsAssume); Val v = newInput(n, 0, 32, lo, hi);
    if (v.e) { must(eMk(E_SLE, 1, eConst(lo, 32), v.e)); must(eMk(E_SLE, 1, v.e, eConst(hi, 32))); } ret = v; })
  D("sx_pick", { std::string n = cstr(a[0].c); int64_t lo = sextw(conc(a[1], "bound"), 32), hi = sextw(conc(a[2], "bound"), 32); if (lo > hi) endPath(&SH->pathsAssume); Val v = newInput(n, 0, 32, lo, hi);
    if (v.e) { must(eMk(E_SLE, 1, eConst(lo, 32), v.e)); must(eMk(E_SLE, 1, v.e, eConst(hi, 32))); ret = CV(concretize(v.e, "sx_pick")); } else ret = v; })
  D("sx_conc", { ret = CV(conc(a[0], "sx_conc")); })
  D("sx_double", { std::string n = cstr(a[0].c); Val v = newInput(n, 1, 64, INT64_MIN, INT64_MAX); // any finite double
    must(eNot(eMk(E_EQ, 1, eExtract(v.e, 52, 11), eConst(0x7ff, 11)))); ret = v; })
  D("sx_dint", { std::string n = cstr(a[0].c); int64_t lo = sextw(conc(a[1], "bound"), 32), hi = sextw(conc(a[2], "bound"), 32); Val v = newInput(n, 0, 32, lo, hi);
    if (v.e) { must(eMk(E_SLE, 1, eConst(lo, 32), v.e)); must(eMk(E_SLE, 1, v.e, eConst(hi, 32))); ret = fromE(eMk(E_I2F, 64, v.e)); } else ret = CV(dbits((double)sextw(v.c, 32))); })
  D("sx_real", { gReal = (int)conc(a[0], "mode"); })
  D("sx_near", { if (!a[0].e && !a[1].e) { double x = asD(a[0].c), y = asD(a[1].c); ret = CV(fabs(x - y) <= 1e-9 * (1 + fabs(x) + fabs(y))); } else ret = fromE(eMk(E_ZEXT, 32, eMk(E_FNEAR, 1, toE(a[0], 64), toE(a[1], 64)))); })
  D("sx_bytes", { uint64_t p = conc(a[0], "ptr"); uint64_t n = conc(a[1], "len"); std::string nm = cstr(a[2].c); for (uint64_t i = 0; i < n; i++) { Val v = newInput(nm + std::to_string(i), 0, 8, -128, 127); storeMem(p + i, v, 1, 8); } })
  D("sx_assume", { Val c = a[0]; if (c.e) { must(eNot(eMk(E_EQ, 1, c.e, eConst(0, 32)))); } else if (!(uint32_t)c.c) endPath(&SH->pathsAssume); })
  D("sx_assert", {
    __atomic_add_fetch(&SH->asserts, 1, __ATOMIC_RELAXED);
    Val c = a[0]; std::string m = cstr(a[1].c);
    if (c.e && c.e->known) c = CV(c.e->kv);
    if (!c.e) { if (!(uint32_t)c.c) violation("assert", m); }
    else { Expr* ok = eNot(eMk(E_EQ, 1, c.e, eConst(0, 32))); if (ok->known) { if (!ok->kv) violation("assert", m); } else if (ok->op != E_CONST) { ModelVals mv; __atomic_add_fetch(&SH->assertQ, 1, __ATOMIC_RELAXED); Sat s = checkWith(eNot(ok), &mv);
        if (s == S_UNK) { report("gap", "solver resource limit at assertion: " + m, nullptr, true); __atomic_add_fetch(&SH->pathsGap, 1, __ATOMIC_RELAXED); }
        if (s == S_SAT) { if (ok->flags & X_UNINIT) report("uninit", "assertion depends on uninitialised memory: " + m, &mv); else report("assert", m, &mv); if (!pcAddChecked(ok)) endPath(&SH->pathsErr); __atomic_add_fetch(&SH->pathsErr, 1, __ATOMIC_RELAXED); }
        else { ok->known = true; ok->kv = 1; } } else if (!ok->c) violation("assert", m); } })
  D("sx_fail", { violation("assert", cstr(a[0].c)); })
  D("sx_cover", { cover(cstr(a[0].c)); })
  D("sx_log", { logs.push_back(LogItem{cstr(a[0].c), a[1], 32, false}); })
  D("sx_logd", { logs.push_back(LogItem{cstr(a[0].c), a[1], 64, true}); })
  D("sx_note", { pathNote += cstr(a[0].c) + "; "; })
  D("sx_allow_exit", { gExitOK = conc(a[0], "flag") & 1; })
  D("sx_live_blocks", { ret = CV(liveBlocks); })
  D("sx_check_leaks", { uint64_t base = conc(a[0], "count") & 0xffffffff; std::string m = cstr(a[1].c); __atomic_add_fetch(&SH->asserts, 1, __ATOMIC_RELAXED);
    if (liveBlocks != base) { std::string w; int k = 0; for (auto it = objs.rbegin(); it != objs.rend() && k < 3; ++it) if (it->kind == 0 && it->alive) { if (k++ >= (int)(liveBlocks - base)) break; w += P.funcs[it->fn].name + ":" + std::to_string(it->line) + " "; } pathNote += "live blocks allocated at: " + w; violation("assert", m); } })
  D("sx_rt", { std::string f = cstr(a[0].c); ret = rtVal(a[1], f); })
  D("sx_rendezvous", { gRendezvous = (int)conc(a[0], "mode"); })
  D("sx_heap_descend", { gDescend = (int)conc(a[0], "mode"); })
  D("sx_ptr_order", { })
  D("sx_stop", { pathComplete(0); endPath(&SH->pathsDone); })
  D("sx_shared", { uint64_t n = conc(a[0], "size"); ret = CV(heapAlloc(n, 3, SH_CONC)); })
  D("sx_unlink", { vfs.erase(cstr(a[0].c)); })
  D("sx_file_exists", { ret = CV(vfs.count(cstr(a[0].c)) ? 1 : 0); })
  D("sx_rank", { ret = CV(myRank()); })
  def("sx_run_ranks", [](Args a, const std::vector<uint8_t>&, Val&) -> BRes {
    int n = (int)conc(a[0], "rank count"); uint64_t fn = conc(a[1], "function"); uint64_t arg = conc(a[2], "arg"); int fi = (fn - 0x200000000000ull) / 16; mpiN = n; gNRanks = n; ranks.clear();
    for (int i = 0; i < n; i++) { Rank* r = new Rank(); r->id = i; setupRank(r); Val v[2] = {CV(i), CV(arg)}; pushFrame(r, &P.funcs[fi], v, 2, -1); ranks.push_back(r); }
    inRanks = true; mpiLive = true; mainRank->state = 1; return B_SWITCH; });
  // ---- memory
  D("malloc", { ret = CV(doMalloc(conc(a[0], "allocation size"), false)); })
  D("calloc", { ret = CV(doMalloc(conc(a[0], "allocation size") * conc(a[1], "allocation size"), true)); })
  D("free", { doFree(conc(a[0], "pointer")); })
  D("realloc", { uint64_t p = conc(a[0], "pointer"); uint64_t n = conc(a[1], "allocation size"); if (!p) { ret = CV(doMalloc(n, false)); return B_OK; }
    Obj* o = objAt(p); if (!o || o->kind != 0 || o->addr != p) violation("mem", "realloc of an invalid pointer"); if (!o->alive) violation("mem", "realloc of freed memory"); if (n == 0) { doFree(p); ret = CV(0); return B_OK; }
    uint64_t os = o->size; uint64_t q = doMalloc(n, false); memCopy(q, p, std::min(os, n)); doFree(p); ret = CV(q); })
  D("exit", { int code = (int)conc(a[0], "exit code"); if (gExitOK) { pathComplete(1); endPath(&SH->pathsExit); } violation("exit", "the library terminated the program, exit code " + std::to_string(code)); })
  D("abort", { if (gExitOK) { pathComplete(1); endPath(&SH->pathsExit); } violation("exit", "abort called"); })
  D("__assert_fail", { violation("exit", "assert failed: " + cstr(a[0].c)); })
  // ---- math
#define M1(n, f) D(n, { if (!a[0].e) ret = CV(dbits(f(asD(a[0].c)))); else ret = fromE(eMk(E_UF, 64, a[0].e, nullptr, nullptr, 0, ufIndex(n))); })
  M1("cos", cos) M1("sin", sin) M1("tan", tan) M1("acos", acos) M1("asin", asin) M1("atan", atan) M1("log10", log10) M1("log", log) M1("exp", exp)
#define M2(n, f) D(n, { if (!a[0].e && !a[1].e) ret = CV(dbits(f(asD(a[0].c), asD(a[1].c)))); else ret = fromE(eMk(E_UF, 64, toE(a[0], 64), toE(a[1], 64), nullptr, 0, ufIndex(n))); })
  M2("pow", pow) M2("atan2", atan2)
  D("fabs", { if (!a[0].e) ret = CV(dbits(fabs(asD(a[0].c)))); else if (eIsDy(a[0].e)) ret = fromE(eMk(E_ITE, 64, eMk(E_FLT, 1, a[0].e, eConst(0, 64)), eMk(E_FSUB, 64, eConst(0, 64), a[0].e), a[0].e)); else ret = fromE(eMk(E_AND, 64, a[0].e, eConst(~(1ull << 63), 64))); })
  D("sqrt", { ret = a[0].e ? fromE(eMk(E_FSQRT, 64, a[0].e)) : CV(dbits(sqrt(asD(a[0].c)))); })
  // ---- stdio
  D("fopen", { std::string n = cstr(conc(a[0], "string")); std::string m = cstr(conc(a[1], "string")); bool rd = m[0] == 'r';
    if (rd && !vfs.count(n)) { ret = CV(0); return B_OK; } uint64_t h = heapAlloc(16, 3, SH_CONC); Stream s; s.name = n; s.rd = rd; s.wr = !rd; s.open = true; if (m[0] == 'w') vfs[n].d.clear(); else vfs[n]; streams[h] = s; ret = CV(h); })
  D("fclose", { stream(a[0]).open = false; ret = CV(0); })
  D("fflush", { ret = CV(0); })
  D("feof", { Stream& s = stream(a[0]); ret = CV(s.eof ? 1 : 0); })
  D("ferror", { ret = CV(0); })
  D("rewind", { Stream& s = stream(a[0]); s.pos = 0; s.eof = false; })
  D("fgetc", { Stream& s = stream(a[0]); auto& d = vfs[s.name].d; if (s.pos >= d.size()) { s.eof = true; ret = CV(0xffffffff); } else { if (d[s.pos].tok) gap("fgetc on a symbolic number"); ret = CV(d[s.pos++].c); } })
  D("fgets", { uint64_t b = conc(a[0], "buffer"); int n = (int)conc(a[1], "size"); Stream& s = stream(a[2]); auto& d = vfs[s.name].d; std::string t; if (s.pos >= d.size()) { s.eof = true; ret = CV(0); return B_OK; }
    while (s.pos < d.size() && (int)t.size() < n - 1) { FItem& f = d[s.pos++]; if (f.tok) t += encodeItems({f}); else { t += (char)f.c; if (f.c == '\n') break; } } putStr(b, t); if (s.pos >= d.size() && (t.empty() || t.back() != '\n')) s.eof = true; ret = CV(b); })
  D("fprintf", { Stream& s = stream(a[0]); auto it = fmtOut(cstr(conc(a[1], "format")), rest(a, 2), restw(aw, 2)); emit(s, it); ret = CV(it.size()); })
  D("printf", { auto it = fmtOut(cstr(conc(a[0], "format")), rest(a, 1), restw(aw, 1)); ret = CV(it.size()); if (gVerbose > 1) for (auto& f : it) fputc(f.tok ? '?' : f.c, stderr); })
  D("puts", { cstr(conc(a[0], "string")); ret = CV(1); })
  D("putchar", { ret = a[0]; })
  D("fputs", { Stream& s = stream(a[1]); emit(s, decodeStr(cstr(conc(a[0], "string")))); ret = CV(1); })
  D("fputc", { Stream& s = stream(a[1]); emit(s, {FItem{(uint8_t)conc(a[0], "character"), false, CV(0), 0, false, ""}}); ret = a[0]; })
  D("fwrite", { uint64_t p = conc(a[0], "buffer"); uint64_t n = conc(a[1], "size") * conc(a[2], "count"); Stream& s = stream(a[3]); std::vector<FItem> it; for (uint64_t i = 0; i < n; i++) { Val v = loadMem(p + i, 1, 8); if (v.e) it.push_back(FItem{0, true, v, 8, false, "raw"}); else it.push_back(FItem{(uint8_t)v.c, false, CV(0), 0, false, ""}); } emit(s, it); ret = a[2]; })
  D("sprintf", { uint64_t p = conc(a[0], "buffer"); auto it = fmtOut(cstr(conc(a[1], "format")), rest(a, 2), restw(aw, 2)); std::string t; for (auto& f : it) { if (f.tok && !f.fp) { t += std::to_string(sextw(conc(f.v, "formatted integer"), f.w)); } else if (f.tok) t += encodeItems({f}); else t += (char)f.c; } putStr(p, t); ret = CV(t.size()); })
  D("snprintf", { uint64_t p = conc(a[0], "buffer"); uint64_t cap = conc(a[1], "size"); auto it = fmtOut(cstr(conc(a[2], "format")), rest(a, 3), restw(aw, 3)); std::string t; for (auto& f : it) { if (f.tok && !f.fp) t += std::to_string(sextw(conc(f.v, "formatted integer"), f.w)); else if (f.tok) t += encodeItems({f}); else t += (char)f.c; } ret = CV(t.size()); if (cap) { if (t.size() >= cap) t.resize(cap - 1); putStr(p, t); } })
  auto fsc = [](Args a, const std::vector<uint8_t>&, Val& ret) -> BRes { Stream& s = stream(a[0]); int r = doScanf(Src{&vfs[s.name].d, &s.pos}, cstr(conc(a[1], "format")), a, 2); if (s.pos >= vfs[s.name].d.size()) s.eof = true; ret = CV((uint32_t)r); return B_OK; };
  def("__isoc99_fscanf", fsc); def("fscanf", fsc);
  auto ssc = [](Args a, const std::vector<uint8_t>&, Val& ret) -> BRes { auto d = decodeStr(cstr(conc(a[0], "string"))); size_t pos = 0; int r = doScanf(Src{&d, &pos}, cstr(conc(a[1], "format")), a, 2); ret = CV((uint32_t)r); return B_OK; };
  def("__isoc99_sscanf", ssc); def("sscanf", ssc);
  D("atoi", { ret = parseNum(conc(a[0], "string"), false, nullptr); })
  D("atof", { ret = parseNum(conc(a[0], "string"), true, nullptr); })
  D("strtol", { uint64_t e = 0; Val v = parseNum(conc(a[0], "string"), false, &e); if (v.e) v = fromE(eMk(E_SEXT, 64, v.e)); uint64_t p = conc(a[1], "pointer"); if (p) storeMem(p, CV(e), 8, 64); ret = v; })
  D("strtod", { uint64_t e = 0; Val v = parseNum(conc(a[0], "string"), true, &e); uint64_t p = conc(a[1], "pointer"); if (p) storeMem(p, CV(e), 8, 64); ret = v; })
  D("getenv", { ret = CV(0); })
  D("opendir", { ret = CV(0); })
  D("time", { ret = CV(1000000000); uint64_t p = conc(a[0], "pointer"); if (p) storeMem(p, ret, 8, 64); })
  D("localtime", { ret = CV(R->statics["tm"] ? R->statics["tm"] : (R->statics["tm"] = heapAlloc(64, 3, SH_CONC))); })
  D("strftime", { putStr(conc(a[0], "buffer"), "01/01/2000"); ret = CV(10); })
  D("__ctype_b_loc", { uint64_t& t = R->statics["ctype_b"]; if (!t) { t = heapAlloc(384 * 2 + 16, 3, SH_CONC); const unsigned short* src = *__ctype_b_loc(); for (int i = -128; i < 256; i++) { unsigned short v = src[i]; memcpy(HOST(t + 16 + (i + 128) * 2), &v, 2); } uint64_t mid = t + 16 + 256; memcpy(HOST(t), &mid, 8); } ret = CV(t); })
  D("__ctype_tolower_loc", { uint64_t& t = R->statics["ctype_l"]; if (!t) { t = heapAlloc(384 * 4 + 16, 3, SH_CONC); const int* src = *__ctype_tolower_loc(); for (int i = -128; i < 256; i++) { int v = src[i]; memcpy(HOST(t + 16 + (i + 128) * 4), &v, 4); } uint64_t mid = t + 16 + 512; memcpy(HOST(t), &mid, 8); } ret = CV(t); })
  // ---- MPI
  D("MPI_Init", { ret = CV(0); })
  D("MPI_Initialized", { storeMem(conc(a[0], "pointer"), CV(1), 4, 32); ret = CV(0); })
  D("MPI_Finalize", { ret = CV(0); })
  D("MPI_Comm_rank", { storeMem(conc(a[1], "pointer"), CV(myRank()), 4, 32); ret = CV(0); })
  D("MPI_Comm_size", { storeMem(conc(a[1], "pointer"), CV(nRanks()), 4, 32); ret = CV(0); })
  D("MPI_Wtime", { ret = CV(dbits(0.0)); })
  D("MPI_Error_string", { putStr(conc(a[1], "buffer"), "mpi error"); storeMem(conc(a[2], "pointer"), CV(9), 4, 32); ret = CV(0); })
  D("MPI_Get_count", { uint64_t st = conc(a[0], "status"); int es = dtSize(conc(a[1], "datatype")); uint64_t b = conc(loadMem(st + 16, 8, 64), "status"); storeMem(conc(a[2], "pointer"), CV(b / es), 4, 32); ret = CV(0); })
  def("MPI_Send", [](Args a, const std::vector<uint8_t>&, Val& ret) { return mpiSend(a, false, ret); });
  def("MPI_Isend", [](Args a, const std::vector<uint8_t>&, Val& ret) { return mpiSend(a, true, ret); });
  def("MPI_Recv", [](Args a, const std::vector<uint8_t>&, Val& ret) { return mpiRecv(a, ret); });
  D("MPI_Irecv", { uint64_t buf = conc(a[0], "buffer"); int cnt = (int)conc(a[1], "count"); uint64_t dt = conc(a[2], "datatype"); int src = (int)conc(a[3], "rank"); checkPeer(src); Req q; q.isSend = false; q.active = true; q.buf = buf; q.cap = (uint64_t)cnt * dtSize(dt); q.dtype = dt; q.src = src; q.tag = (int)conc(a[4], "tag"); q.msg = -1;
    if (q.cap && !accessible(buf, q.cap)) badAccess(buf, q.cap, true); reqs.push_back(q); posted.push_back({myRank(), (int)reqs.size() - 1}); storeMem(conc(a[6], "request"), CV(0x300000000000ull + reqs.size() - 1), 8, 64); mpiProgress++; pumpReceives(); ret = CV(0); })
  def("MPI_Wait", [](Args a, const std::vector<uint8_t>&, Val& ret) -> BRes { R->where = "MPI_Wait"; ret = CV(0); return waitOne(conc(a[0], "request"), conc(a[1], "status")); });
  def("MPI_Waitall", [](Args a, const std::vector<uint8_t>&, Val& ret) -> BRes { R->where = "MPI_Waitall"; int n = (int)conc(a[0], "count"); uint64_t p = conc(a[1], "requests"), st = conc(a[2], "statuses"); ret = CV(0); bool blk = false; for (int i = 0; i < n; i++) if (waitOne(p + 8 * i, st < 16 ? 0 : st + 24 * i) == B_BLOCK) blk = true; return blk ? B_BLOCK : B_OK; });
  for (const char* n : {"MPI_Barrier", "MPI_Bcast", "MPI_Gather", "MPI_Scatter", "MPI_Allgather", "MPI_Allreduce"}) { std::string s = n; def(n, [s](Args a, const std::vector<uint8_t>& aw, Val& ret) { for (size_t i = 0; i < a.size(); i++) if (!a[i].e && aw[i] == 32) a[i].c = (uint64_t)sextw(a[i].c, 32); return mpiColl(s, a, ret); }); }
}
