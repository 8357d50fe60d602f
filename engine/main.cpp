// rsymex: bounded symbolic executor for the LLVM IR that rustc emits for the harness crate + rawler/dnglab.
#include "ir.hpp"
#include "solver.hpp"
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
bool isPanicName(const std::string& n);

// ------------------------------------------------------------------ shared (cross-process) state
struct Shared {
  std::atomic<int> lock; std::atomic<int> tokens; std::atomic<int> stop; 
  std::atomic<u64> paths, killed, panicsAllowed, forks, instrs, queries, qsat, qunsat, qunknown, cacheHits, solverUs, maxQueryUs, concretizations, violations, inconclusive, asserts, assertsSym, tableReads, allocBytesMax, live, procFail, capped;
  std::atomic<u64> reach[256]; std::atomic<int> printed; char incMsg[512];
};
static Shared* S; static u8* dbgSeen; static u8* funcSeen; static u32 dbgMax = 1 << 22;
static void slock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; sched_yield(); } }
static void sunlock() { S->lock.store(0); }
static void fwait(std::atomic<int>* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void fwake(std::atomic<int>* a) { syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static std::string outDir = "."; static u64 maxInstr = 4000000000ull; static u64 maxAlloc = 1ull << 31; static double deadline = 0; static int jobs = 8; static u64 maxPaths = ~0ull; static u64 localInstrs = 0, flushed = 0; static bool verbose = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void inconclusive(const char* fmt, ...) { va_list ap; va_start(ap, fmt); char b[400]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); slock(); if (!S->incMsg[0]) snprintf(S->incMsg, sizeof S->incMsg, "%s", b); sunlock(); S->inconclusive++; }
static void flushStats() { S->instrs += localInstrs - flushed; flushed = localInstrs; S->queries += statQueries; S->qsat += statQueriesSat; S->qunsat += statQueriesUnsat; S->qunknown += statQueriesUnknown; S->cacheHits += statCacheHits; S->solverUs += (u64)(statSolverTime * 1e6); u64 m = (u64)(statMaxQuery * 1e6), o = S->maxQueryUs; while (m > o && !S->maxQueryUs.compare_exchange_weak(o, m)) {} statQueries = statQueriesSat = statQueriesUnsat = statQueriesUnknown = statCacheHits = 0; statSolverTime = 0; statMaxQuery = 0; }
static bool takeToken() { int t = S->tokens; while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) return true; return false; }
static void dumpProf();
[[noreturn]] static void endProc() { dumpProf(); flushStats(); S->live--; S->tokens++; _Exit(0); }
[[noreturn]] static void endPath();

// ------------------------------------------------------------------ memory
struct Obj { u64 base, size; u8* data; E* sym; u64 nsym; u8 alive, kind; u32* ep; }; // kind 0 global const,1 global,2 heap,3 stack
static std::vector<Obj> objs; static u32* owner; static const u64 ABASE = 0x100000000ull; static const u64 ASIZE = 1ull << 36; // 64 GiB virtual, granule 16
static u64 heapTop = ABASE + (1ull << 33); static u64 globTop = ABASE; static u64 stackTop = ABASE + (1ull << 32); static std::vector<u32> stackObjs; static u64 liveBytes = 0;
static inline Obj* find(u64 a) { if (a < ABASE || a >= ABASE + ASIZE) return nullptr; u32 o = owner[(a - ABASE) >> 4]; return o ? &objs[o] : nullptr; }
static void logCreate(u32 id);
static u32 newObj(u64& top, u64 size, u64 align, u8 kind) { if (align < 16) align = 16; u64 a = (top + align - 1) / align * align; u64 g = (size + 15) / 16; if (!g) g = 1; u32 id = objs.size(); Obj o; o.base = a; o.size = size; o.data = size > 65536 ? (u8*)mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : (u8*)calloc(1, size ? size : 1); if (o.data == MAP_FAILED || !o.data) { inconclusive("allocation of %llu bytes failed", (unsigned long long)size); endProc(); } o.sym = nullptr; o.nsym = 0; o.alive = 1; o.kind = kind; o.ep = nullptr; objs.push_back(o); logCreate(id); for (u64 i = 0; i < g; i++) owner[((a - ABASE) >> 4) + i] = id; top = a + g * 16 + 32; if (top > ABASE + ASIZE - (1 << 20)) die("address space exhausted"); return id; }
static void freeObj(Obj& o) { if (!o.data) return; if (o.size > 65536) munmap(o.data, o.size); else ::free(o.data); if (o.sym) { if (o.size > 16384) munmap(o.sym, o.size * 4); else ::free(o.sym); } ::free(o.ep); o.data = nullptr; o.sym = nullptr; o.ep = nullptr; }
// ------------------------------------------------------------------ undo log (backtracking inside one process)
struct LogE { u8 kind; u32 obj; u32 chunk; u32 len; u32 pos; bool hadSym; }; // kind 0 chunk contents, 1 object created, 2 object killed
static std::vector<LogE> ulog; static std::vector<u8> ulogData; static u32 ckptDepth = 0, ckptObjs = 0, curEpoch = 1, epochCounter = 1;
static void setOwner(Obj& o, u32 id) { u64 g = (o.size + 15) / 16; if (!g) g = 1; for (u64 i = 0; i < g; i++) owner[((o.base - ABASE) >> 4) + i] = id; }
static void killObj(u32 id) { Obj& o = objs[id]; o.alive = 0; if (!ckptDepth) { freeObj(o); return; } ulog.push_back({2, id, 0, 0, 0, false}); if (id >= ckptObjs) freeObj(o); }
static inline void touch(Obj* o, u64 off, u64 n) { if (!ckptDepth || !n) return; u32 id = o - &objs[0]; if (id >= ckptObjs) return; u64 c0 = off >> 6, c1 = (off + n - 1) >> 6; if (!o->ep) o->ep = (u32*)calloc((o->size >> 6) + 1, 4); for (u64 c = c0; c <= c1; c++) { if (o->ep[c] == curEpoch) continue; o->ep[c] = curEpoch; u64 b = c << 6, l = std::min<u64>(64, o->size - b); bool hs = o->sym && o->nsym; u32 pos = ulogData.size(); ulogData.resize(pos + l + (hs ? l * 4 : 0)); memcpy(&ulogData[pos], o->data + b, l); if (hs) memcpy(&ulogData[pos + l], o->sym + b, l * 4); ulog.push_back({0, id, (u32)c, (u32)l, pos, hs}); } }
static void undoTo(size_t k) { while (ulog.size() > k) { LogE& e = ulog.back(); Obj& o = objs[e.obj]; if (e.kind == 0) { if (o.data) { memcpy(o.data + ((u64)e.chunk << 6), &ulogData[e.pos], e.len); if (e.hadSym) memcpy(o.sym + ((u64)e.chunk << 6), &ulogData[e.pos + e.len], e.len * 4); else if (o.sym) memset(o.sym + ((u64)e.chunk << 6), 0, e.len * 4); } ulogData.resize(e.pos); } else if (e.kind == 1) { setOwner(o, 0); freeObj(o); objs.pop_back(); } else { if (o.data) o.alive = 1; setOwner(o, e.obj); } ulog.pop_back(); } }
static void logCreate(u32 id) { if (ckptDepth) ulog.push_back({1, id, 0, 0, 0, false}); }
static void ensureSym(Obj& o) { if (!o.sym) { o.sym = o.size > 16384 ? (E*)mmap(0, o.size * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : (E*)calloc(o.size ? o.size : 1, 4); } }
// ------------------------------------------------------------------ frames
struct Frame { Func* f; Val* R; u32 pc; u32 stackBase; u64 stackTopSave; Ins* callIns; };
static std::vector<Frame> frames; static Val* regArena; static u64 regTop = 0; static const u64 REGCAP = 1 << 24; static Func* F; static Val* R; static Ins* ip;
static bool allowPanic = false; static u64 noteHash = 1469598103934665603ull; static bool concreteMode = false; static std::vector<std::pair<std::string, std::vector<u8>>> inputs; static size_t inputPos = 0; static u64 randState = 0; static bool randomMode = false;
struct SymIn { std::string name; u32 first; u32 n; }; static std::vector<SymIn> symIns; static u32 nvars = 0; static bool shiftConc = true; static u64 writeIteMax = 0, curPathForks = 0, readTableMax = 1 << 18, readTreeMax = 4096;

static inline const Val& V(i32 o) { if (o < 0) return F->K[~o]; Val& v = R[o]; if (v.e) { E s = subst(v.e); if (s != v.e) { v.c = N[s].v; v.e = 0; } } return v; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline void setE(Val& d, E e) { e = subst(e); if (isC(e)) { d.c = N[e].v; d.e = 0; } else { d.c = 0; d.e = e; } }
static inline E fixb(E e) { return e; }
static std::string where() { std::string s; for (int i = (int)frames.size() - 1, k = 0; i >= 0 && k < 6; i--, k++) { Frame& fr = frames[i]; u32 dbg = i == (int)frames.size() - 1 ? (ip ? ip->dbg : 0) : (frames[i + 1].callIns ? frames[i + 1].callIns->dbg : 0); s += fr.f->name + "!" + std::to_string(dbg) + " "; } return s; }
static void writeModel(const std::string& path, const Model& m) { FILE* f = fopen(path.c_str(), "w"); if (!f) die("cannot write %s", path.c_str()); for (auto& s : symIns) { fprintf(f, "%s ", s.name.c_str()); for (u32 i = 0; i < s.n; i++) fprintf(f, "%02x", s.first + i < m.v.size() ? m.v[s.first + i] : 0); fprintf(f, "\n"); } fclose(f); }
[[noreturn]] static void violation(const std::string& kind, const Model& m) {
  if (concreteMode || randomMode) { printf("VIOL %s at %s\n", kind.c_str(), where().c_str()); S->violations++; S->stop = 1; endProc(); }
  u64 k = S->violations++; if (k < 16) { std::string base = outDir + "/viol" + std::to_string(k); writeModel(base + ".in", m); FILE* f = fopen((base + ".txt").c_str(), "w"); if (f) { fprintf(f, "%s\n%s\n", kind.c_str(), where().c_str()); fclose(f); } }
  S->stop = 1; endProc(); }
static void pathEnd() { u64 p = ++S->paths; if (p >= maxPaths) { S->capped++; inconclusive("path limit %llu reached", (unsigned long long)maxPaths); S->stop = 1; } }
static u64 errnoAddr = 0;
struct RAcc { u64 a; u32 n; u32 dbg; Func* f; E off; u32 nb; u64 base, lock; bool wr; u32 it[3]; };
struct Region { size_t start; u32 nObjs, item; };
static std::vector<RAcc> racc; static std::vector<Region> regions; static u32 itemCtr = 0, parOrder = 0; static u64 parLock = 0; static bool inAtomic = false, raceOn = false; static u64 raceItems = 0;
struct Ckpt { std::vector<Frame> frames; std::vector<Val> regs; u64 regTop; Func* F; Val* R; Ins* ip; size_t pcn; E alt; Model m; size_t log, logData; ExprMark em; u64 heapTop, stackTop, globTop, liveBytes; std::vector<u32> stackObjs; u32 nObjs; bool allowPanic; u64 noteHash, writeIteMax, readTreeMax, readTableMax, maxAlloc; size_t nSym; u32 nvars; u64 errnoAddr; u64 instrs; size_t nRacc; std::vector<Region> regions; u64 parLock; u32 parOrder; };
static std::deque<Ckpt> ckpts; static jmp_buf mainLoop; static u64 pathInstrBase = 0;
static void ckptSync() { ckptDepth = ckpts.size(); ckptObjs = ckpts.empty() ? 0 : ckpts.back().nObjs; curEpoch = ++epochCounter; }
static void restoreTop() { // roll back to the most recent checkpoint and take its alternative
  Ckpt& c = ckpts.back(); undoTo(c.log); frames = c.frames; memcpy(regArena, c.regs.data(), c.regs.size() * sizeof(Val)); regTop = c.regTop; F = c.F; R = c.R; ip = c.ip - 1; PC.resize(c.pcn); u32 oldN = N.size(); exprRollback(c.em); solverRollback(oldN, N.size()); heapTop = c.heapTop; stackTop = c.stackTop; globTop = c.globTop; liveBytes = c.liveBytes; stackObjs = c.stackObjs; allowPanic = c.allowPanic; noteHash = c.noteHash; writeIteMax = c.writeIteMax; readTreeMax = c.readTreeMax; readTableMax = c.readTableMax; maxAlloc = c.maxAlloc; symIns.resize(c.nSym); nvars = c.nvars; errnoAddr = c.errnoAddr; racc.resize(c.nRacc); regions = c.regions; parLock = c.parLock; parOrder = c.parOrder; inAtomic = false; pathInstrBase = localInstrs - c.instrs; model = c.m; modelVer = ++verCounter; E alt = c.alt; ckpts.pop_back(); ckptSync(); addPC(alt); }
static void endPath() { if (S->stop || ckpts.empty()) endProc(); if ((localInstrs & 63) == 0) flushStats(); restoreTop(); longjmp(mainLoop, 1); }
static std::map<std::string, u64> forkProf; static bool profOn = getenv("RSYMEX_PROF") != nullptr;
static void dumpProf() { if (!profOn) return; std::vector<std::pair<u64, std::string>> v; for (auto& x : forkProf) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "FORK %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
static void pushAlt(E alt, const Model& m) { if (profOn) forkProf[F->name + " !" + std::to_string(ip ? ip->dbg : 0)]++; // the current instruction will be restarted under `alt` later
  S->forks++; ckpts.emplace_back(); Ckpt& c = ckpts.back(); c.frames = frames; c.regs.assign(regArena, regArena + regTop); c.regTop = regTop; c.F = F; c.R = R; c.ip = ip; c.pcn = PC.size(); c.alt = alt; c.m = m; c.log = ulog.size(); c.em = exprMark(); c.heapTop = heapTop; c.stackTop = stackTop; c.globTop = globTop; c.liveBytes = liveBytes; c.stackObjs = stackObjs; c.nObjs = objs.size(); c.allowPanic = allowPanic; c.noteHash = noteHash; c.writeIteMax = writeIteMax; c.readTreeMax = readTreeMax; c.readTableMax = readTableMax; c.maxAlloc = maxAlloc; c.nSym = symIns.size(); c.nvars = nvars; c.errnoAddr = errnoAddr; c.nRacc = racc.size(); c.regions = regions; c.parLock = parLock; c.parOrder = parOrder; c.instrs = localInstrs - pathInstrBase; ckptSync();
  if (S->tokens > 0 && takeToken()) { // donate the oldest pending alternative to a new process
    S->live++; flushStats(); fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { S->live--; S->tokens++; return; } if (p == 0) { while (ckpts.size() > 1) ckpts.pop_back(); restoreTop(); longjmp(mainLoop, 1); } ckpts.pop_front(); ckptSync(); } }
static void checkStop() { if (S->stop) endProc(); if (deadline && now() > deadline) { inconclusive("time limit reached"); S->stop = 1; endProc(); } }
static bool decide(E c) {
  if (isC(c)) return N[c].v; if (concreteMode || randomMode) return evalModel(c); checkStop(); bool v = evalModel(c) != 0; E nc = v ? mkNot(c) : c; Model m; Res r = checkSat(nc, &m);
  if (r == UNSAT) { learn(c, v); return v; }
  if (r == UNKNOWN) { inconclusive("solver timeout on a branch at %s", where().c_str()); S->stop = 1; endProc(); }
  pushAlt(nc, m); addPC(v ? c : mkNot(c)); return v; }
static u64 concretize(const Val& v, unsigned w, const char* why) {
  if (!v.e) return (u64)v.c; E e = v.e; if (isC(e)) return (u64)N[e].v; S->concretizations++;
  while (true) { checkStop(); u128 x = evalModel(e); E eq = mkEq(e, mkConst(x, w)); if (isC(eq)) return (u64)x; Model m; Res r = checkSat(mkNot(eq), &m); if (r == UNSAT) { learn(e, x); return (u64)x; } if (r == UNKNOWN) { inconclusive("solver timeout while enumerating %s at %s", why, where().c_str()); S->stop = 1; endProc(); } pushAlt(mkNot(eq), m); addPC(eq); learn(e, x); return (u64)x; } }
static void memError(const char* what, u64 a, const Model& m) { char b[200]; snprintf(b, sizeof b, "memory-error %s address 0x%llx", what, (unsigned long long)a); violation(b, m); }
// is the expression an ITE tree over constants with few leaves?
static bool resolveIteOnce(Val& p) { E e = p.e; int k = 0; while (e && N[e].op == ITE && k++ < 64) { E c = N[e].a, b = N[e].b, d = N[e].c; e = decide(c) ? b : d; if (isC(e)) { p.c = N[e].v; p.e = 0; return true; } } if (e != p.e) { setE(p, e); return true; } return false; }
// ---------------------------------------------------------------- races between parallel work items (sym_par)
static void raceLog(Obj* o, u64 off, u64 n, bool wr, E offE) {
  if (o->kind == 0 || inAtomic || !n) return; RAcc r; bool any = false; u32 id = o - &objs[0]; for (int d = 0; d < 3; d++) { r.it[d] = d < (int)regions.size() && id < regions[d].nObjs ? regions[d].item : 0; any |= r.it[d] != 0; } if (!any) return;
  r.a = o->base + off; r.n = n; r.dbg = ip ? ip->dbg : 0; r.f = F; r.off = offE; r.base = o->base; r.lock = parLock; r.wr = wr; r.nb = n; if (offE) { r.a = o->base; r.n = o->size; r.lock = parLock; }
  if (!racc.empty()) { RAcc& l = racc.back(); if (l.a == r.a && l.n == r.n && l.wr == wr && l.off == offE && !memcmp(l.it, r.it, sizeof r.it)) return; if (!offE && !l.off && l.wr == wr && l.a + l.n == r.a && l.f == r.f && l.dbg == r.dbg && l.lock == r.lock && !memcmp(l.it, r.it, sizeof r.it)) { size_t k = racc.size() - 1; if (k >= regions.back().start && !ckptDepth) { l.n += r.n; return; } } }
  racc.push_back(r); }
static void raceCheck(int d);
static void parOp(u32 op) {
  switch (op) { case 0: if (regions.size() < 3) regions.push_back({racc.size(), (u32)objs.size(), 0}); else { inconclusive("parallel regions nested more than three deep"); S->stop = 1; endProc(); } break;
    case 1: regions.back().item = ++itemCtr; raceItems++; break; case 2: regions.back().item = 0; parLock = 0; break;
    case 3: raceCheck(regions.size() - 1); regions.pop_back(); if (regions.empty() && !ckptDepth) racc.clear(); break; } }
// Determine the object accessed; on return off is either concrete (offE==0) or symbolic and proven in bounds.
static Obj* access1(Val p, u64 n, bool wr, u64& off, E& offE) {
  offE = 0; if (p.e && wr) resolveIteOnce(p);
  if (!p.e) { u64 a = (u64)p.c; Obj* o = find(a); if (n == 0) { static Obj dummy; off = 0; if (!o || !o->alive) return &dummy; off = a - o->base; return o; } if (!o) memError(wr ? "write" : "read", a, model); if (!o->alive) memError("use-after-free", a, model); off = a - o->base; if (off + n > o->size) memError(wr ? "write-oob" : "read-oob", a, model); if (wr && o->kind == 0) memError("write-const", a, model); return o; }
  while (true) { checkStop(); u64 a = (u64)evalModel(p.e); Obj* o = find(a); if (!o || !o->alive || a - o->base + n > o->size) memError("symbolic-address", a, model);
    E oe = mkBin(SUB, p.e, mkConst(o->base, 64)); E inb = mkBin(ULE, oe, mkConst(o->size - n, 64)); if (decide(inb)) { if (isC(oe)) { off = (u64)N[oe].v; return o; } offE = oe; off = a - o->base; return o; } 
    // not in this object: loop with the new model
  } }
static inline Obj* access(const Val& p, u64 n, bool wr, u64& off, E& offE) { Obj* o = access1(p, n, wr, off, offE); if (!regions.empty()) raceLog(o, off, n, wr, offE); return o; }
static inline bool anySym(Obj* o, u64 off, u64 n) { if (!o->sym) return false; for (u64 i = 0; i < n; i++) if (o->sym[off + i]) return true; return false; }
static E loadAtE(Obj* o, u64 off, unsigned nb) { // nb bytes little endian -> expression
  E r = 0; for (unsigned i = 0; i < nb; i++) { E b = o->sym && o->sym[off + i] ? subst(o->sym[off + i]) : mkConst(o->data[off + i], 8); r = i ? mkConcat(b, r) : b; } return r; }
static Val loadAt(Obj* o, u64 off, unsigned w) { unsigned nb = (w + 7) / 8; Val v; v.e = 0; v.c = 0; if (!anySym(o, off, nb)) { u128 x = 0; memcpy(&x, o->data + off, nb); v.c = x & maskw(w); return v; } E e = loadAtE(o, off, nb); if (N[e].w != w) e = mkTrunc(e, w); setE(v, e); return v; }
static Val loadSym(Obj* o, E off, unsigned w) { // off is proven to lie in [0, size - nb]
  unsigned nb = (w + 7) / 8; S->tableReads++; u64 maxOff = o->size - nb; u64 c = 0, k = 1; E x = off; Val v; v.c = 0; v.e = 0;
  // peel off = c + k * x as long as no wrap-around is possible
  while (true) { const Node n = N[x]; if (n.op == ADD && isC(n.b)) { u64 cc = (u64)N[n.b].v; u128 top = (u128)c + (u128)k * cc + (u128)k * N[n.a].hi; if (k == 1 ? (n.hi <= maxOff && N[n.a].hi <= maxOff && cc <= maxOff && top < ((u128)1 << 40)) : false) { c += cc; x = n.a; continue; } if (k == 1 && cc <= maxOff && N[n.a].hi <= (1ull << 40)) { c += cc; x = n.a; continue; } }
    if (n.op == MUL && isC(n.b) && N[n.b].v && (u128)N[n.a].hi * N[n.b].v < ((u128)1 << 40)) { k *= (u64)N[n.b].v; x = n.a; continue; }
    if (n.op == CONCAT && isC(n.a, 0) && c == 0 && k == 1) { break; } break; }
  if (x == off) { unsigned need = 1; while (need < 63 && (1ull << need) <= maxOff) need++; if (N[x].w > need) x = mkTrunc(x, need); }
  if (isC(x)) return loadAt(o, c + k * (u64)N[x].v, w);
  Node I = N[x]; u64 unk = mask64(I.w) & ~(I.kz | I.ko); unsigned cu = __builtin_popcountll(unk);
  if (cu <= 18) {
    std::vector<E> p; unsigned i = 0; while (i < I.w) { if (!(unk >> i & 1)) { i++; continue; } unsigned j = i; while (j < I.w && (unk >> j & 1)) j++; p.push_back(mkExtract(x, i, j - i)); i = j; } E ni = p[0]; for (size_t q = 1; q < p.size(); q++) ni = mkConcat(p[q], ni);
    u64 cnt = 1ull << cu; auto pos = [&](u64 q) { u64 val = I.ko; int b = 0; for (u64 u = unk; u; u &= u - 1, b++) if (q >> b & 1) val |= u & (~u + 1); return val; };
    bool symc = false; if (o->sym && o->nsym) for (u64 q = 0; q < cnt && !symc; q++) { u64 xv = pos(q); if (xv < I.lo || xv > I.hi) continue; u64 po = c + k * xv; if (po <= maxOff && anySym(o, po, nb)) symc = true; }
    if (!symc && w <= 64 && cnt <= readTableMax) { Table t; t.w = w; t.v.resize(cnt); bool have = false; u64 last = 0; std::vector<u8> ok(cnt, 0); for (u64 q = 0; q < cnt; q++) { u64 xv = pos(q); u64 po = c + k * xv; if (xv >= I.lo && xv <= I.hi && po <= maxOff) { u64 y = 0; memcpy(&y, o->data + po, nb); last = y & mask64(w); have = true; ok[q] = 1; } t.v[q] = last; } if (have) { u64 first = 0; for (u64 q = 0; q < cnt; q++) if (ok[q]) { first = t.v[q]; break; } for (u64 q = 0; q < cnt && !ok[q]; q++) t.v[q] = first; } setE(v, mkTable(internTable(t), ni)); return v; }
    if (cnt <= readTreeMax) { E e = mkTableTree(ni, cu, [&](u64 q) -> E { u64 xv = pos(q); u64 po = c + k * xv; if (po > maxOff || xv < I.lo || xv > I.hi) { po = c + k * I.lo; if (po > maxOff) po = maxOff; } E y = loadAtE(o, po, nb); return N[y].w == w ? y : mkTrunc(y, w); }); setE(v, e); return v; } }
  if (getenv("RSYMEX_PROF")) fprintf(stderr, "READCONC size=%llu w=%u c=%llu k=%llu cu=%u nsym=%d x=%s off=%s\n", (unsigned long long)o->size, w, (unsigned long long)c, (unsigned long long)k, cu, (int)o->nsym, show(x,12).c_str(), ""); Val ov; ov.c = 0; ov.e = off; u64 kk = concretize(ov, 64, "read offset"); return loadAt(o, kk, w); }
static Val memLoad(const Val& p, unsigned w) {
  u64 off; E oe;
  if (p.e && N[p.e].op == ITE) { // select between pointers: read both when both are plainly valid
    E c = N[p.e].a; Val a, b; a.c = b.c = 0; setE(a, N[p.e].b); setE(b, N[p.e].c); auto okc = [&](const Val& v) { if (v.e) return false; Obj* o = find((u64)v.c); return o && o->alive && (u64)v.c - o->base + (w + 7) / 8 <= o->size; };
    if (okc(a) && okc(b)) { Val x = memLoad(a, w), y = memLoad(b, w), r; r.c = 0; setE(r, mkIte(c, toE(x, w), toE(y, w))); return r; } }
  Obj* o = access(p, (w + 7) / 8, false, off, oe); if (oe) return loadSym(o, oe, w); return loadAt(o, off, w); }
static inline void storeAt(Obj* o, u64 off, const Val& v, unsigned w) { unsigned nb = (w + 7) / 8; touch(o, off, nb); if (!v.e) { if (o->sym && o->nsym) for (unsigned i = 0; i < nb; i++) { o->sym[off + i] = 0; } memcpy(o->data + off, &v.c, nb); return; } ensureSym(*o); o->nsym = 1; E e = v.e; if (N[e].w != nb * 8u) e = mkZext(e, nb * 8); for (unsigned i = 0; i < nb; i++) { E b = mkExtract(e, 8 * i, 8); if (isC(b)) { o->sym[off + i] = 0; o->data[off + i] = (u8)N[b].v; } else o->sym[off + i] = b; } }
static void memStore(const Val& p, const Val& v, unsigned w) {
  u64 off; E oe; unsigned nb = (w + 7) / 8; Obj* o = access(p, nb, true, off, oe);
  if (oe) { if (o->kind == 0) memError("write-const", o->base, model); u64 cnt = o->size / (nb ? nb : 1); if (cnt <= writeIteMax) { E val = toE(v, w); if (N[val].w != nb * 8u) val = mkZext(val, nb * 8); Node n = N[oe]; unsigned tz = 0; while (tz < 6 && (n.kz >> tz & 1)) tz++; u64 step = 1ull << tz; u64 st = (n.op == ADD && isC(n.b)) ? 0 : 0; for (u64 q = st; q + nb <= o->size; q += (tz ? step : 1)) { E c = mkEq(oe, mkConst(q, 64)); if (isC(c, 0)) continue; E old = loadAtE(o, q, nb); Val nv; nv.c = 0; setE(nv, mkIte(c, val, old)); storeAt(o, q, nv, nb * 8); } return; }
    Val ov; ov.c = 0; ov.e = oe; off = concretize(ov, 64, "write offset"); if (!regions.empty()) raceLog(o, off, nb, true, 0); }
  storeAt(o, off, v, w); }
static void readBytes(const Val& p, u64 n, std::vector<Val>& out) { out.resize(n); if (!n) return; Val pp = p; pp.c = concretize(p, 64, "pointer"); pp.e = 0; u64 off; E oe; Obj* o = access(pp, n, false, off, oe); for (u64 i = 0; i < n; i++) { out[i].c = o->data[off + i]; out[i].e = o->sym ? o->sym[off + i] : 0; } }
// Two accesses of different items to the same byte, one of them a write, not both under the same lock: a race. Reads at a symbolic offset are decided by the solver.
static void raceCheck(int d) {
  Region& g = regions[d]; struct B { u32 w, r1, r2; u32 wi, ri1, ri2; }; std::unordered_map<u64, B> m; std::vector<u32> symr;
  auto hit = [&](u32 x, u32 y, const Model& mo) { const RAcc &a = racc[x], &b = racc[y]; std::string k = std::string("race ") + (a.wr ? "write" : "read") + " in " + a.f->name + " !" + std::to_string(a.dbg) + ", " + (b.wr ? "write" : "read") + " in " + b.f->name + " !" + std::to_string(b.dbg); violation(k, mo); };
  auto conf = [&](u32 x, u32 y) { return racc[x].it[d] != racc[y].it[d] && !(racc[x].lock && racc[x].lock == racc[y].lock); };
  for (u32 i = g.start; i < racc.size(); i++) { const RAcc& r = racc[i]; if (!r.it[d]) continue; if (r.off) { symr.push_back(i); continue; }
    for (u64 k = 0; k < r.n; k++) { B& b = m[r.a + k]; if (b.w && conf(b.wi, i)) hit(b.wi, i, model); if (r.wr) { if (b.r1 && conf(b.ri1, i)) hit(b.ri1, i, model); if (b.r2 && conf(b.ri2, i)) hit(b.ri2, i, model); b.w = r.it[d]; b.wi = i; } else { if (!b.r1) b.r1 = r.it[d], b.ri1 = i; else if (b.r1 != r.it[d]) b.r2 = r.it[d], b.ri2 = i; } } }
  for (u32 i : symr) { const RAcc r = racc[i]; for (u32 j = g.start; j < racc.size(); j++) { const RAcc w = racc[j]; if (!w.it[d] || w.off || !w.wr || w.a + w.n <= r.a || w.a >= r.a + r.n || !conf(i, j)) continue;
      E o = subst(r.off); u64 lo = w.a > r.base + r.nb - 1 ? w.a - r.base - (r.nb - 1) : 0; E c = mkBin(AND, mkBin(ULE, mkConst(lo, 64), o), mkBin(ULT, o, mkConst(w.a + w.n - r.base, 64))); Model mo; Res q = checkSat(c, &mo); if (q == SAT) hit(i, j, mo); if (q == UNKNOWN) { inconclusive("solver timeout in a race query"); S->stop = 1; endProc(); } } } }
static void copyMem(const Val& d, const Val& s, u64 n) { if (!n) return; Val dd = d, ss = s; dd.c = concretize(d, 64, "pointer"); dd.e = 0; ss.c = concretize(s, 64, "pointer"); ss.e = 0; u64 so, dof; E x; Obj* os = access(ss, n, false, so, x); Obj* od = access(dd, n, true, dof, x); touch(od, dof, n); memmove(od->data + dof, os->data + so, n); bool ssym = os->sym && os->nsym; if (ssym && !anySym(os, so, n)) ssym = false; if (ssym) { ensureSym(*od); od->nsym = 1; memmove(od->sym + dof, os->sym + so, n * 4); } else if (od->sym && od->nsym) memset(od->sym + dof, 0, n * 4); localInstrs += n / 16; }
static u64 heapAlloc(u64 size, u64 align) { if (size > maxAlloc) { return 0; } u64 o = S->allocBytesMax; while (size > o && !S->allocBytesMax.compare_exchange_weak(o, size)) {} u32 id = newObj(heapTop, size, align, 2); liveBytes += size; if (liveBytes > 8ull << 30) { inconclusive("heap limit"); S->stop = 1; endProc(); } return objs[id].base; }
static void heapFree(u64 a) { if (!a) return; Obj* o = find(a); if (!o || o->base != a || o->kind != 2 || !o->alive) memError("bad-free", a, model); liveBytes -= o->size; killObj(o - &objs[0]); }
static std::string cstr(const Val& p) { std::string s; Val q = p; q.c = concretize(p, 64, "pointer"); q.e = 0; for (int i = 0; i < 4096; i++) { Val b = memLoad(q, 8); u8 c = (u8)concretize(b, 8, "string"); if (!c) break; s.push_back(c); q.c++; } return s; }
static std::string rstr(const Val& p, u64 n) { std::vector<Val> b; readBytes(p, n, b); std::string s; for (auto& x : b) s.push_back((char)concretize(x, 8, "string")); return s; }
// ------------------------------------------------------------------ instruction helpers
static u64 rnd() { randState = randState * 6364136223846793005ull + 1442695040888963407ull; return randState >> 33; }
static inline bool icmpC(u8 p, u128 a, u128 b, unsigned w) { switch (p) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; default: break; } i128 x = sx(a, w), y = sx(b, w); switch (p) { case 6: return x > y; case 7: return x >= y; case 8: return x < y; default: return x <= y; } }
static E icmpE(u8 p, E a, E b) { switch (p) { case 0: return mkEq(a, b); case 1: return mkNot(mkEq(a, b)); case 2: return mkBin(ULT, b, a); case 3: return mkBin(ULE, b, a); case 4: return mkBin(ULT, a, b); case 5: return mkBin(ULE, a, b); case 6: return mkBin(SLT, b, a); case 7: return mkBin(SLE, b, a); case 8: return mkBin(SLT, a, b); default: return mkBin(SLE, a, b); } }
static Val bin(u8 op, const Val& a, const Val& b, unsigned w) {
  Val r; r.e = 0; r.c = 0; if (!a.e && !b.e) { if (op >= UDIV && op <= SREM && b.c == 0) violation("division-by-zero", model); r.c = constBin(op, a.c, b.c, w); return r; }
  if (op >= UDIV && op <= SREM) { E z = mkEq(toE(b, w), mkConst(0, w)); if (!isC(z, 0)) { if (decide(z)) violation("division-by-zero", model); } }
  if ((op == SHL || op == LSHR || op == ASHR) && b.e && w <= 64) { // variable shift amounts with few possible values: split
    E x = subst(b.e); while (N[x].op == CONCAT && isC(N[x].a, 0)) x = N[x].b; if (!isC(x)) { bool go = shiftConc; if (!go && N[x].op == ITE) { int leaves = 0; std::vector<E> st{x}; while (!st.empty() && leaves <= 8) { E y = st.back(); st.pop_back(); if (N[y].op == ITE) { st.push_back(N[y].b); st.push_back(N[y].c); } else if (isC(y)) leaves++; else leaves = 99; } go = leaves <= 8; } if (go) { Val bv; bv.c = concretize(b, w, "shift amount"); bv.e = 0; return bin(op, a, bv, w); } } }
  setE(r, mkBin(op, toE(a, w), toE(b, w))); return r; }
static void setRet(Ins* I, const Val& v) { if (I->d >= 0) R[I->d] = v; }
static Val cv(u128 c) { Val v; v.c = c; v.e = 0; return v; }
static Val ev(E e) { Val v; v.c = 0; v.e = 0; setE(v, e); return v; }
static bool gotoEdge(u32 e) { Edge& ed = F->edges[e]; static Val tmp[4096]; if (ed.pn) { PhiCopy* pc = &F->phis[ed.ps]; if (ed.pn == 1) { for (u32 i = 0; i < pc->n; i++) tmp[i] = V(pc->s >= 0 ? pc->s + (i32)i : ~(~pc->s + (i32)i)); for (u32 i = 0; i < pc->n; i++) R[pc->d + i] = tmp[i]; } else { u32 k = 0; for (u32 q = 0; q < ed.pn; q++) for (u32 i = 0; i < pc[q].n; i++) tmp[k++] = V(pc[q].s >= 0 ? pc[q].s + (i32)i : ~(~pc[q].s + (i32)i)); k = 0; for (u32 q = 0; q < ed.pn; q++) for (u32 i = 0; i < pc[q].n; i++) R[pc[q].d + i] = tmp[k++]; } } ip = &F->code[ed.target] - 1; return true; }
static inline i32 opi(i32 a, u32 i) { return a >= 0 ? a + (i32)i : ~(~a + (i32)i); }
static void pushFrame(Func* f, const std::vector<Val>& args, Ins* callIns) {
  decode(f); if (frames.size() > 20000) { violation("stack-overflow", model); } if (!frames.empty()) frames.back().pc = ip - &F->code[0]; Frame fr; fr.f = f; if (regTop + f->nregs > REGCAP) violation("stack-overflow", model); fr.R = regArena + regTop; regTop += f->nregs; fr.pc = 0; fr.stackBase = stackObjs.size(); fr.stackTopSave = stackTop; fr.callIns = callIns; for (size_t i = 0; i < args.size() && i < f->nargSlots; i++) fr.R[i] = args[i]; frames.push_back(fr); F = f; R = fr.R; ip = &f->code[0] - 1; funcSeen[f->id] = 1; }
static void popStack(Frame& fr) { while (stackObjs.size() > fr.stackBase) { u32 id = stackObjs.back(); stackObjs.pop_back(); setOwner(objs[id], 0); killObj(id); if (!ckptDepth && id == objs.size() - 1) objs.pop_back(); } stackTop = fr.stackTopSave; }
static void panicPath(const std::string& name) { if (allowPanic) { S->panicsAllowed++; pathEnd(); endPath(); } violation("panic via " + name, model); }
static std::set<std::string> warned;
static void externCall(Ins* I, CallEx& c) {
  const std::string& n = c.name; auto A = [&](int i) -> const Val& { return V(c.args[i]); }; auto U = [&](int i) -> u64 { return concretize(V(c.args[i]), c.argT[i]->w ? c.argT[i]->w : 64, n.c_str()); };
  if (n == "sym_bytes") { u64 p = U(0), k = U(1); std::string nm = rstr(A(2), U(3)); Obj* o; u64 off; E x; o = access(cv(p), k, true, off, x); touch(o, off, k); if (concreteMode || randomMode) { std::vector<u8> b(k); if (randomMode) { u64 m = rnd() % 4; for (auto& y : b) y = m == 0 ? rnd() : m == 1 ? (rnd() % 3 ? 0 : rnd()) : m == 2 ? (rnd() % 2 ? 255 : rnd()) : rnd() % 4; inputs.push_back({nm, b}); } else { if (inputPos >= inputs.size() || inputs[inputPos].first != nm || inputs[inputPos].second.size() != k) die("replay input mismatch at %s (%llu)", nm.c_str(), (unsigned long long)k); b = inputs[inputPos++].second; } if (k) memcpy(o->data + off, b.data(), k); if (o->sym) memset(o->sym + off, 0, k * 4); return; }
    SymIn s; s.name = nm; s.first = nvars; s.n = k; symIns.push_back(s); if (k) { ensureSym(*o); o->nsym = 1; } for (u64 i = 0; i < k; i++) o->sym[off + i] = mkVar(nvars++); model.v.resize(nvars, 0); return; }
  if (n == "sym_assume") { const Val& v = A(0); if (!v.e) { if (v.c & 1) return; S->killed++; endPath(); } E e = N[v.e].w == 1 ? v.e : mkExtract(v.e, 0, 1); if (isC(e)) { if (N[e].v) return; S->killed++; endPath(); } if (evalModel(e)) { addPC(e); return; } Model m; Res r = checkSat(e, &m); if (r == UNSAT) { S->killed++; endPath(); } if (r == UNKNOWN) { inconclusive("solver timeout in assume at %s", where().c_str()); S->stop = 1; endProc(); } model = m; modelVer = ++verCounter; addPC(e); return; }
  if (n == "sym_assert") { u64 id = U(1); S->asserts++; const Val& v = A(0); char b[64]; snprintf(b, 64, "assert %llu", (unsigned long long)id); E e = v.e ? (N[v.e].w == 1 ? v.e : mkExtract(v.e, 0, 1)) : 0; if (!v.e || isC(e)) { bool ok = v.e ? N[e].v : (v.c & 1); if (!ok) violation(b, model); return; } S->assertsSym++; if (!evalModel(e)) violation(b, model); Model m; Res r = checkSat(mkNot(e), &m); if (r == SAT) violation(b, m); if (r == UNKNOWN) { if (getenv("RSYMEX_DUMP")) fprintf(stderr, "unknown assert: %s\n", show(e, 14).c_str()); inconclusive("solver timeout in assertion %llu", (unsigned long long)id); S->stop = 1; endProc(); } return; }
  if (n == "sym_reach") { S->reach[U(0) & 255]++; return; }
  if (n == "sym_allow_panic") { allowPanic = U(0); return; }
  if (n == "sym_concretize") { setRet(I, cv(concretize(A(0), 64, "harness"))); return; }
  if (n == "sym_config") { u64 k = U(0), v = U(1); if (k == 1) writeIteMax = v; else if (k == 2) readTreeMax = v; else if (k == 3) maxAlloc = v; else if (k == 4) readTableMax = v; else if (k == 5) shiftConc = v; else if (k == 6) parOrder = v; else if (k == 7) raceOn = v; return; }
  if (n == "sym_par") { if (raceOn) parOp(U(0)); setRet(I, cv(parOrder)); return; }
  if (n == "sym_note") { u64 p = U(0), k = U(1); std::vector<Val> b; readBytes(cv(p), k, b); for (auto& x : b) { noteHash ^= (u8)(x.e ? evalModel(x.e) : x.c); noteHash *= 1099511628211ull; } return; }
  auto tooBig = [&](int i) { const Val& v = A(i); if (!v.e) return false; return (bool)decide(mkNot(mkBin(ULE, v.e, mkConst(maxAlloc, 64)))); }; // a symbolic size over the limit is one path, not one per value
  if ((n == "malloc" && tooBig(0)) || (n == "calloc" && !A(0).e && A(0).c == 1 && tooBig(1)) || (n == "calloc" && !A(1).e && A(1).c == 1 && tooBig(0)) || (n == "realloc" && tooBig(1)) || (n == "aligned_alloc" && tooBig(1))) { setRet(I, cv(0)); return; }
  if (n == "posix_memalign" && tooBig(2)) { setRet(I, cv(12)); return; }
  if (n == "malloc") { setRet(I, cv(heapAlloc(U(0), 16))); return; }
  if (n == "calloc") { setRet(I, cv(heapAlloc(U(0) * U(1), 16))); return; }
  if (n == "posix_memalign") { u64 a = heapAlloc(U(2), U(1)); if (!a) { setRet(I, cv(12)); return; } memStore(A(0), cv(a), 64); setRet(I, cv(0)); return; }
  if (n == "aligned_alloc") { setRet(I, cv(heapAlloc(U(1), U(0)))); return; }
  if (n == "realloc") { u64 p = U(0), k = U(1); u64 q = heapAlloc(k, 16); if (q && p) { Obj* o = find(p); if (!o || o->base != p) memError("bad-realloc", p, model); copyMem(cv(q), cv(p), std::min<u64>(k, o->size)); heapFree(p); } setRet(I, cv(q)); return; }
  if (n == "free") { heapFree(U(0)); return; }
  if (n == "bcmp" || n == "memcmp") { u64 k = U(2); std::vector<Val> a, b; readBytes(A(0), k, a); readBytes(A(1), k, b); bool conc = true; for (u64 i = 0; i < k; i++) if (a[i].e || b[i].e) conc = false; if (conc) { int r = 0; for (u64 i = 0; i < k; i++) if (a[i].c != b[i].c) { r = a[i].c < b[i].c ? -1 : 1; break; } setRet(I, cv((u32)r)); return; }
    E r = mkConst(0, 32); if (n == "bcmp") { E eq = mkConst(1, 1); for (u64 i = 0; i < k; i++) { eq = mkBin(AND, eq, mkEq(toE(a[i], 8), toE(b[i], 8))); if (isC(eq, 0)) break; } r = mkIte(eq, mkConst(0, 32), mkConst(1, 32)); } else for (u64 i = k; i-- > 0;) { E x = toE(a[i], 8), y = toE(b[i], 8); r = mkIte(mkEq(x, y), r, mkIte(mkBin(ULT, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32))); } setRet(I, ev(r)); return; }
  if (n == "strlen") { u64 p = U(0), k = 0; while (concretize(memLoad(cv(p + k), 8), 8, "strlen")) k++; setRet(I, cv(k)); return; }
  if (n == "memcpy" || n == "memmove") { copyMem(A(0), A(1), U(2)); setRet(I, A(0)); return; }
  if (n == "memchr") { u64 p = U(0), k = U(2); u8 ch = (u8)U(1); for (u64 i = 0; i < k; i++) { Val b = memLoad(cv(p + i), 8); bool hit = b.e ? decide(mkEq(b.e, mkConst(ch, 8))) : b.c == ch; if (hit) { setRet(I, cv(p + i)); return; } } setRet(I, cv(0)); return; }
  if (n == "getenv") { setRet(I, cv(0)); return; }
  if (n == "__errno_location") { if (!errnoAddr) { u32 id = newObj(globTop, 16, 16, 1); errnoAddr = objs[id].base; } setRet(I, cv(errnoAddr)); return; }
  if (n == "write" || n == "writev") { setRet(I, cv(n == "write" ? U(2) : 0)); return; }
  if (n == "getrandom") { u64 k = U(1); u64 p = U(0); for (u64 i = 0; i < k; i++) memStore(cv(p + i), cv(0x5a), 8); setRet(I, cv(k)); return; }
  if (n == "syscall") { u64 nr = U(0); if (nr == 318) { u64 k = U(2); u64 p = U(1); for (u64 i = 0; i < k; i++) memStore(cv(p + i), cv(0x5a), 8); setRet(I, cv(k)); return; } if (nr == 202) { setRet(I, cv(0)); return; } setRet(I, cv((u64)-1)); return; }
  if (n == "clock_gettime") { memStore(A(1), cv(1700000000), 64); Val p = A(1); p.c += 8; memStore(p, cv(0), 64); setRet(I, cv(0)); return; }
  if (n == "__cxa_thread_atexit_impl" || n == "pthread_key_create" || n == "pthread_setspecific" || n == "close" || n == "munmap" || n == "sched_yield" || n == "atexit") { setRet(I, cv(0)); return; }
  if (n == "gettid" || n == "getpid") { setRet(I, cv(4242)); return; }
  if (n == "open64" || n == "open" || n == "stat64" || n == "statx" || n == "fstat64" || n == "readlink" || n == "lseek64" || n == "read" || n == "mmap64") { if (errnoAddr) memStore(cv(errnoAddr), cv(2), 32); setRet(I, cv(~(u128)0 & maskw(I->n && c.ret->w ? c.ret->w : 64))); return; }
  if (n == "realpath" || n == "getcwd" || n == "pthread_getspecific") { setRet(I, cv(0)); return; }
  auto f1 = [&](double (*g)(double), float (*h)(float)) { if (A(0).e) { inconclusive("symbolic argument to %s", n.c_str()); S->stop = 1; endProc(); } if (c.ret->w == 32) setRet(I, cv(fb(h(bf(A(0).c))))); else setRet(I, cv(db(g(bd(A(0).c))))); };
  if (n == "exp" || n == "expf") { f1(exp, expf); return; } if (n == "log" || n == "logf") { f1(log, logf); return; } if (n == "log2" || n == "log2f") { f1(log2, log2f); return; } if (n == "exp2" || n == "exp2f") { f1(exp2, exp2f); return; } if (n == "sin" || n == "sinf") { f1(sin, sinf); return; } if (n == "cos" || n == "cosf") { f1(cos, cosf); return; } if (n == "tan" || n == "tanf") { f1(tan, tanf); return; } if (n == "cbrt" || n == "cbrtf") { f1(cbrt, cbrtf); return; }
  if (n == "pow" || n == "powf") { if (A(0).e || A(1).e) { inconclusive("symbolic argument to pow"); S->stop = 1; endProc(); } if (c.ret->w == 32) setRet(I, cv(fb(powf(bf(A(0).c), bf(A(1).c))))); else setRet(I, cv(db(pow(bd(A(0).c), bd(A(1).c))))); return; }
  inconclusive("call of unmodelled external function %s at %s", n.c_str(), where().c_str()); S->stop = 1; endProc(); }
static bool starts(const std::string& s, const char* p) { return !strncmp(s.c_str(), p, strlen(p)); }
enum Intr { N_ASSUME, N_NOP, N_MEMCPY, N_MEMSET, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_BSWAP, N_BITREV, N_CTLZ, N_CTTZ, N_CTPOP, N_ABS, N_USUBSAT, N_UADDSAT, N_SADDSAT, N_SSUBSAT, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_FSHL, N_FSHR, N_ISCONST, N_TLS, N_EXPECT, N_UCMP, N_SCMP, N_LOADREL, N_FABS, N_FLOOR, N_CEIL, N_TRUNC, N_ROUND, N_ROUNDEVEN, N_SQRT, N_FMA, N_MINNUM, N_MAXNUM, N_FPTOUISAT, N_FPTOSISAT, N_COPYSIGN, N_PTRMASK, N_VREDOR, N_VREDAND, N_VREDADD, N_POW, N_POWI, N_LIBM, N_OBJSIZE, N_STACKSAVE, N_PACKUSWB, N_PSADBW, N_PMOVMSKB, N_SELFCOPY, N_ADC, N_SBB };
static int intrinsicId(const std::string& n) {
  static const std::pair<const char*, int> t[] = {{"llvm.assume", N_ASSUME}, {"llvm.lifetime", N_NOP}, {"llvm.experimental.noalias", N_NOP}, {"llvm.dbg", N_NOP}, {"llvm.donothing", N_NOP}, {"llvm.x86.sse2.pause", N_NOP}, {"llvm.prefetch", N_NOP}, {"llvm.invariant", N_NOP}, {"llvm.memcpy", N_MEMCPY}, {"llvm.memmove", N_MEMCPY}, {"llvm.memset", N_MEMSET}, {"llvm.umax", N_UMAX}, {"llvm.umin", N_UMIN}, {"llvm.smax", N_SMAX}, {"llvm.smin", N_SMIN}, {"llvm.bswap", N_BSWAP}, {"llvm.bitreverse", N_BITREV}, {"llvm.ctlz", N_CTLZ}, {"llvm.cttz", N_CTTZ}, {"llvm.ctpop", N_CTPOP}, {"llvm.abs", N_ABS}, {"llvm.usub.sat", N_USUBSAT}, {"llvm.uadd.sat", N_UADDSAT}, {"llvm.sadd.sat", N_SADDSAT}, {"llvm.ssub.sat", N_SSUBSAT}, {"llvm.uadd.with", N_UADDO}, {"llvm.usub.with", N_USUBO}, {"llvm.umul.with", N_UMULO}, {"llvm.sadd.with", N_SADDO}, {"llvm.ssub.with", N_SSUBO}, {"llvm.smul.with", N_SMULO}, {"llvm.fshl", N_FSHL}, {"llvm.fshr", N_FSHR}, {"llvm.is.constant", N_ISCONST}, {"llvm.threadlocal", N_TLS}, {"llvm.expect", N_EXPECT}, {"llvm.ucmp", N_UCMP}, {"llvm.scmp", N_SCMP}, {"llvm.load.relative", N_LOADREL}, {"llvm.fabs", N_FABS}, {"llvm.floor", N_FLOOR}, {"llvm.ceil", N_CEIL}, {"llvm.trunc.", N_TRUNC}, {"llvm.roundeven", N_ROUNDEVEN}, {"llvm.round.", N_ROUND}, {"llvm.rint", N_ROUNDEVEN}, {"llvm.nearbyint", N_ROUNDEVEN}, {"llvm.sqrt", N_SQRT}, {"llvm.fma.", N_FMA}, {"llvm.minnum", N_MINNUM}, {"llvm.maxnum", N_MAXNUM}, {"llvm.minimumnum", N_MINNUM}, {"llvm.maximumnum", N_MAXNUM}, {"llvm.fptoui.sat", N_FPTOUISAT}, {"llvm.fptosi.sat", N_FPTOSISAT}, {"llvm.copysign", N_COPYSIGN}, {"llvm.ptrmask", N_PTRMASK}, {"llvm.vector.reduce.or", N_VREDOR}, {"llvm.vector.reduce.and", N_VREDAND}, {"llvm.vector.reduce.add", N_VREDADD}, {"llvm.powi", N_POWI}, {"llvm.pow.", N_POW}, {"llvm.exp.", N_LIBM}, {"llvm.exp2.", N_LIBM}, {"llvm.log.", N_LIBM}, {"llvm.log2.", N_LIBM}, {"llvm.sin.", N_LIBM}, {"llvm.cos.", N_LIBM}, {"llvm.objectsize", N_OBJSIZE}, {"llvm.ssa.copy", N_SELFCOPY}, {"llvm.launder", N_SELFCOPY}, {"llvm.strip", N_SELFCOPY}, {"llvm.x86.addcarry.", N_ADC}, {"llvm.x86.subborrow.", N_SBB}};
  for (auto& x : t) if (starts(n, x.first)) return x.second; return -1; }
static void intrinsic(Ins* I, CallEx& c) {
  auto A = [&](int i, u32 k = 0) -> const Val& { return V(opi(c.args[i], k)); }; u32 nl = I->n; unsigned w = nl ? leavesOf(c.ret)[0].w : 0; unsigned aw = c.argT.empty() || leavesOf(c.argT[0]).empty() ? 0 : leavesOf(c.argT[0])[0].w;
  auto each = [&](const std::function<Val(u32)>& g) { std::vector<Val> t(nl); for (u32 i = 0; i < nl; i++) t[i] = g(i); for (u32 i = 0; i < nl; i++) if (I->d >= 0) R[I->d + i] = t[i]; };
  switch (c.intr) {
    case N_ASSUME: case N_NOP: return;
    case N_MEMCPY: { u64 n = concretize(A(2), 64, "memcpy length"); copyMem(A(0), A(1), n); return; }
    case N_MEMSET: { u64 n = concretize(A(2), 64, "memset length"); if (!n) return; Val p = cv(concretize(A(0), 64, "pointer")); u64 off; E x; Obj* o = access(p, n, true, off, x); touch(o, off, n); const Val& b = A(1); if (!b.e) { memset(o->data + off, (int)b.c, n); if (o->sym && o->nsym) memset(o->sym + off, 0, n * 4); } else { ensureSym(*o); o->nsym = 1; for (u64 i = 0; i < n; i++) o->sym[off + i] = b.e; } localInstrs += n / 16; return; }
    case N_UMAX: each([&](u32 i) { const Val &a = A(0, i), &b = A(1, i); if (!a.e && !b.e) return cv(std::max(a.c, b.c)); E x = toE(a, w), y = toE(b, w); return ev(mkIte(mkBin(ULT, x, y), y, x)); }); return;
    case N_UMIN: each([&](u32 i) { const Val &a = A(0, i), &b = A(1, i); if (!a.e && !b.e) return cv(std::min(a.c, b.c)); E x = toE(a, w), y = toE(b, w); return ev(mkIte(mkBin(ULT, x, y), x, y)); }); return;
    case N_SMAX: each([&](u32 i) { const Val &a = A(0, i), &b = A(1, i); if (!a.e && !b.e) return cv(sx(a.c, w) > sx(b.c, w) ? a.c : b.c); E x = toE(a, w), y = toE(b, w); return ev(mkIte(mkBin(SLT, x, y), y, x)); }); return;
    case N_SMIN: each([&](u32 i) { const Val &a = A(0, i), &b = A(1, i); if (!a.e && !b.e) return cv(sx(a.c, w) < sx(b.c, w) ? a.c : b.c); E x = toE(a, w), y = toE(b, w); return ev(mkIte(mkBin(SLT, x, y), x, y)); }); return;
    case N_BSWAP: each([&](u32 i) { return ev(mkBswap(toE(A(0, i), w))); }); return;
    case N_BITREV: each([&](u32 i) { return ev(mkBitrev(toE(A(0, i), w))); }); return;
    case N_CTLZ: each([&](u32 i) { const Val& a = A(0, i); if (!a.e) { unsigned k = 0; while (k < w && !(a.c >> (w - 1 - k) & 1)) k++; return cv(k); } return ev(mkCtlz(a.e)); }); return;
    case N_CTTZ: each([&](u32 i) { const Val& a = A(0, i); if (!a.e) { unsigned k = 0; while (k < w && !(a.c >> k & 1)) k++; return cv(k); } return ev(mkCttz(a.e)); }); return;
    case N_CTPOP: each([&](u32 i) { return ev(mkCtpop(toE(A(0, i), w))); }); return;
    case N_ABS: each([&](u32 i) { const Val& a = A(0, i); if (!a.e) return cv(sx(a.c, w) < 0 ? (0 - a.c) & maskw(w) : a.c); return ev(mkIte(mkBin(SLT, a.e, mkConst(0, w)), mkBin(SUB, mkConst(0, w), a.e), a.e)); }); return;
    case N_USUBSAT: each([&](u32 i) { const Val &a = A(0, i), &b = A(1, i); if (!a.e && !b.e) return cv(a.c < b.c ? 0 : a.c - b.c); E x = toE(a, w), y = toE(b, w); return ev(mkIte(mkBin(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y))); }); return;
    case N_UADDSAT: each([&](u32 i) { E x = toE(A(0, i), w), y = toE(A(1, i), w); E s = mkBin(ADD, x, y); return ev(mkIte(mkBin(ULT, s, x), mkConst(maskw(w), w), s)); }); return;
    case N_SADDSAT: case N_SSUBSAT: each([&](u32 i) { E x = mkSext(toE(A(0, i), w), w + 1), y = mkSext(toE(A(1, i), w), w + 1); E s = mkBin(c.intr == N_SADDSAT ? ADD : SUB, x, y); E mx = mkConst(maskw(w - 1), w + 1), mn = mkConst((maskw(w + 1) ^ maskw(w - 1)), w + 1); E r = mkIte(mkBin(SLT, mx, s), mx, mkIte(mkBin(SLT, s, mn), mn, s)); return ev(mkTrunc(r, w)); }); return;
    case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: { if (nl != 2) die("vector overflow op"); const Val &a = A(0), &b = A(1); Val r, o; w = aw;
      if (!a.e && !b.e && w <= 64) { u128 x = a.c, y = b.c; bool ov; u128 v; i128 sx_ = sx(x, w), sy = sx(y, w), sr; switch (c.intr) { case N_UADDO: v = x + y; ov = v > maskw(w); break; case N_USUBO: v = x - y; ov = x < y; break; case N_UMULO: v = x * y; ov = v > maskw(w); break; case N_SADDO: sr = sx_ + sy; v = (u128)sr; ov = sr != sx(v & maskw(w), w); break; case N_SSUBO: sr = sx_ - sy; v = (u128)sr; ov = sr != sx(v & maskw(w), w); break; default: sr = sx_ * sy; v = (u128)sr; ov = sr != sx(v & maskw(w), w); } r = cv(v & maskw(w)); o = cv(ov); }
      else { E x = toE(a, w), y = toE(b, w); switch (c.intr) { case N_UADDO: { E s = mkBin(ADD, x, y); r = ev(s); o = ev(mkBin(ULT, s, x)); break; } case N_USUBO: r = ev(mkBin(SUB, x, y)); o = ev(mkBin(ULT, x, y)); break; case N_UMULO: { if (w > 64) die("umulo i128 symbolic"); E p = mkBin(MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); r = ev(mkBin(MUL, x, y)); o = ev(mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w)))); break; } case N_SADDO: case N_SSUBO: { u8 op = c.intr == N_SADDO ? ADD : SUB; E s = mkBin(op, mkSext(x, w + 1), mkSext(y, w + 1)); r = ev(mkTrunc(s, w)); o = ev(mkNot(mkEq(s, mkSext(mkTrunc(s, w), w + 1)))); break; } default: { if (w > 64) die("smulo i128"); E p = mkBin(MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)); r = ev(mkTrunc(p, w)); o = ev(mkNot(mkEq(p, mkSext(mkTrunc(p, w), 2 * w)))); } } }
      if (I->d >= 0) { R[I->d] = r; R[I->d + 1] = o; } return; }
    case N_FSHL: case N_FSHR: each([&](u32 i) { E x = toE(A(0, i), w), y = toE(A(1, i), w), s = mkBin(UREM, toE(A(2, i), w), mkConst(w, w)); if (2 * w > 128) die("fshl wide"); E p = mkConcat(x, y); E sw = mkZext(s, 2 * w); if (c.intr == N_FSHL) return ev(mkExtract(mkBin(SHL, p, sw), w, w)); return ev(mkExtract(mkBin(LSHR, p, sw), 0, w)); }); return;
    case N_ADC: case N_SBB: { u32 bw = starts(c.name, "llvm.x86.addcarry.32") || starts(c.name, "llvm.x86.subborrow.32") ? 32 : 64; const Val &ci = A(0), &a = A(1), &b = A(2); E cin = mkZext(mkNot(mkEq(toE(ci, 8), mkConst(0, 8))), bw + 8), x = mkZext(toE(a, bw), bw + 8), y = mkZext(toE(b, bw), bw + 8);
      E s = c.intr == N_ADC ? mkBin(ADD, mkBin(ADD, x, y), cin) : mkBin(SUB, mkBin(SUB, x, y), cin); Val o = ev(mkZext(mkExtract(s, bw, 1), 8)), r = ev(mkTrunc(s, bw)); if (I->d >= 0) { R[I->d] = o; R[I->d + 1] = r; } return; }
    case N_ISCONST: setRet(I, cv(0)); return;
    case N_TLS: case N_EXPECT: case N_SELFCOPY: each([&](u32 i) { return A(0, i); }); return;
    case N_UCMP: case N_SCMP: each([&](u32 i) { const Val &a = A(0, i), &b = A(1, i); E x = toE(a, aw), y = toE(b, aw); u8 op = c.intr == N_UCMP ? ULT : SLT; return ev(mkIte(mkBin(op, x, y), mkConst(maskw(w), w), mkIte(mkEq(x, y), mkConst(0, w), mkConst(1, w)))); }); return;
    case N_LOADREL: { Val p = bin(ADD, A(0), A(1), 64); Val r = memLoad(p, 32); E x = mkSext(toE(r, 32), 64); setRet(I, ev(mkBin(ADD, toE(A(0), 64), x))); return; }
    case N_FABS: each([&](u32 i) { return ev(mkFabs(toE(A(0, i), w))); }); return;
    case N_COPYSIGN: each([&](u32 i) { return ev(mkConcat(mkExtract(toE(A(1, i), w), w - 1, 1), mkExtract(toE(A(0, i), w), 0, w - 1))); }); return;
    case N_FLOOR: each([&](u32 i) { return ev(mkRint(toE(A(0, i), w), 0)); }); return; case N_CEIL: each([&](u32 i) { return ev(mkRint(toE(A(0, i), w), 1)); }); return; case N_TRUNC: each([&](u32 i) { return ev(mkRint(toE(A(0, i), w), 2)); }); return; case N_ROUND: each([&](u32 i) { return ev(mkRint(toE(A(0, i), w), 3)); }); return; case N_ROUNDEVEN: each([&](u32 i) { return ev(mkRint(toE(A(0, i), w), 4)); }); return;
    case N_SQRT: each([&](u32 i) { return ev(mkF(FSQRT, toE(A(0, i), w))); }); return; case N_FMA: each([&](u32 i) { return ev(mkFma(toE(A(0, i), w), toE(A(1, i), w), toE(A(2, i), w))); }); return;
    case N_MINNUM: each([&](u32 i) { return ev(mkF(FMINNUM, toE(A(0, i), w), toE(A(1, i), w))); }); return; case N_MAXNUM: each([&](u32 i) { return ev(mkF(FMAXNUM, toE(A(0, i), w), toE(A(1, i), w))); }); return;
    case N_FPTOUISAT: each([&](u32 i) { return ev(mkFPTo(FPTOUI_SAT, toE(A(0, i), aw), w)); }); return; case N_FPTOSISAT: each([&](u32 i) { return ev(mkFPTo(FPTOSI_SAT, toE(A(0, i), aw), w)); }); return;
    case N_PTRMASK: setRet(I, bin(AND, A(0), A(1), 64)); return;
    case N_VREDOR: case N_VREDAND: case N_VREDADD: { u32 k = leavesOf(c.argT[0]).size(); Val r = A(0, 0); for (u32 i = 1; i < k; i++) r = bin(c.intr == N_VREDOR ? OR : c.intr == N_VREDAND ? AND : ADD, r, A(0, i), w); setRet(I, r); return; }
    case N_POW: case N_POWI: case N_LIBM: { if (A(0).e || (c.args.size() > 1 && A(1).e)) { inconclusive("symbolic argument to %s", c.name.c_str()); S->stop = 1; endProc(); } double x = w == 32 ? bf(A(0).c) : bd(A(0).c), r; const std::string& n = c.name; if (c.intr == N_POW) { double y = w == 32 ? bf(A(1).c) : bd(A(1).c); r = w == 32 ? powf(x, y) : pow(x, y); } else if (c.intr == N_POWI) r = w == 32 ? __builtin_powif(x, (int)sx(A(1).c, 32)) : __builtin_powi(x, (int)sx(A(1).c, 32)); else if (starts(n, "llvm.exp2")) r = w == 32 ? exp2f(x) : exp2(x); else if (starts(n, "llvm.exp")) r = w == 32 ? expf(x) : exp(x); else if (starts(n, "llvm.log2")) r = w == 32 ? log2f(x) : log2(x); else if (starts(n, "llvm.log")) r = w == 32 ? logf(x) : log(x); else if (starts(n, "llvm.sin")) r = w == 32 ? sinf(x) : sin(x); else r = w == 32 ? cosf(x) : cos(x); setRet(I, cv(w == 32 ? fb((float)r) : db(r))); return; }
    case N_OBJSIZE: setRet(I, cv(maskw(w))); return; }
  die("intrinsic %s", c.name.c_str()); }
static bool stubFmt = true;
static bool doCall(Ins* I) { // returns true when a frame was pushed
  CallEx& c = F->calls[I->ex];
  if (c.intr == -3) { unsigned w = c.argT[0]->w; if (w > 64) die("asm div"); const Val &dv = V(c.args[0]), &hi = V(c.args[1]), &lo = V(c.args[2]); E n = mkConcat(toE(hi, w), toE(lo, w)), d = mkZext(toE(dv, w), 2 * w); // x86 div: faults unless the high half is below the divisor
    E ok = mkBin(ULT, toE(hi, w), toE(dv, w)); Val okv = ev(ok); if (okv.e || !okv.c) { if (!okv.e) memError("asm-div", 0, model); inconclusive("symbolic asm div"); S->stop = 1; endProc(); } if (I->d >= 0) { R[I->d] = ev(mkTrunc(mkBin(UREM, n, d), w)); R[I->d + 1] = ev(mkTrunc(mkBin(UDIV, n, d), w)); } return false; }
  if (c.intr == -2) { for (u32 i = 0; i < I->n; i++) if (I->d >= 0) R[I->d + i] = cv(0); return false; }
  Func* f = c.f;
  if (c.indirect) { u64 a = concretize(V(c.fp), 64, "function pointer"); if (a < 0x10000000ull || ((a - 0x10000000ull) & 31) || (a - 0x10000000ull) / 32 >= funcList.size()) memError("call-target", a, model); f = funcList[(a - 0x10000000ull) / 32]; if (!f->defined) { CallEx t = c; t.name = f->name; t.indirect = false; if (isPanicName(f->name)) panicPath(f->name); externCall(I, t); if (c.normalEdge >= 0) gotoEdge(c.normalEdge); return false; } }
  else if (!f) { if (c.intr == -1 && starts(c.name, "llvm.") && c.name != "llvm.trap" && c.name != "llvm.ubsantrap") { c.intr = intrinsicId(c.name); if (c.intr < 0) { inconclusive("unmodelled intrinsic %s", c.name.c_str()); S->stop = 1; endProc(); } } if (c.intr >= 0) { intrinsic(I, c); if (c.normalEdge >= 0) gotoEdge(c.normalEdge); return false; }
    auto it = funcs.find(c.name); if (it == funcs.end()) { auto g = globals.find(c.name); if (g != globals.end() && !g->second->alias.empty()) it = funcs.find(g->second->alias); if (it == funcs.end()) die("call of unknown @%s", c.name.c_str()); } f = it->second; f->isPanic = isPanicName(f->name); c.f = f; }
  if (f->isPanic || (c.indirect && isPanicName(f->name))) panicPath(f->name);
  if (!f->defined) { externCall(I, c); if (c.normalEdge >= 0) gotoEdge(c.normalEdge); return false; }
  if (stubFmt && (f->name.find("4core3fmt5write") != std::string::npos && f->name.find("9panicking") == std::string::npos) && I->n == 1) { setRet(I, cv(0)); if (c.normalEdge >= 0) gotoEdge(c.normalEdge); return false; }
  if (f->name.find("3std7process4exit") != std::string::npos) panicPath(f->name);
  std::vector<Val> args; for (size_t i = 0; i < c.args.size(); i++) { u32 k = leavesOf(c.argT[i]).size(); for (u32 j = 0; j < k; j++) args.push_back(V(opi(c.args[i], j))); } pushFrame(f, args, I); return true; }
[[noreturn]] static void run() {
  while (true) {
    ++ip; Ins& I = *ip; localInstrs++; if (I.dbg) { dbgSeen[I.dbg & (dbgMax - 1)] = 1; }
    if ((localInstrs & 0xfffff) == 0) { checkStop(); if (localInstrs - pathInstrBase > maxInstr) { inconclusive("instruction limit per path at %s", where().c_str()); S->stop = 1; endProc(); } }
    switch (I.op) {
      case I_BIN: if (I.n == 1) { const Val &a = V(I.a), &b = V(I.b); Val& d = R[I.d]; if (!a.e && !b.e && I.w <= 64) { u64 x = (u64)a.c, y = (u64)b.c, m = mask64(I.w); switch (I.sub) { case ADD: d = cv((x + y) & m); continue; case SUB: d = cv((x - y) & m); continue; case MUL: d = cv((x * y) & m); continue; case AND: d = cv(x & y); continue; case OR: d = cv(x | y); continue; case XOR: d = cv(x ^ y); continue; case SHL: d = cv(y >= I.w ? 0 : (x << y) & m); continue; case LSHR: d = cv(y >= I.w ? 0 : x >> y); continue; default: break; } } Val r = bin(I.sub, a, b, I.w); R[I.d] = r; } else { for (u32 i = 0; i < I.n; i++) { Val r = bin(I.sub, V(opi(I.a, i)), V(opi(I.b, i)), I.w); R[I.d + i] = r; } } break;
      case I_ICMP: for (u32 i = 0; i < I.n; i++) { const Val &a = V(opi(I.a, i)), &b = V(opi(I.b, i)); if (!a.e && !b.e) R[I.d + i] = cv(icmpC(I.sub, a.c, b.c, I.w)); else R[I.d + i] = ev(icmpE(I.sub, toE(a, I.w), toE(b, I.w))); } break;
      case I_FCMP: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkFcmp(I.sub, toE(V(opi(I.a, i)), I.w), toE(V(opi(I.b, i)), I.w))); break;
      case I_FBIN: for (u32 i = 0; i < I.n; i++) { const Val &a = V(opi(I.a, i)), &b = V(opi(I.b, i)); if (!a.e && !b.e) R[I.d + i] = cv(evalF(I.sub, I.w, I.w, a.c, b.c, 0, 0)); else R[I.d + i] = ev(mkF(I.sub, toE(a, I.w), toE(b, I.w))); } break;
      case I_FNEG: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkBin(XOR, toE(V(opi(I.a, i)), I.w), mkConst((u128)1 << (I.w - 1), I.w))); break;
      case I_TRUNC: for (u32 i = 0; i < I.n; i++) { const Val& a = V(opi(I.a, i)); if (!a.e) R[I.d + i] = cv(a.c & maskw(I.w)); else R[I.d + i] = ev(mkTrunc(a.e, I.w)); } break;
      case I_ZEXT: for (u32 i = 0; i < I.n; i++) { const Val& a = V(opi(I.a, i)); if (!a.e) R[I.d + i] = a; else R[I.d + i] = ev(mkZext(a.e, I.w)); } break;
      case I_SEXT: for (u32 i = 0; i < I.n; i++) { const Val& a = V(opi(I.a, i)); if (!a.e) R[I.d + i] = cv((u128)sx(a.c, I.c) & maskw(I.w)); else R[I.d + i] = ev(mkSext(a.e, I.w)); } break;
      case I_COPY: for (u32 i = 0; i < I.n; i++) R[I.d + i] = V(opi(I.a, i)); break;
      case I_BITCAST: { u32 sn = I.b, dn = I.n, sw = I.c, dw = I.w; if (sn == dn) { for (u32 i = 0; i < dn; i++) R[I.d + i] = V(opi(I.a, i)); } else { std::vector<Val> out(dn); if (sn * sw > 128) { // only widening/narrowing by whole lanes
            std::vector<E> bits; for (u32 i = 0; i < dn; i++) { E r = 0; if (dw <= sw) { u32 lane = i * dw / sw, sh = (i * dw) % sw; r = mkExtract(toE(V(opi(I.a, lane)), sw), sh, dw); } else { u32 per = dw / sw; for (u32 k = 0; k < per; k++) { E b = toE(V(opi(I.a, i * per + k)), sw); r = k ? mkConcat(b, r) : b; } } setE(out[i], r); out[i].c = out[i].e ? 0 : out[i].c; } }
          else { E all = 0; for (u32 i = 0; i < sn; i++) { E b = toE(V(opi(I.a, i)), sw); all = i ? mkConcat(b, all) : b; } for (u32 i = 0; i < dn; i++) out[i] = ev(mkExtract(all, i * dw, dw)); } for (u32 i = 0; i < dn; i++) R[I.d + i] = out[i]; } break; }
      case I_FPTOUI: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkFPTo(FPTOUI, toE(V(opi(I.a, i)), I.c), I.w)); break;
      case I_FPTOSI: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkFPTo(FPTOSI, toE(V(opi(I.a, i)), I.c), I.w)); break;
      case I_UITOFP: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkIToF(UITOFP, toE(V(opi(I.a, i)), I.c), I.w)); break;
      case I_SITOFP: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkIToF(SITOFP, toE(V(opi(I.a, i)), I.c), I.w)); break;
      case I_FPEXT: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkFPTo(FPEXT, toE(V(opi(I.a, i)), I.c), I.w)); break;
      case I_FPTRUNC: for (u32 i = 0; i < I.n; i++) R[I.d + i] = ev(mkFPTo(FPTRUNC, toE(V(opi(I.a, i)), I.c), I.w)); break;
      case I_SELECT: { if (I.sub) { for (u32 i = 0; i < I.n; i++) { const Val& c = V(opi(I.a, i)); if (!c.e) R[I.d + i] = V(opi(c.c & 1 ? I.b : I.c, i)); else R[I.d + i] = ev(mkIte(c.e, toE(V(opi(I.b, i)), I.w), toE(V(opi(I.c, i)), I.w))); } break; } const Val c = V(I.a); if (!c.e) { i32 s = c.c & 1 ? I.b : I.c; for (u32 i = 0; i < I.n; i++) R[I.d + i] = V(opi(s, i)); } else for (u32 i = 0; i < I.n; i++) { unsigned w = F->lvs[I.ex][i].w; R[I.d + i] = ev(mkIte(c.e, toE(V(opi(I.b, i)), w), toE(V(opi(I.c, i)), w))); } break; }
      case I_GEP: { GepEx& g = F->geps[I.ex]; Val b = V(I.a); bool conc = !b.e; u64 acc = (u64)b.c + g.coff; if (conc) for (size_t i = 0; i < g.idx.size(); i++) { const Val& x = V(g.idx[i].first); if (x.e) { conc = false; break; } acc += (u64)((i64)sx(x.c, g.w[i]) * g.idx[i].second); } if (conc) { R[I.d] = cv(acc); break; } E s = b.e ? b.e : 0; u64 k = (b.e ? 0 : (u64)b.c) + g.coff; for (size_t i = 0; i < g.idx.size(); i++) { const Val& x = V(g.idx[i].first); if (!x.e) { k += (u64)((i64)sx(x.c, g.w[i]) * g.idx[i].second); continue; } E xe = g.w[i] < 64 ? mkSext(x.e, 64) : x.e; E t = mkBin(MUL, xe, mkConst((u64)g.idx[i].second, 64)); s = s ? mkBin(ADD, s, t) : t; } R[I.d] = ev(s ? mkBin(ADD, s, mkConst(k, 64)) : mkConst(k, 64)); break; }
      case I_LOAD: { Val p = V(I.a); inAtomic = I.sub; if (I.n == 1) { Val v = memLoad(p, I.w); R[I.d] = v; } else { if (p.e) { p.c = concretize(p, 64, "aggregate load address"); p.e = 0; } auto& lv = F->lvs[I.ex]; for (u32 i = 0; i < I.n; i++) { Val q = p; q.c += lv[i].off; R[I.d + i] = memLoad(q, lv[i].w); } } inAtomic = false; break; }
      case I_STORE: { Val p = V(I.a); inAtomic = I.sub; if (I.sub && parLock && !p.e && (u64)p.c == parLock) parLock = 0; if (I.n == 1) memStore(p, V(I.b), I.w); else { if (p.e) { p.c = concretize(p, 64, "aggregate store address"); p.e = 0; } auto& lv = F->lvs[I.ex]; for (u32 i = 0; i < I.n; i++) { Val q = p; q.c += lv[i].off; memStore(q, V(opi(I.b, i)), lv[i].w); } } inAtomic = false; break; }
      case I_ALLOCA: { u64 n = (u64)I.b; if (I.sub) n *= concretize(V(I.a), 64, "alloca"); u32 id = newObj(stackTop, n, I.c, 3); stackObjs.push_back(id); R[I.d] = cv(objs[id].base); break; }
      case I_BR: gotoEdge(I.ex); break;
      case I_CBR: { const Val& c = V(I.a); bool t = c.e ? decide(N[c.e].w == 1 ? c.e : mkExtract(c.e, 0, 1)) : (c.c & 1); gotoEdge(t ? I.b : I.c); break; }
      case I_SWITCH: { const Val v = V(I.a); SwEx& s = F->sws[I.ex]; if (!v.e) { u32 t = s.def; for (auto& cs : s.cases) if (cs.first == v.c) { t = cs.second; break; } gotoEdge(t); break; }
        u32 t = s.def; while (true) { checkStop(); u128 x = evalModel(v.e); t = s.def; for (auto& cs : s.cases) if (cs.first == x) { t = cs.second; break; } i32 tb = F->edges[t].succBlock; E c; bool simple = true; // group the cases that lead to the same block only when it has no phi
          bool def = t == s.def || (F->edges[t].succBlock == F->edges[s.def].succBlock && F->edges[t].pn == 0); if (def) { c = mkConst(1, 1); for (auto& cs : s.cases) { bool same = F->edges[cs.second].succBlock == tb && F->edges[cs.second].pn == 0; if (!same) c = mkBin(AND, c, mkNot(mkEq(v.e, mkConst(cs.first, I.w)))); } } else { c = mkConst(0, 1); for (auto& cs : s.cases) { bool same = cs.second == t || (F->edges[cs.second].succBlock == tb && F->edges[cs.second].pn == 0); if (same) c = mkBin(OR, c, mkEq(v.e, mkConst(cs.first, I.w))); } } (void)simple;
          if (decide(c)) break; } gotoEdge(t); break; }
      case I_RET: { Frame fr = frames.back(); Val rv[64]; std::vector<Val> big; Val* rp = rv; if (I.n > 64) { big.resize(I.n); rp = big.data(); } for (u32 i = 0; i < I.n; i++) rp[i] = V(opi(I.a, i)); u32 n = I.n; popStack(fr); regTop -= F->nregs; frames.pop_back(); if (frames.empty()) { if (concreteMode || randomMode) { printf("NOTE %016llx\n", (unsigned long long)noteHash); } pathEnd(); endPath(); } Frame& up = frames.back(); F = up.f; R = up.R; ip = fr.callIns; if (ip->d >= 0) for (u32 i = 0; i < n; i++) R[ip->d + i] = rp[i]; CallEx& c = F->calls[ip->ex]; if (c.normalEdge >= 0) gotoEdge(c.normalEdge); break; }
      case I_UNREACH: violation("unreachable executed", model);
      case I_CALL: doCall(&I); break;
      case I_EXTRACTELT: { const Val& ix = V(I.b); if (!ix.e) R[I.d] = V(opi(I.a, (u32)ix.c)); else { u64 k = concretize(ix, N[ix.e].w, "vector index"); R[I.d] = V(opi(I.a, k)); } break; }
      case I_INSERTELT: { u64 k = concretize(V(I.c), V(I.c).e ? N[V(I.c).e].w : 64, "vector index"); Val x = V(I.b); for (u32 i = 0; i < I.n; i++) R[I.d + i] = V(opi(I.a, i)); R[I.d + k] = x; break; }
      case I_SHUFFLE: { auto& m = F->lists[I.ex]; std::vector<Val> t(I.n); for (u32 i = 0; i < I.n; i++) { u32 k = m[i]; t[i] = k < (u32)I.c ? V(opi(I.a, k)) : V(opi(I.b, k - I.c)); } for (u32 i = 0; i < I.n; i++) R[I.d + i] = t[i]; break; }
      case I_INSERTVAL: { std::vector<Val> t(I.n); for (u32 i = 0; i < I.n; i++) t[i] = V(opi(I.a, i)); for (u32 i = 0; i < I.ex; i++) t[I.c + i] = V(opi(I.b, i)); for (u32 i = 0; i < I.n; i++) R[I.d + i] = t[i]; break; }
      case I_RMW: { inAtomic = true; Val p = V(I.a), x = V(I.b); if (I.sub == 0 && parLock && !p.e && (u64)p.c == parLock && !x.e && x.c == 0) parLock = 0; Val o = memLoad(p, I.w), r; switch (I.sub) { case 0: r = x; break; case 1: r = bin(ADD, o, x, I.w); break; case 2: r = bin(SUB, o, x, I.w); break; case 3: r = bin(AND, o, x, I.w); break; case 4: r = bin(OR, o, x, I.w); break; case 5: r = bin(XOR, o, x, I.w); break; case 7: r = o.c > x.c ? o : x; break; case 8: r = o.c < x.c ? o : x; break; default: die("atomicrmw"); } memStore(p, r, I.w); R[I.d] = o; inAtomic = false; break; }
      case I_CMPXCHG: { inAtomic = true; Val p = V(I.a), x = V(I.b), y = V(I.c); Val o = memLoad(p, I.w); bool eq = (!o.e && !x.e) ? o.c == x.c : decide(mkEq(toE(o, I.w), toE(x, I.w))); if (eq) memStore(p, y, I.w); if (eq && !regions.empty() && !p.e && !x.e && x.c == 0 && !y.e && y.c == 1) parLock = (u64)p.c; inAtomic = false; R[I.d] = o; R[I.d + 1] = cv(eq); break; }
      case I_NOP: break;
      case I_BADOP: inconclusive("unsupported instruction: %s", badOps[I.ex].c_str()); S->stop = 1; endProc();
      default: inconclusive("unsupported instruction at %s", where().c_str()); S->stop = 1; endProc();
    } } }
static char* mapFile(const char* p, size_t& len) { int fd = open(p, O_RDONLY); if (fd < 0) die("open %s", p); struct stat st; fstat(fd, &st); len = st.st_size; char* t = (char*)mmap(0, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, 0); close(fd); return t; }
int main(int argc, char** argv) {
  std::string ll, entry, replay, stats = "stats.json"; unsigned tmo = 60000; double limit = 0; u64 seed = 0;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); }; if (a == "--out") outDir = nx(); else if (a == "--entry") entry = nx(); else if (a == "--concrete") { replay = nx(); concreteMode = true; } else if (a == "--random") { randomMode = true; seed = strtoull(nx().c_str(), 0, 10); } else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--timeout-ms") tmo = atoi(nx().c_str()); else if (a == "--time-limit") limit = atof(nx().c_str()); else if (a == "--max-instr") maxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--no-sat") useSat = false; else if (a == "--cross") crossEvery = strtoull(nx().c_str(), 0, 10); else if (a == "--real-fmt") stubFmt = false; else if (a == "-v") verbose = true; else ll = a; }
  double t0 = now(); if (limit > 0) deadline = t0 + limit;
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); dbgSeen = (u8*)mmap(0, dbgMax, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); funcSeen = (u8*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->tokens = jobs;
  owner = (u32*)mmap(0, ASIZE / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); regArena = (Val*)mmap(0, REGCAP * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (owner == MAP_FAILED || regArena == MAP_FAILED) die("mmap");
  frames.reserve(20100); objs.reserve(1 << 16); objs.push_back(Obj{}); size_t len; char* text = mapFile(ll.c_str(), len); parseModule(text, len); initExpr();
  for (auto* g : globalList) if (g->alias.empty()) { u32 id = newObj(globTop, g->ext ? 16 : g->ty->size, g->align, g->isConst ? 0 : 1); g->addr = objs[id].base; if (globTop > stackTop) die("globals too large"); }
  stackTop = ABASE + (1ull << 32); initGlobals([&](Global* g) { return find(g->addr)->data; });
  if (concreteMode) { FILE* f = fopen(replay.c_str(), "r"); if (!f) die("open %s", replay.c_str()); static char line[1 << 20]; while (fgets(line, sizeof line, f)) { char* sp = strchr(line, ' '); if (!sp) continue; std::string nm(line, sp); std::vector<u8> b; for (char* q = sp + 1; isxdigit((u8)q[0]) && isxdigit((u8)q[1]); q += 2) { char h[3] = {q[0], q[1], 0}; b.push_back(strtoul(h, 0, 16)); } inputs.push_back({nm, b}); } fclose(f); }
  randState = seed * 7919 + 12345; auto it = funcs.find(entry); if (it == funcs.end() || !it->second->defined) die("no entry function %s", entry.c_str());
  double tParse = now() - t0; prctl(PR_SET_CHILD_SUBREAPER, 1); S->live = 1; S->tokens--; pid_t p = fork(); if (p == 0) { solverInit(tmo); pushFrame(it->second, {}, nullptr); setjmp(mainLoop); run(); }
  int bad = 0; char badMsg[128] = ""; while (true) { int st; pid_t w = wait(&st); if (w < 0) { if (errno == EINTR) continue; break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad++; if (bad == 1) snprintf(badMsg, sizeof badMsg, "worker ended abnormally (status 0x%x)", st); S->stop = 1; } }
  double wall = now() - t0; const char* verdict = S->violations ? "violation" : (bad || S->inconclusive) ? "inconclusive" : "holds";
  if (randomMode && !outDir.empty()) { }
  FILE* f = fopen((outDir + "/stats.json").c_str(), "w"); if (!f) die("stats"); std::string msg = S->incMsg[0] ? S->incMsg : badMsg; for (auto& c : msg) if (c == '"' || c == '\\' || (u8)c < 32) c = ' ';
  fprintf(f, "{\"verdict\":\"%s\",\"message\":\"%s\",\"paths\":%llu,\"assume_killed\":%llu,\"panics_allowed\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_seconds\":%.3f,\"max_query_seconds\":%.3f,\"concretizations\":%llu,\"assertions\":%llu,\"assertions_symbolic\":%llu,\"table_reads\":%llu,\"max_alloc\":%llu,\"violations\":%llu,\"parse_seconds\":%.2f,\"wall_seconds\":%.2f,\"reach\":{", verdict, msg.c_str(), (unsigned long long)S->paths, (unsigned long long)S->killed, (unsigned long long)S->panicsAllowed, (unsigned long long)S->forks, (unsigned long long)S->instrs, (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunknown, (unsigned long long)S->cacheHits, S->solverUs / 1e6, S->maxQueryUs / 1e6, (unsigned long long)S->concretizations, (unsigned long long)S->asserts, (unsigned long long)S->assertsSym, (unsigned long long)S->tableReads, (unsigned long long)S->allocBytesMax, (unsigned long long)S->violations, tParse, wall);
  bool first = true; for (int i = 0; i < 256; i++) if (S->reach[i]) { fprintf(f, "%s\"%d\":%llu", first ? "" : ",", i, (unsigned long long)S->reach[i]); first = false; } fprintf(f, "},\"functions\":["); first = true; for (auto* fn : funcList) if (funcSeen[fn->id]) { fprintf(f, "%s\"%s\"", first ? "" : ",", fn->name.c_str()); first = false; } fprintf(f, "],\"dbg\":["); first = true; for (u32 i = 0; i < dbgMax; i++) if (dbgSeen[i]) { fprintf(f, "%s%u", first ? "" : ",", i); first = false; } fprintf(f, "]}\n"); fclose(f);
  if (verbose) fprintf(stderr, "%s: paths %llu killed %llu panics %llu instrs %llu queries %llu (sat %llu unsat %llu unk %llu) solver %.2fs max %.2fs conc %llu asserts %llu/%llu wall %.2fs %s\n", verdict, (unsigned long long)S->paths, (unsigned long long)S->killed, (unsigned long long)S->panicsAllowed, (unsigned long long)S->instrs, (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunknown, S->solverUs / 1e6, S->maxQueryUs / 1e6, (unsigned long long)S->concretizations, (unsigned long long)S->assertsSym, (unsigned long long)S->asserts, wall, msg.c_str());
  return S->violations ? 1 : (bad || S->inconclusive) ? 2 : 0; }
