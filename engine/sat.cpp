#include "sat.hpp"
#include "solver.hpp"
Sat sat; u64 statSatCalls, statSatFallback;
static const u32 NOREASON = ~0u;
int Sat::newVar() { int v = assign.size(); assign.push_back(0); phase.push_back(-1); level.push_back(0); reason.push_back(NOREASON); act.push_back(0); hpos.push_back(-1); seen.push_back(0); relevant.push_back(0); watches.emplace_back(); watches.emplace_back(); return v; }
void Sat::heapUp(int i) { int v = heap[i]; while (i > 0) { int p = (i - 1) >> 1; if (act[heap[p]] >= act[v]) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = v; hpos[v] = i; }
void Sat::heapDown(int i) { int v = heap[i]; int n = heap.size(); while (true) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && act[heap[c + 1]] > act[heap[c]]) c++; if (act[heap[c]] <= act[v]) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = v; hpos[v] = i; }
void Sat::heapInsert(int v) { if (hpos[v] >= 0) return; hpos[v] = heap.size(); heap.push_back(v); heapUp(hpos[v]); }
int Sat::heapPop() { int v = heap[0]; hpos[v] = -1; int l = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = l; hpos[l] = 0; heapDown(0); } return v; }
void Sat::bump(int v) { if ((act[v] += inc) > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) heapUp(hpos[v]); }
void Sat::attach(u32 c) { u32 n = db[c] & 0x7fffffff; (void)n; Lit a = db[c + 2], b = db[c + 3]; watches[a ^ 1].push_back({c, b}); watches[b ^ 1].push_back({c, a}); }
bool Sat::addClause(std::vector<Lit> ls) { // at decision level 0
  if (!okay) return false; std::sort(ls.begin(), ls.end()); std::vector<Lit> o; Lit prev = -1; for (Lit l : ls) { if (val(l) > 0 || l == (prev ^ 1)) return true; if (val(l) < 0 || l == prev) continue; o.push_back(l); prev = l; }
  if (o.empty()) { okay = false; return false; } if (o.size() == 1) { enqueue(o[0], NOREASON); if (propagate() != NOREASON) okay = false; return okay; }
  u32 c = db.size(); db.push_back(o.size()); db.push_back(0); for (Lit l : o) db.push_back(l); attach(c); return true; }
void Sat::enqueue(Lit l, u32 r) { int v = l >> 1; assign[v] = (l & 1) ? -1 : 1; level[v] = trailLim.size(); reason[v] = r; trail.push_back(l); }
u32 Sat::propagate() {
  while (qhead < trail.size()) { Lit p = trail[qhead++]; auto& ws = watches[p]; size_t i = 0, j = 0; props++;
    while (i < ws.size()) { auto w = ws[i++]; if (val(w.second) > 0) { ws[j++] = w; continue; } u32 c = w.first; u32 n = db[c] & 0x7fffffff; Lit* L = (Lit*)&db[c + 2]; Lit fl = p ^ 1; if (L[0] == fl) std::swap(L[0], L[1]); if (val(L[0]) > 0) { ws[j++] = {c, L[0]}; continue; } bool moved = false; for (u32 k = 2; k < n; k++) if (val(L[k]) >= 0) { std::swap(L[1], L[k]); watches[L[1] ^ 1].push_back({c, L[0]}); moved = true; break; } if (moved) continue; ws[j++] = {c, L[0]}; if (val(L[0]) < 0) { while (i < ws.size()) ws[j++] = ws[i++]; ws.resize(j); qhead = trail.size(); return c; } enqueue(L[0], c); }
    ws.resize(j); }
  return NOREASON; }
void Sat::cancel(int lvl) { if ((int)trailLim.size() <= lvl) return; for (int i = trail.size() - 1; i >= trailLim[lvl]; i--) { int v = trail[i] >> 1; phase[v] = assign[v]; assign[v] = 0; reason[v] = NOREASON; if (relevant[v] == relStamp) heapInsert(v); } trail.resize(trailLim[lvl]); trailLim.resize(lvl); qhead = trail.size(); }
void Sat::analyze(u32 c, std::vector<Lit>& out, int& bt) {
  out.assign(1, 0); int cnt = 0; int idx = trail.size() - 1; Lit p = -1; std::vector<int> clear;
  do { u32 n = db[c] & 0x7fffffff; for (u32 k = (p == -1 ? 0 : 1); k < n; k++) { Lit q = db[c + 2 + k]; int v = q >> 1; if (!seen[v] && level[v] > 0) { seen[v] = 1; clear.push_back(v); bump(v); if (level[v] >= (int)trailLim.size()) cnt++; else out.push_back(q); } }
    while (!seen[trail[idx] >> 1]) idx--; p = trail[idx]; idx--; c = reason[p >> 1]; seen[p >> 1] = 0; cnt--; if (cnt > 0) { // make sure p is the first literal of its reason
      Lit* L = (Lit*)&db[c + 2]; u32 n2 = db[c] & 0x7fffffff; if (L[0] != p) { for (u32 k = 1; k < n2; k++) if (L[k] == p) { /* reason clauses keep the implied literal first */ std::swap(L[0], L[k]); break; } } } } while (cnt > 0);
  out[0] = p ^ 1;
  // local minimisation
  size_t j = 1; for (size_t i = 1; i < out.size(); i++) { int v = out[i] >> 1; u32 r = reason[v]; bool red = r != NOREASON; if (red) { u32 n = db[r] & 0x7fffffff; for (u32 k = 0; k < n; k++) { Lit q = db[r + 2 + k]; int u = q >> 1; if (u != v && !seen[u] && level[u] > 0) { red = false; break; } } } if (!red) out[j++] = out[i]; } out.resize(j);
  bt = 0; if (out.size() > 1) { size_t m = 1; for (size_t i = 2; i < out.size(); i++) if (level[out[i] >> 1] > level[out[m] >> 1]) m = i; std::swap(out[1], out[m]); bt = level[out[1] >> 1]; } for (int v : clear) seen[v] = 0; }
void Sat::reduceDB() { std::sort(learnts.begin(), learnts.end(), [&](u32 a, u32 b) { return db[a + 1] < db[b + 1]; }); std::vector<u32> keep; std::set<u32> rm; for (size_t i = 0; i < learnts.size(); i++) { u32 c = learnts[i]; bool locked = reason[((Lit)db[c + 2]) >> 1] == c && val((Lit)db[c + 2]) > 0; if (i < learnts.size() / 2 || locked || (db[c] & 0x7fffffff) <= 2) keep.push_back(c); else rm.insert(c); } for (auto& ws : watches) { size_t j = 0; for (auto& w : ws) if (!rm.count(w.first)) ws[j++] = w; ws.resize(j); } learnts.swap(keep); }
static u64 luby(u64 i) { u64 k = 1; while ((1ull << k) - 1 < i) k++; while ((1ull << k) - 1 != i) { i -= (1ull << (k - 1)) - 1; k = 1; while ((1ull << k) - 1 < i) k++; } return 1ull << (k - 1); }
int Sat::solve(const std::vector<Lit>& as, u64 budget) {
  if (!okay) return 0; cancel(0); heap.clear(); for (size_t v = 0; v < hpos.size(); v++) hpos[v] = -1; for (size_t v = 1; v < assign.size(); v++) if (relevant[v] == relStamp && !assign[v]) heapInsert(v);
  u64 c0 = conflicts, rst = 1, nextR = conflicts + 100 * luby(1); std::vector<Lit> lr;
  while (true) { u32 c = propagate();
    if (c != NOREASON) { conflicts++; if (trailLim.empty()) { okay = false; return 0; } int bt; analyze(c, lr, bt); cancel(bt); if (lr.size() == 1) { cancel(0); if (val(lr[0]) < 0) { okay = false; return 0; } if (!val(lr[0])) enqueue(lr[0], NOREASON); } else { u32 r = db.size(); db.push_back((u32)lr.size()); std::set<int> lv; for (Lit l : lr) lv.insert(level[l >> 1]); db.push_back(lv.size()); for (Lit l : lr) db.push_back(l); learnts.push_back(r); attach(r); enqueue(lr[0], r); } inc /= 0.95; if (conflicts - c0 > budget) { cancel(0); return 2; } }
    else { if (conflicts >= nextR) { cancel(0); nextR = conflicts + 100 * luby(++rst); if (learnts.size() > 4000 + (conflicts / 10)) reduceDB(); continue; }
      Lit next = -1; while (trailLim.size() < as.size()) { Lit a = as[trailLim.size()]; if (val(a) > 0) { trailLim.push_back(trail.size()); continue; } if (val(a) < 0) { cancel(0); return 0; } next = a; break; }
      if (next == -1) { while (!heap.empty()) { int v = heapPop(); if (!assign[v] && relevant[v] == relStamp) { next = 2 * v + (phase[v] < 0); break; } } if (next == -1) return 1; }
      trailLim.push_back(trail.size()); enqueue(next, NOREASON); } } }
// ---------------------------------------------------------------- bit-blasting
static const Lit T = 0, Fz = 1; static bool inited = false; static std::unordered_map<u64, Lit> gAnd, gXor;  static std::map<std::tuple<Lit, Lit, Lit>, Lit> gMux; static std::unordered_map<E, std::vector<Lit>> bl; static std::vector<std::vector<std::pair<int, int>>> dummy;
static void init() { if (inited) return; inited = true; int v = sat.newVar(); sat.addClause({2 * v}); }
static Lit mkA(Lit a, Lit b) { if (a == Fz || b == Fz || a == (b ^ 1)) return Fz; if (a == T || a == b) return b; if (b == T) return a; if (a > b) std::swap(a, b); u64 k = (u64)a << 32 | (u32)b; auto it = gAnd.find(k); if (it != gAnd.end()) return it->second; Lit o = 2 * sat.newVar(); sat.addClause({o ^ 1, a}); sat.addClause({o ^ 1, b}); sat.addClause({o, a ^ 1, b ^ 1}); gAnd[k] = o; return o; }
static Lit mkO(Lit a, Lit b) { return mkA(a ^ 1, b ^ 1) ^ 1; }
static Lit mkX(Lit a, Lit b) { if (a == Fz) return b; if (b == Fz) return a; if (a == T) return b ^ 1; if (b == T) return a ^ 1; if (a == b) return Fz; if (a == (b ^ 1)) return T; Lit s = (a & 1) ^ (b & 1); a &= ~1; b &= ~1; if (a > b) std::swap(a, b); u64 k = (u64)a << 32 | (u32)b; auto it = gXor.find(k); if (it != gXor.end()) return it->second ^ s; Lit o = 2 * sat.newVar(); sat.addClause({o ^ 1, a, b}); sat.addClause({o ^ 1, a ^ 1, b ^ 1}); sat.addClause({o, a ^ 1, b}); sat.addClause({o, a, b ^ 1}); gXor[k] = o; return o ^ s; }
static Lit mkM(Lit c, Lit t, Lit e) { if (c == T) return t; if (c == Fz) return e; if (t == e) return t; if (c & 1) { std::swap(t, e); c ^= 1; } if (t == T) return mkO(c, e); if (t == Fz) return mkA(c ^ 1, e); if (e == T) return mkO(c ^ 1, t); if (e == Fz) return mkA(c, t); if (t == (e ^ 1)) return mkX(c, e); if (t == c) return mkO(c, e); if (t == (c ^ 1)) return mkA(c ^ 1, e); if (e == c) return mkA(c, t); if (e == (c ^ 1)) return mkO(c ^ 1, t); Lit s = 0; if (t & 1) { s = 1; t ^= 1; e ^= 1; } auto k = std::make_tuple(c, t, e); auto it = gMux.find(k); if (it != gMux.end()) return it->second ^ s; Lit o = 2 * sat.newVar(); sat.addClause({o ^ 1, c ^ 1, t}); sat.addClause({o, c ^ 1, t ^ 1}); sat.addClause({o ^ 1, c, e}); sat.addClause({o, c, e ^ 1}); sat.addClause({o ^ 1, t, e}); sat.addClause({o, t ^ 1, e ^ 1}); gMux[k] = o; return o ^ s; }
typedef std::vector<Lit> BV;
static BV bAdd(const BV& a, const BV& b, Lit cin) { BV r(a.size()); Lit c = cin; for (size_t i = 0; i < a.size(); i++) { Lit x = mkX(a[i], b[i]); r[i] = mkX(x, c); if (i + 1 < a.size()) c = mkO(mkA(a[i], b[i]), mkA(x, c)); } return r; }
static BV bNot(BV a) { for (auto& x : a) x ^= 1; return a; }
static Lit bUlt(const BV& a, const BV& b, bool orEq) { Lit r = orEq ? T : Fz; for (size_t i = 0; i < a.size(); i++) r = mkM(mkX(a[i], b[i]), b[i], r); return r; }
static Lit bEq(const BV& a, const BV& b) { Lit r = T; for (size_t i = 0; i < a.size(); i++) r = mkA(r, mkX(a[i], b[i]) ^ 1); return r; }
static BV bMux(Lit c, const BV& a, const BV& b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = mkM(c, a[i], b[i]); return r; }
static BV bMul(const BV& a, const BV& b) { size_t w = a.size(); BV acc(w, Fz); for (size_t i = 0; i < w; i++) { if (b[i] == Fz) continue; BV t(w, Fz); for (size_t j = 0; i + j < w; j++) t[i + j] = mkA(a[j], b[i]); acc = bAdd(acc, t, Fz); } return acc; }
static void bDivRem(const BV& a, const BV& b, BV& q, BV& r) { size_t w = a.size(); q.assign(w, Fz); BV rem(w + 1, Fz); BV be = b; be.push_back(Fz); for (int i = (int)w - 1; i >= 0; i--) { for (size_t k = w; k > 0; k--) rem[k] = rem[k - 1]; rem[0] = a[i]; Lit ge = bUlt(be, rem, true); q[i] = ge; BV sub = bAdd(rem, bNot(be), T); rem = bMux(ge, sub, rem); } r.assign(rem.begin(), rem.begin() + w); }
static BV bNeg(const BV& a) { return bAdd(bNot(a), BV(a.size(), Fz), T); }
static BV shiftv(const BV& a, const BV& s, u8 op) { size_t w = a.size(); BV r = a; Lit fill = op == ASHR ? a.back() : Fz; Lit big = Fz; for (size_t k = 0; k < s.size(); k++) { if ((k >= 31) || (1ull << k) >= w) { big = mkO(big, s[k]); continue; } size_t sh = 1ull << k; BV t(w); for (size_t i = 0; i < w; i++) { if (op == SHL) t[i] = i >= sh ? r[i - sh] : Fz; else t[i] = i + sh < w ? r[i + sh] : fill; } r = bMux(s[k], t, r); } if (big != Fz) r = bMux(big, BV(w, fill), r); return r; }
bool blastable(E e) { std::set<E> st; std::vector<E> s{e}; std::vector<E> visited; while (!s.empty()) { E x = s.back(); s.pop_back(); if (!st.insert(x).second) continue; const Node& n = N[x]; if (n.op >= FADD) return false; if (n.op == CONST || n.op == VAR) continue; if (n.a) s.push_back(n.a); if (n.b && n.op != TABLE) s.push_back(n.b); if (n.c) s.push_back(n.c); } return true; }
static BV blast1(E e) {
  const Node n = N[e]; unsigned w = n.w; BV r; auto B = [&](E x) -> const BV& { return bl[x]; };
  if (n.op >= FADD) { r.resize(w); for (auto& l : r) l = 2 * sat.newVar(); return r; } // abstraction, see checkSat
  switch (n.op) {
    case CONST: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = (n.v >> i & 1) ? T : Fz; return r;
    case VAR: r.resize(8); for (int i = 0; i < 8; i++) r[i] = 2 * sat.newVar(); return r;
    case ADD: return bAdd(B(n.a), B(n.b), Fz); case SUB: return bAdd(B(n.a), bNot(B(n.b)), T); case MUL: { int ca = 0, cb = 0; for (Lit l : B(n.a)) ca += l != Fz; for (Lit l : B(n.b)) cb += l != Fz; return cb <= ca ? bMul(B(n.a), B(n.b)) : bMul(B(n.b), B(n.a)); }
    case UDIV: case UREM: { BV q, m; bDivRem(B(n.a), B(n.b), q, m); return n.op == UDIV ? q : m; }
    case SDIV: case SREM: { BV a = B(n.a), b = B(n.b); Lit sa = a.back(), sb = b.back(); BV ua = bMux(sa, bNeg(a), a), ub = bMux(sb, bNeg(b), b), q, m; bDivRem(ua, ub, q, m); if (n.op == SDIV) { Lit sg = mkX(sa, sb); return bMux(sg, bNeg(q), q); } return bMux(sa, bNeg(m), m); }
    case AND: case OR: case XOR: { const BV &a = B(n.a), &b = B(n.b); r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = n.op == AND ? mkA(a[i], b[i]) : n.op == OR ? mkO(a[i], b[i]) : mkX(a[i], b[i]); return r; }
    case SHL: case LSHR: case ASHR: return shiftv(B(n.a), B(n.b), n.op);
    case EQ: return {bEq(B(n.a), B(n.b))}; case ULT: return {bUlt(B(n.a), B(n.b), false)}; case ULE: return {bUlt(B(n.a), B(n.b), true)};
    case SLT: case SLE: { BV a = B(n.a), b = B(n.b); a.back() ^= 1; b.back() ^= 1; return {bUlt(a, b, n.op == SLE)}; }
    case ITE: return bMux(B(n.a)[0], B(n.b), B(n.c));
    case CONCAT: r = B(n.b); r.insert(r.end(), B(n.a).begin(), B(n.a).end()); return r;
    case EXTRACT: { const BV& a = B(n.a); return BV(a.begin() + (unsigned)n.v, a.begin() + (unsigned)n.v + w); }
    case SEXT: r = B(n.a); { Lit s = r.back(); r.resize(w, s); } return r;
    case TABLE: { const Table& t = tables[n.b]; const BV ix = B(n.a); unsigned bits = 0; while ((1ull << bits) < t.v.size()) bits++; if (bits > ix.size()) bits = ix.size(); u64 cnt = 1ull << bits; std::vector<BV> cur; // reduce on distinct subvectors
      std::vector<u32> id(cnt); std::map<u64, u32> leaf; std::vector<BV> nodes; for (u64 i = 0; i < cnt; i++) { u64 v = i < t.v.size() ? t.v[i] : t.v.back(); auto it = leaf.find(v); if (it == leaf.end()) { BV c(w); for (unsigned k = 0; k < w; k++) c[k] = (v >> k & 1) ? T : Fz; leaf[v] = nodes.size(); id[i] = nodes.size(); nodes.push_back(c); } else id[i] = it->second; }
      for (unsigned b = 0; b < bits; b++) { std::map<std::pair<u32, u32>, u32> m; std::vector<u32> nx(id.size() / 2); for (size_t i = 0; i < nx.size(); i++) { u32 l = id[2 * i], h = id[2 * i + 1]; if (l == h) { nx[i] = l; continue; } auto k = std::make_pair(l, h); auto it = m.find(k); if (it == m.end()) { m[k] = nodes.size(); nx[i] = nodes.size(); nodes.push_back(bMux(ix[b], nodes[h], nodes[l])); } else nx[i] = it->second; } id.swap(nx); }
      return nodes[id[0]]; } }
  fprintf(stderr, "blast: op %d\n", n.op); _Exit(77); }
const std::vector<Lit>& blast(E e) { init(); auto it = bl.find(e); if (it != bl.end()) return it->second; std::vector<std::pair<E, int>> st{{e, 0}}; while (!st.empty()) { E x = st.back().first; if (bl.count(x)) { st.pop_back(); continue; } if (st.back().second == 0) { st.back().second = 1; const Node n = N[x]; if (n.op != CONST && n.op != VAR && n.op < FADD) { if (n.a) st.push_back({n.a, 0}); if (n.b && n.op != TABLE) st.push_back({n.b, 0}); if (n.c) st.push_back({n.c, 0}); } } else { BV r = blast1(x); bl[x] = r; st.pop_back(); } } return bl[e]; }
Lit blastBool(E e) { return blast(e)[0]; }
void markCone(const std::vector<E>& roots) { // relevant decisions: literals of every blasted node in the cone; gate-internal variables follow by propagation or are decided on conflict order
  sat.relStamp++; static std::vector<u32> vis; static u32 stamp = 0; stamp++; if (vis.size() < N.size()) vis.resize(N.size() + 65536, 0); std::vector<E> st(roots); 
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (vis[x] == stamp) continue; vis[x] = stamp; const Node& n = N[x]; if (n.op == CONST) continue; const BV& b = bl[x]; if (n.op == VAR) { u8 mv = (u32)n.v < model.v.size() ? model.v[(u32)n.v] : 0; for (int i = 0; i < 8; i++) { sat.relevant[b[i] >> 1] = sat.relStamp; sat.phase[b[i] >> 1] = (mv >> i & 1) ? 1 : -1; } continue; } for (Lit l : b) if (l > 1) sat.relevant[l >> 1] = sat.relStamp; if (n.op >= FADD) continue; if (n.a) st.push_back(n.a); if (n.b && n.op != TABLE) st.push_back(n.b); if (n.c) st.push_back(n.c); } }

static size_t satMaxVars = getenv("RSYMEX_SATVARS") ? atoi(getenv("RSYMEX_SATVARS")) : 60000;
void blastRollback(u32 oldN, u32 newN) { for (u32 e = newN; e < oldN; e++) bl.erase(e);
  if (sat.assign.size() > satMaxVars || sat.db.size() > 12000000) { sat = Sat(); inited = false; gAnd.clear(); gXor.clear(); gMux.clear(); bl.clear(); } }
