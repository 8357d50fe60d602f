#include "solver.hpp"
#include "sat.hpp"
#include <z3.h>
#include <chrono>
Model model; u32 modelVer = 1; std::vector<E> PC;
u64 statQueries, statQueriesSat, statQueriesUnsat, statQueriesUnknown, statCacheHits; double statSolverTime, statMaxQuery;
static Z3_context ctx; static Z3_solver slv; static std::unordered_map<E, Z3_ast> memo; static unsigned tmo;
static std::unordered_map<u64, Z3_ast> tabMemo; static Z3_sort f32s, f64s; static Z3_ast rne, rtz;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _Exit(77); }
void solverInit(unsigned timeoutMs) {
  tmo = timeoutMs; Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, onErr);
  slv = nullptr; f32s = Z3_mk_fpa_sort_single(ctx); f64s = Z3_mk_fpa_sort_double(ctx); rne = Z3_mk_fpa_round_nearest_ties_to_even(ctx); rtz = Z3_mk_fpa_round_toward_zero(ctx); }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast lower(E e);
static Z3_ast asBool(E e) { return Z3_mk_eq(ctx, lower(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1))); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1))); }
static Z3_ast num(u128 v, unsigned w) { if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, bvs(w)); return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(ctx, (u64)v, bvs(64))); }
static Z3_ast toFP(E e) { return Z3_mk_fpa_to_fp_bv(ctx, lower(e), N[e].w == 32 ? f32s : f64s); }
static Z3_ast fromFP(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }
static Z3_ast lowerTable(E e) {
  const Table& t = tables[N[e].b]; E idx = N[e].a; unsigned iw = N[idx].w; unsigned bits = 0; while ((1ull << bits) < t.v.size()) bits++; if (bits > iw) bits = iw;
  Z3_ast ix = lower(idx);
  // bottom-up reduced decision tree
  std::vector<u64> ids; std::vector<Z3_ast> asts; std::map<u64, u64> leafId; std::vector<u64> cur;
  u64 n = 1ull << bits; cur.resize(n); for (u64 i = 0; i < n; i++) { u64 v = i < t.v.size() ? t.v[i] : t.v.back(); auto it = leafId.find(v); if (it == leafId.end()) { leafId[v] = asts.size(); cur[i] = asts.size(); asts.push_back(num(v, t.w)); } else cur[i] = it->second; }
  for (unsigned b = 0; b < bits; b++) { Z3_ast bit = Z3_mk_eq(ctx, Z3_mk_extract(ctx, b, b, ix), Z3_mk_unsigned_int64(ctx, 1, bvs(1))); std::map<std::pair<u64, u64>, u64> m; std::vector<u64> nx(cur.size() / 2);
    for (size_t i = 0; i < nx.size(); i++) { u64 l = cur[2 * i], h = cur[2 * i + 1]; if (l == h) { nx[i] = l; continue; } auto k = std::make_pair(l, h); auto it = m.find(k); if (it == m.end()) { m[k] = asts.size(); nx[i] = asts.size(); asts.push_back(Z3_mk_ite(ctx, bit, asts[h], asts[l])); } else nx[i] = it->second; } cur.swap(nx); }
  return asts[cur[0]]; }
static Z3_ast lower1(E e) {
  Node n = N[e]; unsigned w = n.w;
  switch (n.op) {
    case CONST: return num(n.v, w);
    case VAR: { char b[32]; snprintf(b, 32, "v%u", (u32)n.v); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), bvs(8)); }
    case ADD: return Z3_mk_bvadd(ctx, lower(n.a), lower(n.b)); case SUB: return Z3_mk_bvsub(ctx, lower(n.a), lower(n.b)); case MUL: return Z3_mk_bvmul(ctx, lower(n.a), lower(n.b));
    case UDIV: return Z3_mk_bvudiv(ctx, lower(n.a), lower(n.b)); case SDIV: return Z3_mk_bvsdiv(ctx, lower(n.a), lower(n.b)); case UREM: return Z3_mk_bvurem(ctx, lower(n.a), lower(n.b)); case SREM: return Z3_mk_bvsrem(ctx, lower(n.a), lower(n.b));
    case AND: return Z3_mk_bvand(ctx, lower(n.a), lower(n.b)); case OR: return Z3_mk_bvor(ctx, lower(n.a), lower(n.b)); case XOR: return Z3_mk_bvxor(ctx, lower(n.a), lower(n.b));
    case SHL: return Z3_mk_bvshl(ctx, lower(n.a), lower(n.b)); case LSHR: return Z3_mk_bvlshr(ctx, lower(n.a), lower(n.b)); case ASHR: return Z3_mk_bvashr(ctx, lower(n.a), lower(n.b));
    case EQ: return b2bv(Z3_mk_eq(ctx, lower(n.a), lower(n.b))); case ULT: return b2bv(Z3_mk_bvult(ctx, lower(n.a), lower(n.b))); case ULE: return b2bv(Z3_mk_bvule(ctx, lower(n.a), lower(n.b))); case SLT: return b2bv(Z3_mk_bvslt(ctx, lower(n.a), lower(n.b))); case SLE: return b2bv(Z3_mk_bvsle(ctx, lower(n.a), lower(n.b)));
    case ITE: return Z3_mk_ite(ctx, asBool(n.a), lower(n.b), lower(n.c));
    case CONCAT: return Z3_mk_concat(ctx, lower(n.a), lower(n.b)); case EXTRACT: return Z3_mk_extract(ctx, (unsigned)n.v + w - 1, (unsigned)n.v, lower(n.a)); case SEXT: return Z3_mk_sign_ext(ctx, w - N[n.a].w, lower(n.a));
    case TABLE: return lowerTable(e);
    case FADD: return fromFP(Z3_mk_fpa_add(ctx, rne, toFP(n.a), toFP(n.b))); case FSUB: return fromFP(Z3_mk_fpa_sub(ctx, rne, toFP(n.a), toFP(n.b))); case FMUL: return fromFP(Z3_mk_fpa_mul(ctx, rne, toFP(n.a), toFP(n.b))); case FDIV: return fromFP(Z3_mk_fpa_div(ctx, rne, toFP(n.a), toFP(n.b)));
    case FSQRT: return fromFP(Z3_mk_fpa_sqrt(ctx, rne, toFP(n.a)));
    case FMA: return fromFP(Z3_mk_fpa_fma(ctx, rne, toFP(n.a), toFP(n.b), toFP(n.c)));
    case FMINNUM: return fromFP(Z3_mk_fpa_min(ctx, toFP(n.a), toFP(n.b))); case FMAXNUM: return fromFP(Z3_mk_fpa_max(ctx, toFP(n.a), toFP(n.b)));
    case FRINT: { Z3_ast rm; switch ((unsigned)n.v) { case 0: rm = Z3_mk_fpa_round_toward_negative(ctx); break; case 1: rm = Z3_mk_fpa_round_toward_positive(ctx); break; case 2: rm = rtz; break; case 3: rm = Z3_mk_fpa_round_nearest_ties_to_away(ctx); break; default: rm = rne; } return fromFP(Z3_mk_fpa_round_to_integral(ctx, rm, toFP(n.a))); }
    case FCMP: { Z3_ast a = toFP(n.a), b = toFP(n.b); Z3_ast un; { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, a), Z3_mk_fpa_is_nan(ctx, b)}; un = Z3_mk_or(ctx, 2, o); } unsigned p = (unsigned)n.v; Z3_ast r; unsigned q = p & 7; bool u = p >= 8;
      switch (q) { case 0: r = Z3_mk_false(ctx); break; case 1: r = Z3_mk_fpa_eq(ctx, a, b); break; case 2: r = Z3_mk_fpa_gt(ctx, a, b); break; case 3: r = Z3_mk_fpa_geq(ctx, a, b); break; case 4: r = Z3_mk_fpa_lt(ctx, a, b); break; case 5: r = Z3_mk_fpa_leq(ctx, a, b); break; case 6: { Z3_ast o[2] = {Z3_mk_fpa_eq(ctx, a, b), un}; r = Z3_mk_not(ctx, Z3_mk_or(ctx, 2, o)); break; } default: r = Z3_mk_not(ctx, un); }
      if (u) { Z3_ast o[2] = {r, un}; r = Z3_mk_or(ctx, 2, o); } return b2bv(r); }
    case FPTOUI: return Z3_mk_fpa_to_ubv(ctx, rtz, toFP(n.a), w); case FPTOSI: return Z3_mk_fpa_to_sbv(ctx, rtz, toFP(n.a), w);
    case FPTOUI_SAT: { Z3_ast a = toFP(n.a); bool f = N[n.a].w == 32; Z3_sort s = f ? f32s : f64s; Z3_ast mx = Z3_mk_fpa_numeral_double(ctx, std::ldexp(1.0, w), s), z = Z3_mk_fpa_numeral_double(ctx, 0.0, s); Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, a), Z3_mk_fpa_leq(ctx, a, z)};
      return Z3_mk_ite(ctx, Z3_mk_or(ctx, 2, o), num(0, w), Z3_mk_ite(ctx, Z3_mk_fpa_geq(ctx, a, mx), num(maskw(w), w), Z3_mk_fpa_to_ubv(ctx, rtz, a, w))); }
    case FPTOSI_SAT: { Z3_ast a = toFP(n.a); bool f = N[n.a].w == 32; Z3_sort s = f ? f32s : f64s; Z3_ast mx = Z3_mk_fpa_numeral_double(ctx, std::ldexp(1.0, w - 1), s), mn = Z3_mk_fpa_numeral_double(ctx, -std::ldexp(1.0, w - 1), s);
      return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, a), num(0, w), Z3_mk_ite(ctx, Z3_mk_fpa_geq(ctx, a, mx), num(maskw(w - 1), w), Z3_mk_ite(ctx, Z3_mk_fpa_leq(ctx, a, mn), num((u128)1 << (w - 1), w), Z3_mk_fpa_to_sbv(ctx, rtz, a, w)))); }
    case UITOFP: return fromFP(Z3_mk_fpa_to_fp_unsigned(ctx, rne, lower(n.a), w == 32 ? f32s : f64s)); case SITOFP: return fromFP(Z3_mk_fpa_to_fp_signed(ctx, rne, lower(n.a), w == 32 ? f32s : f64s));
    case FPEXT: return fromFP(Z3_mk_fpa_to_fp_float(ctx, rne, toFP(n.a), f64s)); case FPTRUNC: return fromFP(Z3_mk_fpa_to_fp_float(ctx, rne, toFP(n.a), f32s));
  }
  fprintf(stderr, "lower: op %d\n", n.op); _Exit(77); }
static Z3_ast lower(E e) { // iterative pre-pass to avoid deep recursion
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  std::vector<std::pair<E, int>> st{{e, 0}};
  while (!st.empty()) { E x = st.back().first; int ph = st.back().second; if (memo.count(x)) { st.pop_back(); continue; } if (ph == 0) { st.back().second = 1; Node n = N[x]; if (n.op != CONST && n.op != VAR) { if (n.a) st.push_back({n.a, 0}); if (n.b && n.op != TABLE) st.push_back({n.b, 0}); if (n.c) st.push_back({n.c, 0}); } } else { memo[x] = lower1(x); st.pop_back(); } }
  return memo[e]; }
static std::vector<u32> stamp; static std::vector<u128> ev;
u128 evalModel(E root) {
  if (isC(root)) return N[root].v; if (stamp.size() < N.size()) { stamp.resize(N.size() + 65536, 0); ev.resize(stamp.size()); }
  if (stamp[root] == modelVer) return ev[root];
  std::vector<E> st{root};
  auto ready = [&](E x) { return isC(x) || stamp[x] == modelVer; }; auto val = [&](E x) -> u128 { return isC(x) ? N[x].v : ev[x]; };
  while (!st.empty()) {
    E e = st.back(); if (ready(e)) { st.pop_back(); continue; } const Node& n = N[e]; u128 r = 0; unsigned w = n.w;
    if (n.op == VAR) { r = (u32)n.v < model.v.size() ? model.v[(u32)n.v] : 0; }
    else if (n.op == ITE) { if (!ready(n.a)) { st.push_back(n.a); continue; } E t = val(n.a) ? n.b : n.c; if (!ready(t)) { st.push_back(t); continue; } r = val(t); }
    else {
      bool ok = true; if (!ready(n.a)) { st.push_back(n.a); ok = false; } if (n.b && n.op != TABLE && !ready(n.b)) { st.push_back(n.b); ok = false; } if (n.c && !ready(n.c)) { st.push_back(n.c); ok = false; } if (!ok) continue;
      u128 a = val(n.a), b = n.b && n.op != TABLE ? val(n.b) : 0; unsigned wa = N[n.a].w;
      switch (n.op) { case CONCAT: r = (a << N[n.b].w) | b; break; case EXTRACT: r = (a >> (unsigned)n.v) & maskw(w); break; case SEXT: r = (u128)sx(a, wa) & maskw(w); break; case TABLE: { const Table& t = tables[n.b]; r = t.v[std::min<u64>((u64)a, t.v.size() - 1)]; break; }
        default: if (n.op >= FADD) r = evalF(n.op, w, wa, a, b, n.c ? val(n.c) : 0, (u32)n.v); else r = constBin(n.op, a, b, wa); } }
    stamp[e] = modelVer; ev[e] = r; st.pop_back(); }
  return ev[root]; }
static std::map<std::vector<E>, std::pair<int, std::vector<std::pair<u32, u8>>>> cache; static std::vector<std::vector<E>> cacheLog;
void solverRollback(u32 oldN, u32 newN) { for (u32 e = newN; e < oldN; e++) { memo.erase(e); } blastRollback(oldN, newN); size_t i = cacheLog.size(); while (i > 0) { i--; if (cacheLog[i].empty()) continue; if (cacheLog[i].back() >= newN) { cache.erase(cacheLog[i]); cacheLog[i].clear(); if (i + 1 == cacheLog.size()) cacheLog.pop_back(); } } if (cacheLog.size() > 4096) { cacheLog.clear(); cache.clear(); } }
void addPC(E c) { if (isC(c)) return; if (N[c].op == AND && N[c].w == 1) { E a = N[c].a, b = N[c].b; addPC(a); addPC(b); return; } for (E x : PC) if (x == c) return; PC.push_back(c); learn(c, 1); }
static std::vector<E> PCorder(const std::vector<E>& sel, E c) { std::vector<E> r; for (E x : sel) if (x != c) r.push_back(x); r.push_back(c); return r; }
bool useSat = true; u64 satBudget = 20000, crossEvery = 0, crossCtr = 0, statCross = 0; static Res satSaid = UNKNOWN; u32 verCounter = 1;
Res checkSat(E c, Model* out) {
  if (isC(c)) { if (!N[c].v) return UNSAT; if (out) *out = model; return SAT; }
  // constraint independence slicing
  std::vector<E> sel{c}; std::vector<char> used(PC.size(), 0); std::vector<u32> todo = varsets[N[c].vs].v; std::set<u32> vars(todo.begin(), todo.end());
  bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < PC.size(); i++) if (!used[i]) { const auto& v = varsets[N[PC[i]].vs].v; bool hit = false; for (u32 x : v) if (vars.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; sel.push_back(PC[i]); for (u32 x : v) vars.insert(x); } } }
  for (E x : sel) if (x != c && mkNot(x) == c) return UNSAT;
  std::sort(sel.begin(), sel.end()); sel.erase(std::unique(sel.begin(), sel.end()), sel.end());
  auto it = cache.find(sel); if (it != cache.end()) { statCacheHits++; if (it->second.first == SAT && out) { *out = model; for (auto& p : it->second.second) { if (out->v.size() <= p.first) out->v.resize(p.first + 1); out->v[p.first] = p.second; } } return (Res)it->second.first; }
  auto t0 = std::chrono::steady_clock::now(); std::vector<E> fps; { std::vector<E> st(sel); std::set<E> seen; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; const Node& n = N[x]; if (n.op >= FADD) { fps.push_back(x); continue; } if (n.op == CONST || n.op == VAR) continue; if (n.a) st.push_back(n.a); if (n.b && n.op != TABLE) st.push_back(n.b); if (n.c) st.push_back(n.c); } }
  // Floating point operations left over are first abstracted: arbitrary results, equal for equal arguments. UNSAT carries over; a model counts only if it satisfies the exact constraints.
  bool fp = !fps.empty(); std::vector<E> cong; if (fp && useSat) { std::sort(fps.begin(), fps.end()); for (E x : fps) fdivLemmas(x, cong); size_t pairs = 0; for (size_t i = 0; i < fps.size() && pairs < 4000; i++) for (size_t j = 0; j < i && pairs < 4000; j++) { const Node x = N[fps[i]], y = N[fps[j]]; if (hasShadow(fps[i]) || hasShadow(fps[j]) || x.op != y.op || x.w != y.w || x.v != y.v || N[x.a].w != N[y.a].w || !x.b != !y.b || !x.c != !y.c) continue; pairs++; E q = mkEq(x.a, y.a); if (x.b) q = mkBin(AND, q, mkEq(x.b, y.b)); if (x.c) q = mkBin(AND, q, mkEq(x.c, y.c)); if (isC(q) && !N[q].v) continue; E k = mkBin(OR, mkNot(q), mkEq(fps[i], fps[j])); if (!isC(k)) cong.push_back(k); } }
  if (useSat) { // own incremental CDCL first
    sat.cancel(0); std::vector<Lit> as; for (E x : PCorder(sel, c)) { Lit l = blastBool(x); if (l == 0) continue; as.push_back(l); } std::vector<E> cone(sel); for (E x : cong) { Lit l = blastBool(x); if (l) as.push_back(l); cone.push_back(x); } markCone(cone); statSatCalls++; int r = sat.solve(as, fp ? satBudget * 10 : satBudget); if (getenv("RSYMEX_FP") && fp) { fprintf(stderr, "FP query: %zu ops, %zu lemmas, sat %d\n", fps.size(), cong.size(), r); for (E x : cong) fprintf(stderr, "   L %s\n", show(x, 5).c_str()); } bool done = false; Res res = UNKNOWN; std::vector<std::pair<u32, u8>> asg;
    if (r == 1) { for (u32 x : vars) { E ve = varNode(x); if (!ve) continue; const auto& b = blast(ve); u8 v = 0; for (int i = 0; i < 8; i++) if (sat.assign[b[i] >> 1] > 0) v |= 1 << i; asg.push_back({x, v}); } sat.cancel(0);
      // validate the model by evaluating the constraints
      Model sv = model; for (auto& q : asg) { if (model.v.size() <= q.first) model.v.resize(q.first + 1); model.v[q.first] = q.second; } modelVer = ++verCounter; bool ok = true; for (E x : sel) if (!evalModel(x)) ok = false; model = sv; modelVer = ++verCounter; if (!ok && !fp) { fprintf(stderr, "rsymex: internal SAT model mismatch\n"); _Exit(79); } if (ok) { res = SAT; done = true; } else { asg.clear(); statSatFallback++; } }
    else if (r == 0) { sat.cancel(0); res = UNSAT; done = true; crossCtr++; if (crossEvery && crossCtr % crossEvery == 0) done = false; }
    else { sat.cancel(0); statSatFallback++; }
    if (done) { static bool all = getenv("RSYMEX_QUERIES"); if (all) fprintf(stderr, "QUERY res %d n=%zu %s\n", res, sel.size(), show(c, 9).substr(0, 700).c_str());
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); statSolverTime += dt; if (dt > statMaxQuery) statMaxQuery = dt; statQueries++; if (res == SAT) statQueriesSat++; else statQueriesUnsat++; if (cache.emplace(sel, std::make_pair((int)res, asg)).second) cacheLog.push_back(sel); if (res == SAT && out) { *out = model; for (auto& q : asg) { if (out->v.size() <= q.first) out->v.resize(q.first + 1); out->v[q.first] = q.second; } } return res; }
    if (res == UNSAT || !fp) satSaid = res; }
  Z3_solver s; { if (!fp) { static Z3_tactic bb = nullptr; if (!bb) { const char* names[] = {"simplify", "propagate-values", "solve-eqs", "bit-blast", "sat"}; Z3_tactic acc = nullptr; for (int i = 4; i >= 0; i--) { Z3_tactic t = Z3_mk_tactic(ctx, names[i]); Z3_tactic_inc_ref(ctx, t); if (!acc) acc = t; else { acc = Z3_tactic_and_then(ctx, t, acc); Z3_tactic_inc_ref(ctx, acc); } } bb = acc; } s = Z3_mk_solver_from_tactic(ctx, bb); } else { Z3_tactic t = Z3_mk_tactic(ctx, fp ? "qffp" : "qfbv"); Z3_tactic_inc_ref(ctx, t); s = Z3_mk_solver_from_tactic(ctx, t); Z3_tactic_dec_ref(ctx, t); } }
  Z3_solver_inc_ref(ctx, s); Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  for (E x : sel) Z3_solver_assert(ctx, s, asBool(x));
  Z3_lbool r = Z3_solver_check(ctx, s); Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN; std::vector<std::pair<u32, u8>> asg;
  if (res == SAT) { Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m); for (u32 x : vars) { Z3_ast v; E ve = varNode(x); u64 val = 0; if (!ve) continue; if (Z3_model_eval(ctx, m, lower(ve), true, &v)) { uint64_t tmp = 0; if (Z3_get_numeral_uint64(ctx, v, &tmp)) val = tmp; } asg.push_back({x, (u8)val}); } Z3_model_dec_ref(ctx, m); }
  Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); statSolverTime += dt; if (dt > statMaxQuery) statMaxQuery = dt; statQueries++; if (res == SAT) statQueriesSat++; else if (res == UNSAT) statQueriesUnsat++; else statQueriesUnknown++;
  if (satSaid == UNSAT) { statCross++; if (res == SAT) { fprintf(stderr, "rsymex: solver disagreement\n"); _Exit(79); } if (res == UNKNOWN) res = UNSAT; satSaid = UNKNOWN; }
  if (dt > 1.0 && getenv("RSYMEX_SLOW")) { fprintf(stderr, "slow %.1fs res %d n=%zu: %s\n", dt, res, sel.size(), show(c, 7).substr(0,1500).c_str()); for (E x : sel) if (x != c) fprintf(stderr, "    pc %s\n", show(x, 6).substr(0,600).c_str()); }
  if (cache.emplace(sel, std::make_pair((int)res, asg)).second) cacheLog.push_back(sel); if (res == SAT && out) { *out = model; for (auto& q : asg) { if (out->v.size() <= q.first) out->v.resize(q.first + 1); out->v[q.first] = q.second; } }
  return res; }
