// Differential self-test of the expression layer: random expression graphs are
// built through the simplifying constructors; every node is evaluated under
// random assignments and compared with a direct evaluation of the operations.
// make -C engine OUT=DIR DIR/selftest && DIR/selftest [seed [graphs]]
#include "expr.hpp"
#include "solver.hpp"
#include <random>
static const int NA = 12;
struct T { E e; u128 v[NA]; unsigned w; bool f; };
void initExpr();
int main(int argc, char** argv) { initExpr();
  u64 seed = argc > 1 ? atoll(argv[1]) : 1; int graphs = argc > 2 ? atoi(argv[2]) : 2000; std::mt19937_64 r(seed); long checked = 0;
  auto rn = [&](u64 n) { return r() % n; };
  ExprMark m0 = exprMark(); static const unsigned W[] = {1, 8, 16, 24, 25, 32, 64}; (void)m0;
  static const float FC[] = {0, -0.0f, 1, -1, 0.5f, 2, 255, 65535, 1.5f, 0.25f, 3, 1e9f, 1.0f / 3, INFINITY, NAN, 1024, -7.75f, 16777216.f, 0.1f};
  for (int g = 0; g < graphs; g++) {
    std::vector<T> ts; u8 vals[NA][8]; for (auto& a : vals) for (auto& b : a) b = rn(3) ? r() : (rn(2) ? 0 : 255); u32 base = rn(4) * 8;
    for (int i = 0; i < 8; i++) { T t{mkVar(base + i), {}, 8, false}; for (int k = 0; k < NA; k++) t.v[k] = vals[k][i]; ts.push_back(t); }
    auto pick = [&](unsigned w, bool f) -> int { for (int k = 0; k < 60; k++) { int i = rn(3) ? ts.size() - 1 - rn(std::min<size_t>(ts.size(), 12)) : rn(ts.size()); bool nan = false; if (!f && ts[i].f) for (auto v : ts[i].v) nan |= std::isnan(bf(v)); if (ts[i].w == w && (!f || ts[i].f) && !nan) return i; } return -1; };
    auto push = [&](E e, unsigned w, bool f, auto fn) { T t{e, {}, w, f}; for (int k = 0; k < NA; k++) t.v[k] = fn(k) & maskw(w); ts.push_back(t); };
    for (int n = 0; n < 40; n++) {
      unsigned w = W[rn(7)]; int op = rn(20); int i = pick(w, false); if (i < 0 && op < 8) continue; int j = op < 8 ? pick(w, false) : -1; if (op < 8 && j < 0) continue; T A = i >= 0 ? ts[i] : T{}, B = j >= 0 ? ts[j] : T{};
      switch (op) {
        case 0: case 1: { static const u8 O[] = {ADD, SUB, MUL, AND, OR, XOR, SHL, LSHR, ASHR}; u8 o = O[rn(9)]; if (o == SHL || o == LSHR || o == ASHR) { u128 c = rn(w); push(mkBin(o, A.e, mkConst(c, w)), w, false, [&](int k) { return constBin(o, A.v[k], c, w); }); } else push(mkBin(o, A.e, B.e), w, false, [&](int k) { return constBin(o, A.v[k], B.v[k], w); }); break; }
        case 2: { static const u8 O[] = {EQ, ULT, ULE, SLT, SLE}; u8 o = O[rn(5)]; push(o == EQ ? mkEq(A.e, B.e) : mkBin(o, A.e, B.e), 1, false, [&](int k) { return constBin(o, A.v[k], B.v[k], w); }); break; }
        case 3: { int c = pick(1, false); if (c < 0) break; T C = ts[c]; push(mkIte(C.e, A.e, B.e), w, A.f && B.f, [&](int k) { return C.v[k] ? A.v[k] : B.v[k]; }); break; }
        case 4: { unsigned w2 = W[rn(7)]; if (w2 > w) { bool s = rn(2); push(s ? mkSext(A.e, w2) : mkZext(A.e, w2), w2, false, [&](int k) { return s ? (u128)sx(A.v[k], w) : A.v[k]; }); } else { unsigned lo = rn(w - w2 + 1); push(mkExtract(A.e, lo, w2), w2, false, [&](int k) { return A.v[k] >> lo; }); } break; }
        case 5: { u128 c = rn(2) ? r() : rn(10); c &= maskw(w); push(mkConst(c, w), w, false, [&](int) { return c; }); break; }
        case 6: if (w <= 32) push(mkConcat(A.e, B.e), w * 2, false, [&](int k) { return A.v[k] << w | B.v[k]; }); break;
        case 7: { int q = pick(rn(2) ? 8 : 16, false); if (q < 0) break; T Q = ts[q]; u8 o = rn(2) ? UITOFP : SITOFP; push(mkIToF(o, Q.e, 32), 32, true, [&](int k) { return evalF(o, 32, Q.w, Q.v[k], 0, 0, 0); }); break; }
        case 8: { int q = pick(W[rn(7)], false); if (q < 0) break; T Q = ts[q]; u8 o = rn(2) ? UITOFP : SITOFP; push(mkIToF(o, Q.e, 32), 32, true, [&](int k) { return evalF(o, 32, Q.w, Q.v[k], 0, 0, 0); }); break; }
        case 9: { float c = rn(2) ? FC[rn(19)] : rn(2) ? (float)(i64)rn(1000) - 300 : std::ldexp((float)rn(256) - 100, (int)rn(12) - 8); push(mkConst(fb(c), 32), 32, true, [&](int) { return fb(c); }); break; }
        case 10: case 11: case 12: case 13: { int a = pick(32, true), b = pick(32, true); if (a < 0 || b < 0) break; T X = ts[a], Y = ts[b]; static const u8 O[] = {FADD, FSUB, FMUL, FADD, FSUB, FMUL, FDIV, FMINNUM, FMAXNUM}; u8 o = O[rn(9)]; push(mkF(o, X.e, Y.e), 32, true, [&](int k) { return evalF(o, 32, 32, X.v[k], Y.v[k], 0, 0); }); break; }
        case 14: { int a = pick(32, true); if (a < 0) break; T X = ts[a]; push(mkFabs(X.e), 32, true, [&](int k) { return X.v[k] & maskw(31); }); break; }
        case 15: case 16: { int a = pick(32, true), b = pick(32, true); if (a < 0 || b < 0) break; T X = ts[a], Y = ts[b]; unsigned p = rn(16); push(mkFcmp(p, X.e, Y.e), 1, false, [&](int k) { return evalF(FCMP, 1, 32, X.v[k], Y.v[k], 0, p); }); break; }
        case 17: { int a = pick(32, true); if (a < 0) break; T X = ts[a]; static const u8 O[] = {FPTOUI_SAT, FPTOSI_SAT}; u8 o = O[rn(2)]; unsigned w2 = W[1 + rn(6)]; if (w2 == 24 || w2 == 25) break; push(mkFPTo(o, X.e, w2), w2, false, [&](int k) { return evalF(o, w2, 32, X.v[k], 0, 0, 0); }); break; }
        case 18: { int a = pick(32, true), b = pick(32, true); if (a < 0 || b < 0) break; T X = ts[a], Y = ts[b]; int c = pick(1, false); if (c < 0) break; T C = ts[c]; push(mkIte(C.e, X.e, Y.e), 32, true, [&](int k) { return C.v[k] ? X.v[k] : Y.v[k]; }); break; }
        case 19: { int a = pick(32, false), b = pick(32, false); if (a < 0 || b < 0) break; T X = ts[a], Y = ts[b]; push(mkEq(X.e, Y.e), 1, false, [&](int k) { return X.v[k] == Y.v[k]; }); break; }
      }
    }
    for (int k = 0; k < NA; k++) {
      model.v.assign(base + 8, 0); for (int i = 0; i < 8; i++) model.v[base + i] = vals[k][i]; modelVer = ++verCounter;
      for (auto& t : ts) { u128 g1 = evalModel(t.e); checked++; bool nan = t.f && std::isnan(bf(g1)) && std::isnan(bf(t.v[k])); if (g1 != t.v[k] && !nan) { printf("MISMATCH seed %llu graph %d w %u f %d got %llx want %llx: %s\n", (unsigned long long)seed, g, t.w, t.f, (unsigned long long)g1, (unsigned long long)t.v[k], show(t.e, 8).c_str()); return 1; } }
    }
    if (g % 8 == 7) exprRollback(m0);
  }
  printf("selftest: %ld evaluations agree\n", checked); }
