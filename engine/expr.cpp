#include "expr.hpp"
std::vector<Node> N; std::deque<Table> tables; std::vector<VarSet> varsets;
static std::map<std::vector<u32>, u32> vsIndex; static std::unordered_map<u64, u32> vsU;
static u32 vs_intern(std::vector<u32> v) { auto it = vsIndex.find(v); if (it != vsIndex.end()) return it->second; u32 id = varsets.size(); varsets.push_back({v}); vsIndex[v] = id; return id; }
u32 vs_union(u32 a, u32 b) {
  if (a == b || b == 0) return a; if (a == 0) return b; if (a > b) std::swap(a, b);
  u64 k = ((u64)a << 32) | b; auto it = vsU.find(k); if (it != vsU.end()) return it->second;
  std::vector<u32> r; std::set_union(varsets[a].v.begin(), varsets[a].v.end(), varsets[b].v.begin(), varsets[b].v.end(), std::back_inserter(r));
  u32 id = vs_intern(r); vsU[k] = id; return id; }
// ---- hash consing
static std::vector<u32> ht; static u32 htMask;
static inline u64 hsh(u8 op, u16 w, E a, E b, E c, u128 v) { u64 h = op * 0x9E3779B97F4A7C15ull ^ ((u64)w << 32); h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 29; h = (h ^ b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31; h = (h ^ c) * 0x9E3779B97F4A7C15ull; h ^= h >> 30; h = (h ^ (u64)v) * 0xff51afd7ed558ccdull; h ^= h >> 32; h = (h ^ (u64)(v >> 64)) * 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29); }
static void grow() { u32 n = ht.size() * 2; ht.assign(n, 0); htMask = n - 1; for (u32 i = 1; i < N.size(); i++) { Node& x = N[i]; u32 p = hsh(x.op, x.w, x.a, x.b, x.c, x.v) & htMask; while (ht[p]) p = (p + 1) & htMask; ht[p] = i; } }
void initExpr() { N.reserve(1 << 20); N.push_back(Node{}); ht.assign(1 << 20, 0); htMask = (1 << 20) - 1; varsets.push_back({}); vsIndex[{}] = 0; }
static void facts(Node& n);
std::vector<E> knownC; // facts implied by the current path condition: expression -> constant
static E raw(u8 op, unsigned w, E a, E b, E c, u128 v) {
  u32 p = hsh(op, w, a, b, c, v) & htMask;
  while (ht[p]) { Node& x = N[ht[p]]; if (x.op == op && x.w == w && x.a == a && x.b == b && x.c == c && x.v == v) return subst(ht[p]); p = (p + 1) & htMask; }
  Node n{}; n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.v = v; facts(n);
  // fully known => const
  if (op != CONST && w <= 64) { if ((n.kz | n.ko) == mask64(w)) return mkConst(n.ko, w); if (n.lo == n.hi) return mkConst(n.lo, w); }
  E id = N.size(); N.push_back(n); ht[p] = id; if (N.size() * 2 > ht.size()) grow(); return id; }
static void facts(Node& n) {
  unsigned w = n.w; u64 m = mask64(w); n.kz = n.ko = 0; n.lo = 0; n.hi = m; n.vs = 0;
  if (n.op == CONST) { n.ko = (u64)n.v; n.kz = ~(u64)n.v & m; n.lo = n.hi = (u64)n.v; if (w > 64) { n.kz = n.ko = 0; n.lo = 0; n.hi = ~0ull; } return; }
  if (n.op == VAR) { n.vs = vs_intern({(u32)n.v}); return; }
  if (n.a && n.op != VAR) n.vs = N[n.a].vs;
  if (n.b && n.op != EXTRACT && n.op != TABLE) n.vs = vs_union(n.vs, N[n.b].vs);
  if (n.c && (n.op == ITE || n.op == FMA)) n.vs = vs_union(n.vs, N[n.c].vs);
  if (w > 64) return;
  const Node *A = n.a ? &N[n.a] : nullptr, *B = (n.b && n.op != EXTRACT && n.op != TABLE) ? &N[n.b] : nullptr;
  switch (n.op) {
    case CONCAT: { n.kz = (A->kz << B->w) | B->kz; n.ko = (A->ko << B->w) | B->ko; n.lo = (A->lo << B->w) | B->lo; n.hi = (A->hi << B->w) | B->hi; break; }
    case EXTRACT: if (A->w <= 64) { u64 l = (u64)n.v; n.kz = (A->kz >> l) & m; n.ko = (A->ko >> l) & m; if (l + w == A->w || (A->hi >> l) <= m) { n.lo = A->lo >> l; n.hi = A->hi >> l; } } break;
    case AND: n.kz = A->kz | B->kz; n.ko = A->ko & B->ko; n.hi = std::min(A->hi, B->hi); break;
    case OR: n.kz = A->kz & B->kz; n.ko = A->ko | B->ko; n.lo = std::max(A->lo, B->lo); break;
    case XOR: n.kz = (A->kz & B->kz) | (A->ko & B->ko); n.ko = (A->kz & B->ko) | (A->ko & B->kz); break;
    case ADD: { u128 h = (u128)A->hi + B->hi; if (h <= m) { n.lo = A->lo + B->lo; n.hi = (u64)h; } else if (((u128)A->lo + B->lo) > m) { n.lo = (A->lo + B->lo) & m; n.hi = (A->hi + B->hi) & m; }
      u64 tz = ~(A->kz & B->kz); n.kz |= tz ? (mask64(__builtin_ctzll(tz))) & m : m; break; }
    case SUB: if (A->lo >= B->hi) { n.lo = A->lo - B->hi; n.hi = A->hi - B->lo; } break;
    case MUL: { u128 h = (u128)A->hi * B->hi; if (h <= m) { n.lo = A->lo * B->lo; n.hi = (u64)h; } u64 ta = ~A->kz, tb = ~B->kz; int za = ta ? __builtin_ctzll(ta) : 64, zb = tb ? __builtin_ctzll(tb) : 64; int z = std::min<int>(w, za + zb); n.kz |= mask64(z) & m; break; }
    case UDIV: if (B->lo > 0) { n.lo = A->lo / B->hi; n.hi = A->hi / B->lo; } break;
    case UREM: if (B->lo > 0) { n.hi = std::min(A->hi, B->hi - 1); } break;
    case LSHR: n.hi = A->hi; if (B->lo < 64) n.hi = A->hi >> B->lo; else n.hi = 0; break;
    case ITE: { const Node* C = &N[n.c]; n.kz = B->kz & C->kz; n.ko = B->ko & C->ko; n.lo = std::min(B->lo, C->lo); n.hi = std::max(B->hi, C->hi); break; }
    case SEXT: if (A->w <= 64) { u64 s = 1ull << (A->w - 1); if (A->kz & s || A->hi < s) { n.kz = A->kz | (m & ~mask64(A->w)); n.ko = A->ko; n.lo = A->lo; n.hi = A->hi; } else if ((A->ko & s) || A->lo >= s) { n.lo = A->lo | (m & ~mask64(A->w)); n.hi = A->hi | (m & ~mask64(A->w)); n.ko = A->ko | (m & ~mask64(A->w)); n.kz = A->kz; } } break;
    case TABLE: { const Table& t = tables[n.b]; u64 k0 = m, k1 = m; n.lo = m; n.hi = 0; for (u64 v : t.v) { k0 &= ~v; k1 &= v; n.lo = std::min(n.lo, v); n.hi = std::max(n.hi, v); } n.kz = k0; n.ko = k1; break; }
    default: break;
  }
  // cross-propagate
  n.hi = std::min(n.hi, m & ~n.kz); n.lo = std::max(n.lo, n.ko);
  if (n.hi < m) { int nb = n.hi ? 64 - __builtin_clzll(n.hi) : 0; n.kz |= m & ~mask64(nb); n.kz &= m; }
}
struct Sh { E i = 0; int s = 0; u64 m = 0; bool nz = false, neg = false; };
static std::vector<Sh> shadows; static Sh shOf(E e); static E withSh(E e, u32 before, Sh r); static bool align(Sh& a, Sh& b);
static bool hasSh(E e) { return e < shadows.size() && shadows[e].i; }
E mkConst(u128 v, unsigned w) { return raw(CONST, w, 0, 0, 0, v & maskw(w)); }
static std::vector<E> varNodes;
E mkVar(u32 id) { E e = raw(VAR, 8, 0, 0, 0, id); if (varNodes.size() <= id) varNodes.resize(id + 1, 0); if (!varNodes[id]) varNodes[id] = e; return e; }
E varNode(u32 id) { return id < varNodes.size() ? varNodes[id] : 0; }
u128 constBin(u8 op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
    case SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(x / y) & m; }
    case SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; return (u128)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b; case ASHR: return (u128)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b; case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
  }
  abort(); }
E mkExtract(E e, unsigned lo, unsigned w) {
  if (w == 1 && lo == 31 && hasSh(e) && N[e].w == 32 && !shadows[e].nz) { const Sh x = shadows[e]; return x.neg ? mkBin(SLT, x.i, mkConst(0, 32)) : mkConst(0, 1); } // sign
  for (;;) {
    Node n = N[e]; if (lo == 0 && w == n.w) return e;
    switch (n.op) {
      case CONST: return mkConst(n.v >> lo, w);
      case EXTRACT: lo += (unsigned)n.v; e = n.a; continue;
      case CONCAT: { unsigned bw = N[n.b].w; if (lo >= bw) { e = n.a; lo -= bw; continue; } if (lo + w <= bw) { e = n.b; continue; }
        return mkConcat(mkExtract(n.a, 0, lo + w - bw), mkExtract(n.b, lo, bw - lo)); }
      case SEXT: { unsigned aw = N[n.a].w; if (lo + w <= aw) { e = n.a; continue; } if (lo == 0) return mkSext(n.a, w); if (lo >= aw - 1) { return mkSext(mkExtract(n.a, aw - 1, 1), w); } return mkSext(mkExtract(n.a, lo, aw - lo), w); }
      case ITE: if (isC(n.b) || isC(n.c) ) return mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w)); break;
      case XOR: case AND: case OR: if (isC(n.b)) return mkBin(n.op, mkExtract(n.a, lo, w), mkExtract(n.b, lo, w)); break;
      case TABLE: { Table t; t.w = w; for (u64 v : tables[n.b].v) t.v.push_back((v >> lo) & mask64(w)); E r = mkTable(internTable(t), n.a); if (isC(r)) return r; break; }
      default: break;
    }
    break;
  }
  return raw(EXTRACT, w, e, 0, 0, lo); }
static bool tryMerge(E h, E l, E& out) { // concat(h,l) into one simpler
  const Node &H = N[h], &L = N[l];
  if (H.op == CONST && L.op == CONST && H.w + L.w <= 128) { out = mkConst((H.v << L.w) | L.v, H.w + L.w); return true; }
  if (H.op == EXTRACT && L.op == EXTRACT && H.a == L.a && (unsigned)H.v == (unsigned)L.v + L.w) { out = mkExtract(H.a, (unsigned)L.v, H.w + L.w); return true; }
  if (H.op == EXTRACT && H.a == l && (unsigned)H.v == L.w && L.op != EXTRACT) { /* impossible: extract beyond */ }
  if (H.op == ITE && L.op == ITE && H.a == L.a && H.w + L.w <= 128) { E c = H.a, b1 = H.b, b2 = L.b, c1 = H.c, c2 = L.c; E x = mkConcat(b1, b2), y = mkConcat(c1, c2); out = mkIte(c, x, y); return true; }
  if ((H.op == XOR) && L.op == H.op && isC(H.b) && isC(L.b)) { E hb = H.b, lb = L.b, m; E ha = H.a, la = L.a; u8 op = H.op; if (tryMerge(ha, la, m)) { out = mkBin(op, m, mkConcat(hb, lb)); return true; } }
  if (H.op == EXTRACT && N[H.a].op == SEXT) { // top bits of sext over its own source
    E src = N[H.a].a; if (src == l && (unsigned)H.v == N[src].w) { out = mkExtract(H.a, 0, (unsigned)H.v + H.w); return true; } }
  if (H.op == SEXT && N[H.a].w == 1 && N[H.a].op == EXTRACT) { // replicate of sign bit of l
    const Node& s = N[H.a]; if (L.op == EXTRACT ? (s.a == L.a && (unsigned)s.v == (unsigned)L.v + L.w - 1) : (s.a == l && (unsigned)s.v == (unsigned)L.w - 1)) { out = mkSext(l, H.w + L.w); return true; } }
  return false; }
E mkConcat(E hi, E lo) {
  if (N[hi].op == CONCAT) { E h1 = N[hi].a, h2 = N[hi].b; return mkConcat(h1, mkConcat(h2, lo)); }
  E m; if (tryMerge(hi, lo, m)) return m;
  if (N[lo].op == CONCAT) { E l1 = N[lo].a, l2 = N[lo].b; if (tryMerge(hi, l1, m)) return mkConcat(m, l2); }
  return raw(CONCAT, N[hi].w + N[lo].w, hi, lo, 0, 0); }
E mkZext(E e, unsigned w) { unsigned ew = N[e].w; if (ew == w) return e; return mkConcat(mkConst(0, w - ew), e); }
E mkSext(E e, unsigned w) { Node n = N[e]; if (n.w == w) return e; if (n.op == CONST) return mkConst((u128)sx(n.v, n.w), w); if (n.op == SEXT) return mkSext(n.a, w);
  if (n.w <= 64 && (n.kz >> (n.w - 1) & 1)) return mkZext(e, w);
  return raw(SEXT, w, e, 0, 0, 0); }
E mkTrunc(E e, unsigned w) { Node n = N[e]; if (n.w == w) return e;
  return mkExtract(e, 0, w); }
static void pieces(E e, std::vector<E>& out) { // low to high
  std::vector<E> st{e}; std::vector<E> r; while (N[e].op == CONCAT) { r.push_back(N[e].a); e = N[e].b; } out.push_back(e); for (auto it = r.rbegin(); it != r.rend(); ++it) out.push_back(*it); }
static E fromPieces(const std::vector<E>& p) { E r = p[0]; for (size_t i = 1; i < p.size(); i++) r = mkConcat(p[i], r); return r; }
static int runs(u128 v, unsigned w) { int r = 1; for (unsigned i = 1; i < w; i++) if (((v >> i) ^ (v >> (i - 1))) & 1) r++; return r; }
static E bitwise(u8 op, E a, E b) {
  unsigned w = N[a].w; if (isC(a)) std::swap(a, b);
  if (isC(a)) return mkConst(constBin(op, N[a].v, N[b].v, w), w);
  if (a == b) return op == XOR ? mkConst(0, w) : a;
  if (isC(b)) { u128 v = N[b].v;
    if (v == 0) return op == AND ? b : a;
    if (v == maskw(w)) { if (op == AND) return a; if (op == OR) return b; }
    if (op != XOR && runs(v, w) <= 8) { std::vector<E> p; unsigned i = 0; while (i < w) { unsigned j = i; unsigned bit = (v >> i) & 1; while (j < w && ((v >> j) & 1) == bit) j++; E x; if (op == AND) x = bit ? mkExtract(a, i, j - i) : mkConst(0, j - i); else x = bit ? mkConst(maskw(j - i), j - i) : mkExtract(a, i, j - i); p.push_back(x); i = j; } return fromPieces(p); }
    if (op == XOR && N[a].op == XOR && isC(N[a].b)) return bitwise(XOR, N[a].a, mkConst(N[N[a].b].v ^ v, w));
    if (w == 1 && op == XOR) return mkNot(a);
    if (N[a].op == ITE && (isC(N[a].b) || isC(N[a].c))) { Node n = N[a]; return mkIte(n.a, bitwise(op, n.b, b), bitwise(op, n.c, b)); }
    if (op==XOR && N[a].op == CONCAT) { std::vector<E> p, q; pieces(a, p); unsigned i = 0; for (E x : p) { unsigned pw = N[x].w; q.push_back(bitwise(op, x, mkConst(v >> i, pw))); i += pw; } return fromPieces(q); }
    return raw(op, w, a, b, 0, 0);
  }
  if (w == 1) { if (mkNot(a) == b) return op == AND ? mkConst(0, 1) : mkConst(1, 1); 
    // absorb duplicates: and(and(x,y),x)
    if (op != XOR && N[a].op == op && (N[a].a == b || N[a].b == b)) return a; if (op != XOR && N[b].op == op && (N[b].a == a || N[b].b == a)) return b; }
  if (N[a].op == CONCAT || N[b].op == CONCAT) {
    std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb); bool anyC = false; for (E x : pa) anyC |= isC(x); for (E x : pb) anyC |= isC(x);
    if (anyC) { std::vector<E> out; size_t i = 0, j = 0; unsigned oa = 0, ob = 0; while (i < pa.size()) { unsigned ra = N[pa[i]].w - oa, rb = N[pb[j]].w - ob, t = std::min(ra, rb); out.push_back(bitwise(op, mkExtract(pa[i], oa, t), mkExtract(pb[j], ob, t))); oa += t; ob += t; if (oa == N[pa[i]].w) { i++; oa = 0; } if (ob == N[pb[j]].w) { j++; ob = 0; } } return fromPieces(out); }
  }
  // zero-extended sign masks, known bits: and where one side's unknown region is zero handled by facts
  if (op == OR && w <= 64 && (N[a].kz | N[b].kz) == mask64(w)) { /* disjoint */
  }
  if (a > b) std::swap(a, b);
  return raw(op, w, a, b, 0, 0); }
E mkNot(E c) { Node n = N[c]; if (n.op == CONST) return mkConst(n.v ^ maskw(n.w), n.w); if (n.w != 1) return mkBin(XOR, c, mkConst(maskw(n.w), n.w));
  if (n.op == XOR && isC(n.b, 1)) return n.a;
  if (n.op == ULT) return mkBin(ULE, n.b, n.a); if (n.op == ULE) return mkBin(ULT, n.b, n.a); if (n.op == SLT) return mkBin(SLE, n.b, n.a); if (n.op == SLE) return mkBin(SLT, n.b, n.a);
  if (n.op == EQ && N[n.a].w == 1 && isC(n.b)) return mkEq(n.a, mkConst(N[n.b].v ^ 1, 1));
  return raw(XOR, 1, c, mkConst(1, 1), 0, 0); }
E mkAnd1(E a, E b) { return mkBin(AND, a, b); } E mkOr1(E a, E b) { return mkBin(OR, a, b); }
static E mkEq0(E a, E b); static void eqNote(E r);
static std::unordered_map<E, std::pair<E, u128>> eqMeaning;
E mkEq(E a, E b) { if (isC(a)) std::swap(a, b); E r = mkEq0(a, b); if (!isC(r) && isC(b) && !isC(a) && N[r].op != EQ) if (eqMeaning.emplace(r, std::make_pair(a, N[b].v)).second) eqNote(r); return r; }
static E mkEq0(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (N[a].w == 32 && (hasSh(a) || hasSh(b))) { Sh x = shOf(a), y = shOf(b); if (x.i && y.i && !x.nz && !y.nz && align(x, y)) return mkEq(x.i, y.i); } if (isC(a)) std::swap(a, b); unsigned w = N[a].w;
  if (isC(a) && isC(b)) return mkConst(N[a].v == N[b].v, 1);
  Node A = N[a], B = N[b];
  if (w <= 64) { if (A.hi < B.lo || B.hi < A.lo) return mkConst(0, 1); if ((A.kz & B.ko) | (A.ko & B.kz)) return mkConst(0, 1); }
  if (B.op == CONST) {
    if (w == 1) return B.v ? a : mkNot(a);
    if (A.op == CONCAT) { unsigned lw = N[A.b].w; E x = mkEq(A.a, mkConst(B.v >> lw, N[A.a].w)); if (isC(x, 0)) return x; E y = mkEq(A.b, mkConst(B.v, lw)); return mkBin(AND, x, y); }
    if (A.op == ITE && (isC(A.b) || isC(A.c))) { E x = mkEq(A.b, b), y = mkEq(A.c, b); return mkIte(A.a, x, y); }
    if (A.op == ADD && isC(A.b)) return mkEq(A.a, mkConst(B.v - N[A.b].v, w));
    if (A.op == XOR && isC(A.b)) return mkEq(A.a, mkConst(B.v ^ N[A.b].v, w));
    if (A.op == SUB && B.v == 0) return mkEq(A.a, A.b);
    if (A.op == XOR && B.v == 0) return mkEq(A.a, A.b);
    if (A.op == SEXT) { unsigned aw = N[A.a].w; if ((u128)sx(B.v & maskw(aw), aw) == (u128)sx(B.v, w)) return mkEq(A.a, mkConst(B.v, aw)); return mkConst(0, 1); }
    if (A.op == OR && B.v == 0) return mkBin(AND, mkEq(A.a, b), mkEq(A.b, b));
    if (A.op == TABLE) { Table t; t.w = 1; for (u64 v : tables[A.b].v) t.v.push_back(v == (u64)B.v); return mkTable(internTable(t), A.a); }
  } else if (A.op == CONCAT && B.op == CONCAT) {
    std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb); E r = mkConst(1, 1); size_t i = 0, j = 0; unsigned oa = 0, ob = 0; while (i < pa.size()) { unsigned t = std::min(N[pa[i]].w - oa, N[pb[j]].w - ob); r = mkBin(AND, r, mkEq(mkExtract(pa[i], oa, t), mkExtract(pb[j], ob, t))); if (isC(r, 0)) return r; oa += t; ob += t; if (oa == N[pa[i]].w) { i++; oa = 0; } if (ob == N[pb[j]].w) { j++; ob = 0; } } return r; }
  if (w == 1 && !isC(b)) return mkNot(mkBin(XOR, a, b));
  if (!isC(b) && a > b) std::swap(a, b);
  return raw(EQ, 1, a, b, 0, 0); }
static E cmp(u8 op, E a, E b) {
  unsigned w = N[a].w; Node A = N[a], B = N[b];
  if (A.op == CONST && B.op == CONST) return mkConst(constBin(op, A.v, B.v, w), 1);
  if (a == b) return mkConst(op == ULE || op == SLE, 1);
  if (w <= 64) {
    if (op == ULT) { if (A.hi < B.lo) return mkConst(1, 1); if (A.lo >= B.hi) return mkConst(0, 1); }
    if (op == ULE) { if (A.hi <= B.lo) return mkConst(1, 1); if (A.lo > B.hi) return mkConst(0, 1); }
    if (op == SLT || op == SLE) { u64 s = 1ull << (w - 1); bool ap = A.hi < s, an = A.lo >= s, bp = B.hi < s, bn = B.lo >= s; if (ap && bn) return mkConst(0, 1); if (an && bp) return mkConst(1, 1); if ((ap && bp) || (an && bn)) return cmp(op == SLT ? ULT : ULE, a, b); }
  }
  if (op == ULT && isC(b, 1)) return mkEq(a, mkConst(0, w)); if (op == ULE && isC(b, 0)) return mkEq(a, b);
  if (op == ULT && isC(a, 0)) return mkNot(mkEq(b, a));
  if (op == ULE && isC(a) && A.v > 0) return cmp(ULT, mkConst(A.v - 1, w), b);  // canonical: a<=b -> a-1<b
  if (op == ULE && isC(b)) { if (B.v == maskw(w)) return mkConst(1, 1); return cmp(ULT, a, mkConst(B.v + 1, w)); }
  if (op == SLT && isC(b, 0)) return mkExtract(a, w - 1, 1);
  if (op == SLE && isC(a, 0)) return mkNot(mkExtract(b, w - 1, 1));
  if (op == SLT && isC(a, maskw(w))) return mkNot(mkExtract(b, w - 1, 1));
  if (op == SLE && isC(b, maskw(w))) return mkExtract(a, w - 1, 1);
  if (op == ULT || op == ULE) {
    if (A.op == CONCAT && isC(A.a) && (B.op == CONST || (B.op == CONCAT && isC(B.a)))) { unsigned wa = w - N[A.a].w; unsigned wb = B.op == CONST ? wa : w - N[B.a].w; unsigned nw = std::max(wa, wb); if (nw < w) { E x = mkExtract(a, nw, w - nw), y = mkExtract(b, nw, w - nw); if (isC(x) && isC(y) && N[x].v == N[y].v) return cmp(op, mkExtract(a, 0, nw), mkExtract(b, 0, nw)); } }
    if (A.op == CONST && B.op == CONCAT && isC(B.a)) { unsigned nw = w - N[B.a].w; E x = mkExtract(a, nw, w - nw); if (isC(x) && N[x].v == N[B.a].v) return cmp(op, mkExtract(a, 0, nw), mkExtract(b, 0, nw)); }
    if (op == ULT && B.op == CONST && A.op == CONCAT) { // compare against power-of-two boundary: x < 2^k
      u128 v = B.v; if ((v & (v - 1)) == 0) { unsigned k = 0; while (((u128)1 << k) != v) k++; return mkEq(mkExtract(a, k, w - k), mkConst(0, w - k)); } }
  }
  if (A.op == ITE && B.op == CONST && (isC(A.b) || isC(A.c))) return mkIte(A.a, cmp(op, A.b, b), cmp(op, A.c, b));
  if (B.op == ITE && A.op == CONST && (isC(B.b) || isC(B.c))) return mkIte(B.a, cmp(op, a, B.b), cmp(op, a, B.c));
  if (A.op == TABLE && B.op == CONST) { Table t; t.w = 1; for (u64 v : tables[A.b].v) t.v.push_back((u64)constBin(op, v, B.v, w)); return mkTable(internTable(t), A.a); }
  return raw(op, 1, a, b, 0, 0); }
E mkBin(u8 op, E a, E b) {
  unsigned w = N[a].w; if (N[b].w != w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, w, N[b].w); abort(); }
  if (op == EQ) return mkEq(a, b); if (op >= ULT && op <= SLE) return cmp(op, a, b); if (op == AND || op == OR || op == XOR) return bitwise(op, a, b);
  if (isC(a) && isC(b)) return mkConst(constBin(op, N[a].v, N[b].v, w), w);
  switch (op) {
    case ADD: { if (isC(a)) std::swap(a, b); if (w == 1) return bitwise(XOR, a, b);
      if (isC(b)) { u128 v = N[b].v; if (!v) return a; Node A = N[a]; if (A.op == ADD && isC(A.b)) return mkBin(ADD, A.a, mkConst(N[A.b].v + v, w)); if (A.op == SUB && isC(A.a)) return mkBin(SUB, mkConst(N[A.a].v + v, w), A.b);
        if (A.op == ITE && (isC(A.b) || isC(A.c))) return mkIte(A.a, mkBin(ADD, A.b, b), mkBin(ADD, A.c, b));
        if (w <= 64 && (A.kz & (u64)v) == (u64)v) return bitwise(OR, a, b); 
        return raw(ADD, w, a, b, 0, 0); }
      if (w <= 64 && (N[a].kz | N[b].kz) == mask64(w)) return bitwise(OR, a, b);
      Node A = N[a], B = N[b]; if (A.op == SUB && A.b == b) return A.a; if (B.op == SUB && B.b == a) return B.a;
      if (A.op == ADD && isC(A.b)) return mkBin(ADD, mkBin(ADD, A.a, b), A.b); if (B.op == ADD && isC(B.b)) return mkBin(ADD, mkBin(ADD, a, B.a), B.b);
      if (a == b) return mkBin(SHL, a, mkConst(1, w));
      if (a > b) std::swap(a, b); return raw(ADD, w, a, b, 0, 0); }
    case SUB: { if (a == b) return mkConst(0, w); if (w == 1) return bitwise(XOR, a, b); if (isC(b)) return mkBin(ADD, a, mkConst((u128)0 - N[b].v, w));
      Node A = N[a], B = N[b]; if (A.op == ADD && A.a == b) return A.b; if (A.op == ADD && A.b == b) return A.a; if (B.op == SUB && B.a == a) return B.b;
      if (A.op == ADD && isC(A.b)) return mkBin(ADD, mkBin(SUB, A.a, b), A.b);
      if (B.op == ADD && isC(B.b)) return mkBin(ADD, mkBin(SUB, a, B.a), mkConst((u128)0 - N[B.b].v, w));
      if (isC(a) && B.op == ITE && (isC(B.b) || isC(B.c))) return mkIte(B.a, mkBin(SUB, a, B.b), mkBin(SUB, a, B.c));
      return raw(SUB, w, a, b, 0, 0); }
    case MUL: { if (isC(a)) std::swap(a, b); if (w == 1) return bitwise(AND, a, b); if (isC(b)) { u128 v = N[b].v; if (!v) return b; if (v == 1) return a; if ((v & (v - 1)) == 0) { unsigned k = 0; while (((u128)1 << k) != v) k++; return mkBin(SHL, a, mkConst(k, w)); }
        Node A = N[a]; if (A.op == ITE && (isC(A.b) || isC(A.c))) return mkIte(A.a, mkBin(MUL, A.b, b), mkBin(MUL, A.c, b)); if (A.op == MUL && isC(A.b)) return mkBin(MUL, A.a, mkConst(N[A.b].v * v, w)); }
      else if (a > b) std::swap(a, b); return raw(MUL, w, a, b, 0, 0); }
    case UDIV: if (isC(b)) { u128 v = N[b].v; if (v == 1) return a; if (v && (v & (v - 1)) == 0) { unsigned k = 0; while (((u128)1 << k) != v) k++; return mkBin(LSHR, a, mkConst(k, w)); } } return raw(UDIV, w, a, b, 0, 0);
    case UREM: if (isC(b)) { u128 v = N[b].v; if (v == 1) return mkConst(0, w); if (v && (v & (v - 1)) == 0) return bitwise(AND, a, mkConst(v - 1, w)); if (w <= 64 && N[a].hi < v) return a; } return raw(UREM, w, a, b, 0, 0);
    case SHL: if (isC(b)) { u128 k = N[b].v; if (k >= w) return mkConst(0, w); if (!k) return a; return mkConcat(mkExtract(a, 0, w - (unsigned)k), mkConst(0, (unsigned)k)); } break;
    case LSHR: if (isC(b)) { u128 k = N[b].v; if (k >= w) return mkConst(0, w); if (!k) return a; return mkZext(mkExtract(a, (unsigned)k, w - (unsigned)k), w); } break;
    case ASHR: if (isC(b)) { u128 k = N[b].v; if (k >= w) k = w - 1; if (!k) return a; return mkSext(mkExtract(a, (unsigned)k, w - (unsigned)k), w); } if (w <= 64 && (N[a].kz >> (w - 1) & 1)) return mkBin(LSHR, a, b); break;
    default: break;
  }
  if ((op == SHL || op == LSHR || op == ASHR) && isC(a, 0)) return a;
  if (op == SDIV || op == SREM) if (w <= 64 && (N[a].kz >> (w - 1) & 1) && (N[b].kz >> (w - 1) & 1)) return mkBin(op == SDIV ? UDIV : UREM, a, b);
  // shift amount as small ITE of constants
  if ((op == SHL || op == LSHR || op == ASHR) && N[b].op == ITE && isC(N[b].b) && isC(N[b].c)) { Node B = N[b]; return mkIte(B.a, mkBin(op, a, B.b), mkBin(op, a, B.c)); }
  return raw(op, w, a, b, 0, 0); }
E mkIte(E c, E a, E b) {
  if (isC(c)) return N[c].v ? a : b; if (a == b) return a; unsigned w = N[a].w;
  if (N[c].op == XOR && isC(N[c].b, 1)) return mkIte(N[c].a, b, a);
  if (w == 1) { if (isC(a) && isC(b)) return N[a].v ? c : mkNot(c); if (isC(a)) return N[a].v ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b); if (isC(b)) return N[b].v ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a); }
  if (N[a].op == ITE && N[a].a == c) a = N[a].b; if (N[b].op == ITE && N[b].a == c) b = N[b].c; if (a == b) return a;
  if (w == 32 && (hasSh(a) || hasSh(b))) { Sh x = shOf(a), y = shOf(b), r{}; if (x.i && y.i && align(x, y)) { r = {mkIte(c, x.i, y.i), x.s, std::max(x.m, y.m), x.nz || y.nz, x.neg || y.neg}; } u32 before = N.size(); return withSh(raw(ITE, w, c, a, b, 0), before, r); }
  return raw(ITE, w, c, a, b, 0); }
static std::map<std::pair<std::vector<u64>, u16>, u32> tabIndex;
u32 internTable(Table t) { auto k = std::make_pair(t.v, t.w); auto it = tabIndex.find(k); if (it != tabIndex.end()) return it->second; u32 id = tables.size(); tables.push_back(t); tabIndex[k] = id; return id; }
static std::unordered_map<E, std::vector<std::pair<u32, u64>>> idxFacts; static std::vector<E> idxLog;
E mkTable(u32 tid, E idx) { const Table& t = tables[tid]; Node I = N[idx]; if (I.op == CONST) return mkConst(t.v[std::min<u64>((u64)I.v, t.v.size() - 1)], t.w);
  bool same = true; for (u64 i = I.lo; i <= I.hi && i < t.v.size(); i++) { if ((i & I.kz) || (~i & I.ko)) continue; if (t.v[i] != t.v[std::min<u64>(I.lo, t.v.size() - 1)]) { same = false; break; } } 
  // find first admissible for same-check
  if (same) { return mkConst(t.v[std::min<u64>(I.lo, t.v.size() - 1)], t.w); }
  { bool have = false; u64 first = 0; bool eq = true; for (u64 i = 0; i < t.v.size(); i++) { if (i < I.lo || i > I.hi || (i & I.kz) || (I.ko & ~i)) continue; if (!have) { have = true; first = t.v[i]; } else if (t.v[i] != first) { eq = false; break; } } if (have && eq) return mkConst(first, t.w); }
  // reduce by known constant bits of index (concat with constants): build subtable
  if (I.op == CONCAT || I.kz || I.ko) { u64 unk = mask64(I.w) & ~(I.kz | I.ko); int cu = __builtin_popcountll(unk); if (cu < I.w) {
      // gather unknown bits as new index (low to high), contiguous pieces
      std::vector<E> p; unsigned i = 0; while (i < I.w) { if (!(unk >> i & 1)) { i++; continue; } unsigned j = i; while (j < I.w && (unk >> j & 1)) j++; p.push_back(mkExtract(idx, i, j - i)); i = j; }
      if (!p.empty()) { E ni = p[0]; for (size_t q = 1; q < p.size(); q++) ni = mkConcat(p[q], ni); Table s; s.w = t.w; bool ok = cu <= 20; if (ok) { for (u64 q = 0; q < (1ull << cu); q++) { u64 v = I.ko; int b = 0; for (unsigned k = 0; k < I.w; k++) if (unk >> k & 1) { if (q >> b & 1) v |= 1ull << k; b++; } s.v.push_back(v < t.v.size() ? t.v[v] : t.v.back()); } u32 nt = internTable(s); if (N[ni].w < I.w) return mkTable(nt, ni); } } } }
  // drop low bits that do not matter
  { unsigned k = 0; size_t n = t.v.size(); while (k + 1 < I.w) { size_t blk = (size_t)1 << (k + 1); bool ok = true; for (size_t i = 0; i < n && ok; i += blk) for (size_t j = i; j < std::min(n, i + blk); j++) if (t.v[j] != t.v[i]) { ok = false; break; } if (!ok) break; k++; }
    if (k) { Table s; s.w = t.w; for (size_t i = 0; i < n; i += (size_t)1 << k) s.v.push_back(t.v[i]); return mkTable(internTable(s), mkExtract(idx, k, I.w - k)); } }
  // identity / affine table
  { bool id = true; for (size_t i = 0; i < t.v.size(); i++) if (t.v[i] != (i & mask64(t.w))) { id = false; break; } if (id && I.hi < t.v.size()) return t.w >= I.w ? mkZext(idx, t.w) : mkTrunc(idx, t.w); }
  if (t.v.size() >= 8 && t.v.size() == (1ull << std::min<unsigned>(I.w, 40)) && t.w >= I.w) { // affine pieces: t[i] = t0 + i on the whole range or on each half
    auto aff = [&](size_t lo, size_t hi) { for (size_t i = lo + 1; i < hi; i++) if (((t.v[i] - t.v[i - 1]) & mask64(t.w)) != 1) return false; return true; }; size_t n = t.v.size();
    if (aff(0, n)) { u64 b = t.v[0]; unsigned tw = t.w; return mkBin(ADD, mkZext(idx, tw), mkConst(b & mask64(tw), tw)); }
    if (n >= 8 && aff(0, n / 2) && aff(n / 2, n)) { u64 b0 = t.v[0], b1 = t.v[n / 2]; unsigned tw = t.w; E low = mkExtract(idx, 0, I.w - 1); return mkIte(mkExtract(idx, I.w - 1, 1), mkBin(ADD, mkZext(low, tw), mkConst(b1 & mask64(tw), tw)), mkBin(ADD, mkZext(low, tw), mkConst(b0 & mask64(tw), tw))); } }
  if (I.op == ITE && isC(I.b) && isC(I.c)) { return mkIte(I.a, mkTable(tid, I.b), mkTable(tid, I.c)); }
  if (I.op == TABLE) { Table s; s.w = t.w; for (u64 v : tables[I.b].v) s.v.push_back(t.v[std::min<u64>(v, t.v.size() - 1)]); return mkTable(internTable(s), I.a); }
  { // facts learned about the index (ranges, other table reads of it) may leave one value only
    E base = idx; unsigned sh = 0; u64 im = mask64(I.w); if (I.op == EXTRACT && N[I.a].w <= 18) { base = I.a; sh = (unsigned)I.v; }
    const Node& Bn = N[base]; if (Bn.w <= 18) { auto it = idxFacts.find(base); const std::vector<std::pair<u32, u64>>* fs = it == idxFacts.end() ? nullptr : &it->second; bool have = false, one = true; u64 val = 0;
      for (u64 i = Bn.lo; i <= Bn.hi && one; i++) { if ((i & Bn.kz) || (Bn.ko & ~i)) continue; bool ok = true; if (fs) for (auto& f : *fs) { const Table& ft = tables[f.first]; if (ft.v[std::min<u64>(i, ft.v.size() - 1)] != f.second) { ok = false; break; } } if (!ok) continue; u64 x = t.v[std::min<u64>((i >> sh) & im, t.v.size() - 1)]; if (!have) { have = true; val = x; } else if (x != val) one = false; }
      if (have && one) return mkConst(val, t.w); } }
  return raw(TABLE, t.w, idx, tid, 0, 0); }
E mkTableTree(E idx, unsigned bits, const std::function<E(u64)>& leaf) { // leaf(i) for i<2^bits
  std::function<E(unsigned, u64)> rec = [&](unsigned b, u64 pre) -> E { if (b == 0) return leaf(pre); E bit = mkExtract(idx, b - 1, 1); if (isC(bit)) return rec(b - 1, pre | ((u64)N[bit].v << (b - 1))); E h = rec(b - 1, pre | (1ull << (b - 1))), l = rec(b - 1, pre); return mkIte(bit, h, l); };
  return rec(bits, 0); }
// ---- floats
static u128 fcmpC(unsigned pred, double a, double b) { bool un = std::isnan(a) || std::isnan(b); switch (pred) { case 0: return 0; case 1: return !un && a == b; case 2: return !un && a > b; case 3: return !un && a >= b; case 4: return !un && a < b; case 5: return !un && a <= b; case 6: return !un && a != b; case 7: return !un; case 8: return un; case 9: return un || a == b; case 10: return un || a > b; case 11: return un || a >= b; case 12: return un || a < b; case 13: return un || a <= b; case 14: return un || a != b; case 15: return 1; } abort(); }
static double toD(u128 v, unsigned w) { return w == 32 ? (double)bf(v) : bd(v); }
static u128 satU(double x, unsigned w) { if (std::isnan(x) || x <= 0) return 0; double m = std::ldexp(1.0, w); if (x >= m) return maskw(w); return (u128)x; }
static u128 satS(double x, unsigned w) { if (std::isnan(x)) return 0; double m = std::ldexp(1.0, w - 1); if (x >= m) return maskw(w - 1); if (x <= -m) return (u128)1 << (w - 1); return (u128)(i128)x & maskw(w); }
u128 evalF(u8 op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u32 extra) {
  bool f = wa == 32;
  switch (op) {
    case FADD: return f ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b)); case FSUB: return f ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b)); case FMUL: return f ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b)); case FDIV: return f ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b)); case FREM: return f ? fb(fmodf(bf(a), bf(b))) : db(fmod(bd(a), bd(b)));
    case FCMP: return fcmpC(extra, toD(a, wa), toD(b, wa));
    case FPTOUI: case FPTOUI_SAT: return satU(toD(a, wa), w); case FPTOSI: case FPTOSI_SAT: return satS(toD(a, wa), w);
    case UITOFP: return w == 32 ? fb((float)a) : db((double)a); case SITOFP: return w == 32 ? fb((float)sx(a, wa)) : db((double)sx(a, wa));
    case FPEXT: return db((double)bf(a)); case FPTRUNC: return fb((float)bd(a)); case FSQRT: return f ? fb(sqrtf(bf(a))) : db(sqrt(bd(a)));
    case FRINT: { double x = toD(a, wa), r; switch (extra) { case 0: r = floor(x); break; case 1: r = ceil(x); break; case 2: r = trunc(x); break; case 3: r = round(x); break; default: r = nearbyint(x); } return f ? fb((float)r) : db(r); }
    case FMINNUM: return f ? fb(fminf(bf(a), bf(b))) : db(fmin(bd(a), bd(b))); case FMAXNUM: return f ? fb(fmaxf(bf(a), bf(b))) : db(fmax(bd(a), bd(b)));
    case FMA: return f ? fb(fmaf(bf(a), bf(b), bf(c))) : db(fma(bd(a), bd(b), bd(c)));
  } abort(); }
// Exact shadows of 32-bit floats: the float is i * 2^-s for the signed 32-bit
// integer expression i, |i| <= m <= 2^24, so no operation below ever rounds
// and the float is neither NaN nor infinite (and not -0 unless nz).
static Sh shOf(E e) {
  const Node& n = N[e]; if (n.w != 32) return {};
  if (n.op != CONST) return e < shadows.size() ? shadows[e] : Sh{};
  float f = bf(n.v); if (!std::isfinite(f)) return {}; if (f == 0) return {e ? mkConst(0, 32) : 0, 0, 0, (bool)std::signbit(f), false};
  int ex; double m = std::frexp(std::fabs((double)f), &ex); u64 k = (u64)std::ldexp(m, 24); int sc = 24 - ex; while (sc > 0 && !(k & 1)) { k >>= 1; sc--; } while (sc < 0) { if (k > (1u << 24)) return {}; k <<= 1; sc++; } if (sc > 40 || k > (1u << 24)) return {};
  return {mkConst((u128)(f < 0 ? -(i64)k : (i64)k), 32), sc, k, false, f < 0}; }
// floats with the same shadow have the same bits: one node stands for them
static std::unordered_map<u64, E> shCanon; static std::vector<u64> shLog;
static E withSh(E e, u32 before, Sh r) {
  if (isC(e) || !r.i || r.m > (1u << 24) || r.s > 60) return e;
  if (e >= before) { if (shadows.size() <= e) shadows.resize(e + 1 + e / 2); shadows[e] = r; } else if (!hasSh(e)) return e; else r = shadows[e];
  if (r.nz) return e; u64 k = (u64)r.i << 8 | (u64)r.s; auto it = shCanon.emplace(k, e); if (it.second) shLog.push_back(k); return it.first->second; }
static bool shOk(const Sh& r) { return r.i && r.m <= (1u << 24) && r.s <= 60; }
static E shlI(E i, int k) { return k ? mkBin(SHL, i, mkConst(k, 32)) : i; }
// bring to one scale; false if that leaves the exact range of 31 bits
static bool align(Sh& a, Sh& b) { int s = std::max(a.s, b.s), ka = s - a.s, kb = s - b.s; if (ka > 24 || kb > 24) { if (a.m == 0) { a.s = s; ka = 0; } if (b.m == 0) { b.s = s; kb = 0; } if (ka > 24 || kb > 24) return false; } if ((a.m << ka) > (1u << 30) || (b.m << kb) > (1u << 30)) return false; a.i = shlI(a.i, ka); a.m <<= ka; a.s = s; b.i = shlI(b.i, kb); b.m <<= kb; b.s = s; return true; }
static E shConst(const Sh& r) { double v = std::ldexp((double)(i64)sx(N[r.i].v, 32), -r.s); return mkConst(fb((float)v), 32); }
E mkF(u8 op, E a, E b) {
  if (isC(a) && (!b || isC(b))) return mkConst(evalF(op, N[a].w, N[a].w, N[a].v, b ? N[b].v : 0, 0, 0), N[a].w);
  if (op == FDIV && isC(b) && N[a].w == 32) { float f = bf(N[b].v); int ex; if (std::isfinite(f) && std::frexp(std::fabs(f), &ex) == 0.5 && ex > -100 && ex < 100) return mkF(FMUL, a, mkConst(fb(1.0f / f), 32)); } // exact reciprocal
  if ((op == FADD || op == FMUL) && (isC(a) || (!isC(b) && a > b))) std::swap(a, b);
  if (N[a].w != 32 || !b) return raw(op, N[a].w, a, b, 0, 0);
  Sh x = shOf(a), y = shOf(b), r{};
  if (x.i && y.i && (op == FMINNUM || op == FMAXNUM) && !x.nz && !y.nz) return mkIte(mkFcmp(op == FMINNUM ? 4 : 2, a, b), a, b);
  if (x.i && y.i) {
    if (op == FADD || op == FSUB) { Sh p = x, q = y; if (align(p, q)) { r.s = p.s; r.m = p.m + q.m; if (shOk({1, r.s, r.m, false, false})) { r.i = mkBin(op == FADD ? ADD : SUB, p.i, q.i); r.nz = op == FADD ? x.nz && y.nz : x.nz; r.neg = op == FADD ? x.neg || y.neg : x.neg || y.m; } } }
    else if (op == FMUL) { r.s = x.s + y.s; r.m = x.m * y.m; bool posc = isC(b) && !y.neg && y.m; if (shOk({1, r.s, r.m, false, false})) { r.i = mkBin(MUL, x.i, y.i); r.neg = x.neg || y.neg; r.nz = posc ? x.nz : x.nz || y.nz || x.neg || y.neg; } }
  }
  if (shOk(r) && isC(r.i) && !r.nz) return shConst(r);
  u32 before = N.size(); E e = raw(op, N[a].w, a, b, 0, 0); return withSh(e, before, r); }
// facts about a quotient of exact values: 0/y, x/x, and which side of 1 it is on (rounding is monotone, and nothing underflows)
void fdivLemmas(E e, std::vector<E>& out) {
  const Node n = N[e]; if (n.op != FDIV || n.w != 32) return; Sh x = shOf(n.a), y = shOf(n.b); if (!x.i || !y.i || x.nz || y.nz || !align(x, y)) return;
  E z = mkConst(0, 32), one = mkConst(fb(1.0f), 32); auto imp = [&](E p, E q) { E k = mkBin(OR, mkNot(p), q); if (!isC(k)) out.push_back(k); };
  E xp = mkBin(SLT, z, x.i), yp = mkBin(SLT, z, y.i), pos = mkBin(AND, xp, yp);
  imp(mkBin(AND, mkEq(x.i, z), yp), raw(EQ, 1, e, z, 0, 0)); imp(mkBin(AND, mkEq(x.i, y.i), mkNot(mkEq(y.i, z))), raw(EQ, 1, e, one, 0, 0));
  imp(pos, mkBin(AND, mkBin(SLT, z, e), mkBin(ULT, e, mkConst(0x7f800000, 32)))); imp(mkBin(AND, pos, mkBin(SLE, x.i, y.i)), mkBin(ULE, e, one)); imp(mkBin(AND, pos, mkBin(SLE, y.i, x.i)), mkBin(ULE, one, e)); }
bool hasShadow(E e) { return hasSh(e); }
E mkFabs(E a) { unsigned w = N[a].w; Sh x = shOf(a); if (w == 32 && shOk(x) && !isC(a)) { if (!x.neg && !x.nz) return a; Sh r = x; r.i = x.neg ? mkIte(mkBin(SLT, x.i, mkConst(0, 32)), mkBin(SUB, mkConst(0, 32), x.i), x.i) : x.i; r.neg = r.nz = false; u32 before = N.size(); E e = mkBin(AND, a, mkConst(maskw(31), 32)); return withSh(e, before, r); }
  return mkBin(AND, a, mkConst(maskw(w - 1), w)); }
E mkFcmp(unsigned p, E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalF(FCMP, 1, N[a].w, N[a].v, N[b].v, 0, p), 1); if (p == 0) return mkConst(0, 1); if (p == 15) return mkConst(1, 1);
  if (N[a].w == 32 && !(isC(a) && isC(b))) { Sh x = shOf(a), y = shOf(b); if (x.i && y.i && align(x, y)) switch (p & 7) { case 0: return mkConst(0, 1); case 7: return mkConst(1, 1); case 1: return mkEq(x.i, y.i); case 6: return mkNot(mkEq(x.i, y.i)); case 2: return mkBin(SLT, y.i, x.i); case 3: return mkBin(SLE, y.i, x.i); case 4: return mkBin(SLT, x.i, y.i); case 5: return mkBin(SLE, x.i, y.i); } }
  return raw(FCMP, 1, a, b, 0, p); }
E mkFPTo(u8 op, E a, unsigned w) {
  if (isC(a)) return mkConst(evalF(op, w, N[a].w, N[a].v, 0, 0, 0), w);
  if (N[a].w == 32 && op <= FPTOSI_SAT && op >= FPTOUI) { Sh x = shOf(a); u64 top = x.i ? x.m >> std::min(x.s, 40) : 0; bool sg = op == FPTOSI || op == FPTOSI_SAT;
    if (x.i && (sg ? top < (1ull << std::min(w - 1, 40u)) : top <= mask64(std::min(w, 40u)))) { auto sh = [&](E v) { return x.s == 0 ? v : mkBin(LSHR, v, mkConst(std::min(x.s, 31), 32)); }; E z = mkConst(0, 32), pos = sh(x.i), r = pos;
      if (x.neg) { E ng = mkBin(SLT, x.i, z); r = mkIte(ng, sg ? mkBin(SUB, z, sh(mkBin(SUB, z, x.i))) : z, pos); }
      return w <= 32 ? mkTrunc(r, w) : sg ? mkSext(r, w) : mkZext(r, w); } }
  return raw(op, w, a, 0, 0, 0); }
E mkIToF(u8 op, E a, unsigned w) {
  if (isC(a)) return mkConst(evalF(op, w, N[a].w, N[a].v, 0, 0, 0), w);
  Sh r{}; unsigned aw = N[a].w;
  if (w == 32 && aw <= 64) { bool pos = op == UITOFP || (N[a].kz >> (aw - 1) & 1); u64 hi = N[a].hi; { u64 up = ~N[a].kz & mask64(aw); if (up < hi) hi = up; }
    if (pos && hi <= (1u << 24)) r = {aw >= 32 ? mkTrunc(a, 32) : mkZext(a, 32), 0, hi, false, false};
    else if (!pos && aw <= 25) r = {mkSext(a, 32), 0, 1ull << (aw - 1), false, true}; }
  u32 before = N.size(); E e = raw(op, w, a, 0, 0, 0); return withSh(e, before, r); }
E mkRint(E a, unsigned mode) { if (isC(a)) return mkConst(evalF(FRINT, N[a].w, N[a].w, N[a].v, 0, 0, mode), N[a].w); return raw(FRINT, N[a].w, a, 0, 0, mode); }
E mkFma(E a, E b, E c) { if (isC(a) && isC(b) && isC(c)) return mkConst(evalF(FMA, N[a].w, N[a].w, N[a].v, N[b].v, N[c].v, 0), N[a].w); return raw(FMA, N[a].w, a, b, c, 0); }
// ---- bit tricks
E mkCtlz(E e) { unsigned w = N[e].w; E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return r; }
E mkCttz(E e) { unsigned w = N[e].w; E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return r; }
E mkCtpop(E e) { unsigned w = N[e].w; E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, w == 1 ? mkExtract(e, i, 1) : mkZext(mkExtract(e, i, 1), w)); return r; }
E mkBswap(E e) { unsigned n = N[e].w / 8; E r = mkExtract(e, 0, 8); for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(e, 8 * i, 8)); return r; }
E mkBitrev(E e) { unsigned n = N[e].w; E r = mkExtract(e, 0, 1); for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(e, i, 1)); return r; }
static const char* opn[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "ext", "sext", "table", "fadd", "fsub", "fmul", "fdiv", "frem", "fcmp", "fptoui", "fptosi", "fptouisat", "fptosisat", "uitofp", "sitofp", "fpext", "fptrunc", "sqrt", "rint", "fmin", "fmax", "fma"};
std::string show(E e, int d) { Node n = N[e]; char b[64]; if (n.op == CONST) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)(u64)n.v, n.w); return b; } if (n.op == VAR) { snprintf(b, 64, "v%u", (u32)n.v); return b; } if (d == 0) return "..."; std::string s = std::string("(") + opn[n.op] + std::to_string(n.w); if (n.op == EXTRACT) s += "@" + std::to_string((unsigned)n.v); if (n.a) s += " " + show(n.a, d - 1); if (n.b && n.op != TABLE) s += " " + show(n.b, d - 1); if (n.op == TABLE) s += " T" + std::to_string(n.b) + "[" + std::to_string(tables[n.b].v.size()) + "]"; if (n.c && n.op == ITE) s += " " + show(n.c, d - 1); return s + ")"; }

// ---- learning from the path condition (valid for the rest of this path only)
static int learnDepth = 0;
struct FactLog { E e; u64 kz, ko, lo, hi; E known; }; static std::vector<FactLog> factLog; static std::vector<E> eqLog;
static void logFact(E e) { const Node& n = N[e]; factLog.push_back({e, n.kz, n.ko, n.lo, n.hi, e < knownC.size() ? knownC[e] : 0}); }
ExprMark exprMark() { return {(u32)N.size(), (u32)factLog.size(), (u32)eqLog.size(), (u32)idxLog.size(), (u32)shLog.size()}; }
void exprRollback(const ExprMark& m) {
  while (factLog.size() > m.facts) { auto& l = factLog.back(); Node& n = N[l.e]; n.kz = l.kz; n.ko = l.ko; n.lo = l.lo; n.hi = l.hi; if (l.e < knownC.size()) knownC[l.e] = l.known; factLog.pop_back(); }
  while (eqLog.size() > m.eqs) { eqMeaning.erase(eqLog.back()); eqLog.pop_back(); }
  while (idxLog.size() > m.idx) { auto it = idxFacts.find(idxLog.back()); it->second.pop_back(); if (it->second.empty()) idxFacts.erase(it); idxLog.pop_back(); }
  for (u32 id = N.size() - 1; id >= m.n; id--) { Node& x = N[id]; u32 p = hsh(x.op, x.w, x.a, x.b, x.c, x.v) & htMask; while (ht[p] != id) p = (p + 1) & htMask; ht[p] = 0; if (x.op == VAR && (u32)x.v < varNodes.size()) varNodes[(u32)x.v] = 0; if (id < knownC.size()) knownC[id] = 0; }
  if (shadows.size() > m.n) shadows.resize(m.n); while (shLog.size() > m.sh) { shCanon.erase(shLog.back()); shLog.pop_back(); }
  N.resize(m.n); }

static void setKnown(E e, u128 v) { if (knownC.size() <= e) knownC.resize(N.size() + 4096, 0); if (!knownC[e]) { logFact(e); E c = mkConst(v, N[e].w); knownC[e] = c; if (N[e].w <= 64) { Node& n = N[e]; n.ko = (u64)v; n.kz = ~(u64)v & mask64(n.w); n.lo = n.hi = (u64)v; } } }
static void learnRange(E e, u64 lo, u64 hi) { Node& n = N[e]; if (n.w > 64 || n.op == CONST) return; logFact(e); bool ch = false; if (lo > n.lo) { n.lo = lo; ch = true; } if (hi < n.hi) { n.hi = hi; ch = true; } if (n.lo > n.hi) return; if (ch) { // leading zeros
    unsigned b = 0; while (b < n.w && (n.hi >> b)) b++; if (b < n.w) n.kz |= mask64(n.w) & ~mask64(b); if (n.lo != n.hi) { unsigned d = 64 - __builtin_clzll(n.lo ^ n.hi); u64 pm = mask64(n.w) & ~mask64(d); n.ko |= n.lo & pm; n.kz |= ~n.lo & pm; } if (n.lo == n.hi) { u64 v = n.lo; learn(e, v); return; }
    if (n.op == CONCAT && isC(n.a, 0)) learnRange(n.b, lo, std::min<u64>(hi, mask64(N[n.b].w))); else if (n.op == CONCAT) { unsigned lw = N[n.b].w; learnRange(n.a, lo >> lw, hi >> lw); } } }
static void eqNote(E r) { eqLog.push_back(r); }
void learn(E e, u128 v) {
  if (isC(e) || learnDepth > 64) return; if (e < knownC.size() && knownC[e]) return; learnDepth++; Node n = N[e]; unsigned w = n.w; setKnown(e, v); if (w == 1 && v) { auto it = eqMeaning.find(e); if (it != eqMeaning.end()) learn(it->second.first, it->second.second); }
  switch (n.op) {
    case CONCAT: { unsigned lw = N[n.b].w; learn(n.b, v & maskw(lw)); learn(n.a, v >> lw); break; }
    case ADD: if (isC(n.b)) learn(n.a, (v - N[n.b].v) & maskw(w)); else if (isC(n.a)) learn(n.b, (v - N[n.a].v) & maskw(w)); break;
    case SUB: if (isC(n.b)) learn(n.a, (v + N[n.b].v) & maskw(w)); else if (isC(n.a)) learn(n.b, (N[n.a].v - v) & maskw(w)); break;
    case XOR: if (isC(n.b)) learn(n.a, v ^ N[n.b].v); else if (isC(n.a)) learn(n.b, v ^ N[n.a].v); break;
    case SEXT: learn(n.a, v & maskw(N[n.a].w)); break;
    case MUL: if (isC(n.b) && w <= 64) { u64 k = (u64)N[n.b].v; if (k && N[n.a].hi <= mask64(w) / k && (u64)v % k == 0) learn(n.a, (u64)v / k); } break;
    case AND: if (w == 1 && v) { learn(n.a, 1); learn(n.b, 1); } break;
    case OR: if (w == 1 && !v) { learn(n.a, 0); learn(n.b, 0); } break;
    case EQ: if (v) { if (isC(n.b)) learn(n.a, N[n.b].v); else if (isC(n.a)) learn(n.b, N[n.a].v); } else if (N[n.a].w == 1) { if (isC(n.b)) learn(n.a, !N[n.b].v); } else { E x = isC(n.b) ? n.a : isC(n.a) ? n.b : 0; if (x && N[x].w <= 64) { u64 k = (u64)(isC(n.b) ? N[n.b].v : N[n.a].v); if (k == N[x].lo && N[x].lo < N[x].hi) learnRange(x, k + 1, N[x].hi); else if (k == N[x].hi && N[x].lo < N[x].hi) learnRange(x, N[x].lo, k - 1); } } break;
    case ULT: if (N[n.a].w <= 64) { if (isC(n.b)) { u64 k = (u64)N[n.b].v; if (v && k) learnRange(n.a, 0, k - 1); else if (!v) learnRange(n.a, k, ~0ull); } else if (isC(n.a)) { u64 k = (u64)N[n.a].v; if (v && k != mask64(N[n.a].w)) learnRange(n.b, k + 1, ~0ull); else if (!v) learnRange(n.b, 0, k); } } break;
    case ULE: if (N[n.a].w <= 64) { if (isC(n.b)) { u64 k = (u64)N[n.b].v; if (v) learnRange(n.a, 0, k); else if (k != mask64(N[n.a].w)) learnRange(n.a, k + 1, ~0ull); } else if (isC(n.a)) { u64 k = (u64)N[n.a].v; if (v) learnRange(n.b, k, ~0ull); else if (k) learnRange(n.b, 0, k - 1); } } break;
    case ITE: { if (isC(n.b) && isC(n.c)) { if (N[n.b].v == v && N[n.c].v != v) learn(n.a, 1); else if (N[n.c].v == v && N[n.b].v != v) learn(n.a, 0); } else if (isC(n.b) && N[n.b].v != v) { learn(n.a, 0); learn(n.c, v); } else if (isC(n.c) && N[n.c].v != v) { learn(n.a, 1); learn(n.b, v); } break; }
    case TABLE: { const Table& t = tables[n.b]; const Node X = N[n.a]; if (X.w <= 20) { u64 cnt = 0, first = 0, last = 0; u64 lim = 1ull << X.w; for (u64 i = 0; i < lim; i++) { if (i < X.lo || i > X.hi || (i & X.kz) || (X.ko & ~i)) continue; u64 x = t.v[std::min<u64>(i, t.v.size() - 1)]; if (x == (u64)v) { if (!cnt) first = i; cnt++; last = i; } } if (cnt == 1) learn(n.a, last); else if (cnt) { idxFacts[n.a].push_back({n.b, (u64)v}); idxLog.push_back(n.a); learnRange(n.a, first, last); } } break; }
    default: break; }
  learnDepth--; }
