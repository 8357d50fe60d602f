// Hash-consed bit-vector expression layer with a bit-slicing normal form.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <cmath>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;
typedef unsigned __int128 u128; typedef __int128 i128;
typedef u32 E; // 0 = none
enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, SEXT, TABLE,
  FADD, FSUB, FMUL, FDIV, FREM, FCMP, FPTOUI, FPTOSI, FPTOUI_SAT, FPTOSI_SAT, UITOFP, SITOFP, FPEXT, FPTRUNC, FSQRT, FRINT /*c=mode*/, FMINNUM, FMAXNUM, FMA };
struct Node { u8 op; u8 pad; u16 w; E a, b, c; u128 v; u64 kz, ko, lo, hi; u32 vs; };
inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

extern std::vector<Node> N;
struct VarSet { std::vector<u32> v; bool operator==(const VarSet&o) const { return v == o.v; } };
struct Table { std::vector<u64> v; u16 w; };
extern std::deque<Table> tables;
extern std::vector<VarSet> varsets;
u32 vs_union(u32 a, u32 b);

E mkConst(u128 v, unsigned w);
E mkVar(u32 id); E varNode(u32 id);
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E e, unsigned w);
E mkSext(E e, unsigned w);
E mkTrunc(E e, unsigned w);
E mkBin(u8 op, E a, E b);
E mkIte(E c, E a, E b);
E mkNot(E c);
E mkEq(E a, E b);
E mkTable(u32 tid, E idx);
u32 internTable(Table t);
inline bool isC(E e) { return N[e].op == CONST; }
inline bool isC(E e, u128 v) { return N[e].op == CONST && N[e].v == v; }
u128 constBin(u8 op, u128 a, u128 b, unsigned w);
u128 evalF(u8 op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u32 extra);
std::string show(E e, int depth = 6);
E mkAnd1(E a, E b); E mkOr1(E a, E b);
E mkCtlz(E e); E mkCttz(E e); E mkCtpop(E e); E mkBswap(E e); E mkBitrev(E e);
void initExpr();
extern std::vector<E> knownC;
inline E subst(E e) { return e < knownC.size() && knownC[e] ? knownC[e] : e; }
void learn(E e, u128 v);
E mkTableTree(E idx, unsigned bits, const std::function<E(u64)>& leaf);
E mkFcmp(unsigned pred, E a, E b);
E mkFPTo(u8 op, E a, unsigned w);
E mkRint(E a, unsigned mode);
E mkFma(E a, E b, E c);
E mkF(u8 op, E a, E b = 0); E mkFabs(E a); bool hasShadow(E e); void fdivLemmas(E e, std::vector<E>& out);
E mkIToF(u8 op, E a, unsigned w);
inline float bf(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
inline double bd(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
inline u128 fb(float f) { u32 x; memcpy(&x, &f, 4); return x; }
inline u128 db(double f) { u64 x; memcpy(&x, &f, 8); return x; }

struct ExprMark { u32 n, facts, eqs, idx, sh; }; ExprMark exprMark(); void exprRollback(const ExprMark&);
