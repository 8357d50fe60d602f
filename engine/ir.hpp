// LLVM textual IR: types, values, instructions and the on-demand function decoder.
#pragma once
#include "expr.hpp"
#include <string_view>
typedef std::string_view sv;
extern std::vector<std::string> badOps;
[[noreturn]] void die(const char* fmt, ...);

struct Leaf { u32 off; u16 w; bool fp; };
struct Type { enum K { VOID, INT, PTR, FP, VEC, ARR, STRUCT, LABEL, META } k; u32 w = 0; u64 n = 0; Type* el = nullptr; std::vector<Type*> f; std::vector<u64> foff; bool packed = false; u64 size = 0; u32 align = 1;
  std::vector<Leaf> leaves; bool leavesDone = false; };
const std::vector<Leaf>& leavesOf(Type* t);

struct Val { u128 c; E e; };            // e==0: concrete value c ; otherwise symbolic expression
enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_BITCAST, I_FPTOUI, I_FPTOSI, I_UITOFP, I_SITOFP, I_FPEXT, I_FPTRUNC, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL,
  I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_INSERTVAL, I_RMW, I_CMPXCHG, I_NOP, I_BADOP };
struct Ins { u8 op; u8 sub; u16 w; u32 n; i32 d, a, b, c; u32 ex; u32 dbg; };
struct Edge { u32 target; u32 ps, pn; i32 succBlock, predBlock; };
struct PhiCopy { i32 d, s; u32 n; };
struct GepEx { i64 coff; std::vector<std::pair<i32, i64>> idx; std::vector<u16> w; };
struct SwEx { std::vector<std::pair<u128, u32>> cases; u32 def; };
struct Func;
struct CallEx { std::string name; Func* f = nullptr; int intr = -1; i32 fp = 0; bool indirect = false; std::vector<i32> args; std::vector<Type*> argT; Type* ret; i32 normalEdge = -1; };
struct Func { std::string name; const char* hdr = nullptr; const char* body = nullptr; const char* end = nullptr; bool decoded = false; bool defined = false; u64 addr = 0; u32 id = 0; u32 nregs = 0; std::vector<Ins> code; std::vector<Val> K; std::vector<Edge> edges; std::vector<PhiCopy> phis; std::vector<GepEx> geps; std::vector<SwEx> sws; std::vector<CallEx> calls; std::vector<std::vector<Leaf>> lvs; std::vector<std::vector<i32>> lists; u32 nargSlots = 0; bool isPanic = false; bool vararg = false; u64 execCount = 0; };
struct Global { std::string name; Type* ty; u64 addr = 0; bool isConst = false; bool ext = false; const char* init = nullptr; u32 align = 1; std::string alias; };
extern std::unordered_map<std::string, Func*> funcs; extern std::vector<Func*> funcList; extern std::unordered_map<std::string, Global*> globals; extern std::vector<Global*> globalList;
void parseModule(const char* text, size_t len);
void decode(Func* f);
u64 globalAddr(const std::string& name);   // address of a global or function
void initGlobals(const std::function<u8*(Global*)>& mem);
