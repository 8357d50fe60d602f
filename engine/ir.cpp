#include "ir.hpp"
#include <cstdarg>
static bool decoding = false; struct DecodeError { std::string what; }; std::vector<std::string> badOps;
void die(const char* fmt, ...) { va_list ap; va_start(ap, fmt); if (decoding) { char m[400]; vsnprintf(m, sizeof m, fmt, ap); throw DecodeError{m}; } fprintf(stderr, "rsymex: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); _Exit(78); }
std::unordered_map<std::string, Func*> funcs; std::vector<Func*> funcList; std::unordered_map<std::string, Global*> globals; std::vector<Global*> globalList;
static std::unordered_map<std::string, Type*> named; static std::map<std::string, Type*> interned;

// ---------------------------------------------------------------- lexer
enum TK { T_EOF, T_LOCAL, T_GLOBAL, T_META, T_ATTR, T_INT, T_FLT, T_WORD, T_STR, T_CSTR, T_P };
struct Tok { TK k; std::string s; char p = 0; };
static inline bool idc(char c) { return isalnum((u8)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
static std::string unesc(const char* b, const char* e) { std::string r; while (b < e) { if (*b == '\\' && b + 2 < e + 1 && b + 2 <= e - 1 + 0 && isxdigit((u8)b[1]) && isxdigit((u8)b[2])) { char h[3] = {b[1], b[2], 0}; r.push_back((char)strtoul(h, 0, 16)); b += 3; } else if (*b == '\\' && b + 1 < e && b[1] == '\\') { r.push_back('\\'); b += 2; } else r.push_back(*b++); } return r; }
struct Lex { const char* p; const char* e; Tok t; Lex(const char* b, const char* en) : p(b), e(en) { next(); }
  void next() {
    while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; if (p < e && *p == ';') { while (p < e && *p != '\n') p++; next(); return; }
    t.p = 0; t.s.clear(); if (p >= e) { t.k = T_EOF; return; } char c = *p;
    if (c == '%' || c == '@') { t.k = c == '%' ? T_LOCAL : T_GLOBAL; p++; if (p < e && *p == '"') { const char* b = ++p; while (p < e && *p != '"') p++; t.s = unesc(b, p); p++; } else { const char* b = p; while (p < e && idc(*p)) p++; t.s.assign(b, p); } return; }
    if (c == '!') { t.k = T_META; p++; const char* b = p; while (p < e && (idc(*p))) p++; t.s.assign(b, p); return; }
    if (c == '#') { t.k = T_ATTR; p++; const char* b = p; while (p < e && isdigit((u8)*p)) p++; t.s.assign(b, p); return; }
    if (c == '"') { t.k = T_STR; const char* b = ++p; while (p < e && *p != '"') p++; t.s = unesc(b, p); p++; return; }
    if (c == 'c' && p + 1 < e && p[1] == '"') { t.k = T_CSTR; p += 2; const char* b = p; while (p < e && *p != '"') p++; t.s = unesc(b, p); p++; return; }
    if (isdigit((u8)c) || (c == '-' && p + 1 < e && isdigit((u8)p[1]))) { const char* b = p; p++; bool flt = false; if (c == '0' && p < e && *p == 'x') { flt = true; p++; while (p < e && isxdigit((u8)*p)) p++; } else while (p < e && (isdigit((u8)*p) || *p == '.' || *p == 'e' || ((*p == '+' || *p == '-') && p[-1] == 'e'))) { if (*p == '.') flt = true; p++; } t.k = flt ? T_FLT : T_INT; t.s.assign(b, p); return; }
    if ((c == '+' || c == '-') && p + 1 < e && isalpha((u8)p[1])) { const char* b = p++; while (p < e && isalpha((u8)*p)) p++; if (p < e && *p == '(') { while (p < e && *p != ')') p++; p++; } t.k = T_WORD; t.s.assign(b, p); return; } // +inf -inf +qnan +nan(0x..) -snan(0x..)
    if (isalpha((u8)c) || c == '_') { const char* b = p; while (p < e && idc(*p)) p++; t.k = T_WORD; t.s.assign(b, p); return; }
    t.k = T_P; t.p = c; p++; }
  bool is(char c) { return t.k == T_P && t.p == c; } bool isW(const char* w) { return t.k == T_WORD && t.s == w; }
  void expect(char c) { if (!is(c)) die("parse: expected '%c' got '%s%c' near: %.120s", c, t.s.c_str(), t.p ? t.p : ' ', p); next(); }
  bool eat(char c) { if (is(c)) { next(); return true; } return false; }
  void skipParens() { int d = 0; do { if (is('(')) d++; else if (is(')')) d--; if (t.k == T_EOF) die("parse: unbalanced"); next(); } while (d); }
};
// ---------------------------------------------------------------- types
static Type* mk(const std::string& key, const std::function<Type*()>& f) { auto it = interned.find(key); if (it != interned.end()) return it->second; Type* t = f(); interned[key] = t; return t; }
static std::string tkey(Type* t) { char b[32]; snprintf(b, 32, "%p", (void*)t); return b; }
static Type* intT(u32 w) { return mk("i" + std::to_string(w), [&] { Type* t = new Type; t->k = Type::INT; t->w = w; u64 by = (w + 7) / 8; u32 al = 1; while (al < by) al *= 2; if (al > 16) al = 16; t->align = al; t->size = (by + al - 1) / al * al; return t; }); }
static Type* ptrT() { return mk("ptr", [&] { Type* t = new Type; t->k = Type::PTR; t->w = 64; t->size = 8; t->align = 8; return t; }); }
static Type* simpleT(Type::K k, u32 w) { return mk("s" + std::to_string(k) + "." + std::to_string(w), [&] { Type* t = new Type; t->k = k; t->w = w; t->size = w / 8; t->align = w ? w / 8 : 1; return t; }); }
static Type* seqT(Type::K k, u64 n, Type* el) { return mk((k == Type::VEC ? "v" : "a") + std::to_string(n) + tkey(el), [&] { Type* t = new Type; t->k = k; t->n = n; t->el = el; t->size = n * el->size; t->align = el->align; if (k == Type::VEC) { u32 a = 1; while (a < t->size && a < 64) a *= 2; t->align = a; } return t; }); }
static Type* structT(std::vector<Type*> f, bool packed) { std::string k = packed ? "p{" : "{"; for (auto* x : f) k += tkey(x) + ","; return mk(k, [&] { Type* t = new Type; t->k = Type::STRUCT; t->f = f; t->packed = packed; u64 o = 0; u32 al = 1; for (auto* x : f) { u32 a = packed ? 1 : x->align; o = (o + a - 1) / a * a; t->foff.push_back(o); o += x->size; al = std::max(al, a); } t->size = (o + al - 1) / al * al; t->align = al; return t; }); }
static bool typeStart(Lex& L) { if (L.t.k == T_P) return L.t.p == '{' || L.t.p == '[' || L.t.p == '<'; if (L.t.k == T_LOCAL) return named.count(L.t.s); if (L.t.k != T_WORD) return false; const std::string& s = L.t.s; if (s == "ptr" || s == "void" || s == "float" || s == "double" || s == "half" || s == "label" || s == "metadata" || s == "token") return true; if (s[0] == 'i' && s.size() > 1) { for (size_t i = 1; i < s.size(); i++) if (!isdigit((u8)s[i])) return false; return true; } return false; }
static Type* parseType(Lex& L) {
  Type* r = nullptr;
  if (L.t.k == T_LOCAL) { auto it = named.find(L.t.s); if (it == named.end()) die("unknown type %%%s", L.t.s.c_str()); r = it->second; L.next(); }
  else if (L.t.k == T_WORD) { std::string s = L.t.s; L.next(); if (s == "ptr") { r = ptrT(); if (L.isW("addrspace")) { L.next(); L.skipParens(); } } else if (s == "void") r = simpleT(Type::VOID, 0); else if (s == "float") r = simpleT(Type::FP, 32); else if (s == "double") r = simpleT(Type::FP, 64); else if (s == "half") r = simpleT(Type::FP, 16); else if (s == "label") r = simpleT(Type::LABEL, 0); else if (s == "metadata" || s == "token") r = simpleT(Type::META, 0); else if (s[0] == 'i') r = intT(atoi(s.c_str() + 1)); else die("type word %s near %.100s", s.c_str(), L.p); }
  else if (L.is('[')) { L.next(); u64 n = strtoull(L.t.s.c_str(), 0, 10); L.next(); L.next(); Type* el = parseType(L); L.expect(']'); r = seqT(Type::ARR, n, el); }
  else if (L.is('<')) { L.next(); if (L.is('{')) { L.next(); std::vector<Type*> f; while (!L.is('}')) { f.push_back(parseType(L)); L.eat(','); } L.next(); L.expect('>'); r = structT(f, true); } else { u64 n = strtoull(L.t.s.c_str(), 0, 10); L.next(); L.next(); Type* el = parseType(L); L.expect('>'); r = seqT(Type::VEC, n, el); } }
  else if (L.is('{')) { L.next(); std::vector<Type*> f; while (!L.is('}')) { f.push_back(parseType(L)); L.eat(','); } L.next(); r = structT(f, false); }
  else die("type near %.100s", L.p);
  return r; }
const std::vector<Leaf>& leavesOf(Type* t) { if (t->leavesDone) return t->leaves; t->leavesDone = true; std::vector<Leaf> out;
  switch (t->k) { case Type::INT: out.push_back({0, (u16)t->w, false}); break; case Type::PTR: out.push_back({0, 64, false}); break; case Type::FP: out.push_back({0, (u16)t->w, true}); break;
    case Type::VEC: case Type::ARR: { if (t->n > 4096) die("huge SSA aggregate"); auto l = leavesOf(t->el); for (u64 i = 0; i < t->n; i++) for (auto x : l) { x.off += i * t->el->size; out.push_back(x); } break; }
    case Type::STRUCT: for (size_t i = 0; i < t->f.size(); i++) { auto l = leavesOf(t->f[i]); for (auto x : l) { x.off += t->foff[i]; out.push_back(x); } } break; default: break; }
  t->leaves = out; return t->leaves; }
// ---------------------------------------------------------------- constants
u64 globalAddr(const std::string& n) { auto it = globals.find(n); if (it != globals.end()) { if (!it->second->alias.empty()) return globalAddr(it->second->alias); return it->second->addr; } auto f = funcs.find(n); if (f != funcs.end()) return f->second->addr; die("unknown symbol @%s", n.c_str()); }
static u128 parseIntTok(const std::string& s) { bool neg = s[0] == '-'; u128 v = 0; for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return neg ? (u128)0 - v : v; }
static void parseConst(Lex& L, Type* t, std::vector<u128>& out); // flattened leaf values
static u128 constScalar(Lex& L, Type* t) { std::vector<u128> v; parseConst(L, t, v); if (v.size() != 1) die("const scalar"); return v[0]; }
static i64 gepConst(Type* ty, const std::vector<i64>& idx) { i64 o = idx.empty() ? 0 : idx[0] * (i64)ty->size; Type* c = ty; for (size_t i = 1; i < idx.size(); i++) { if (c->k == Type::STRUCT) { o += c->foff[idx[i]]; c = c->f[idx[i]]; } else { o += idx[i] * (i64)c->el->size; c = c->el; } } return o; }
static void parseConst(Lex& L, Type* t, std::vector<u128>& out) {
  auto zero = [&] { for (size_t i = 0; i < leavesOf(t).size(); i++) out.push_back(0); };
  if (L.t.k == T_GLOBAL) { u64 a = globalAddr(L.t.s); L.next(); out.push_back(a); return; }
  if (L.t.k == T_INT) { if (t->k == Type::FP) { double d = strtod(L.t.s.c_str(), 0); out.push_back(t->w == 32 ? fb((float)d) : db(d)); } else out.push_back(parseIntTok(L.t.s) & maskw(t->w)); L.next(); return; }
  if (L.t.k == T_FLT) { std::string s = L.t.s; L.next(); double d; if (s.size() > 2 && s[1] == 'x') { u64 b = strtoull(s.c_str() + 2, 0, 16); memcpy(&d, &b, 8); } else d = strtod(s.c_str(), 0); if (t->w == 32) out.push_back(fb((float)d)); else out.push_back(db(d)); return; }
  if (L.t.k == T_CSTR) { for (char c : L.t.s) out.push_back((u8)c); L.next(); return; }
  if (L.is('{') || L.is('[') || L.is('<')) { char o = L.t.p; L.next(); bool packed = false; if (o == '<' && L.is('{')) { packed = true; L.next(); } char cl = packed ? '}' : o == '{' ? '}' : o == '[' ? ']' : '>'; while (!L.is(cl)) { Type* et = parseType(L); parseConst(L, et, out); L.eat(','); } L.next(); if (packed) L.expect('>'); return; }
  if (L.t.k == T_WORD) {
    std::string s = L.t.s; L.next();
    if (s == "zeroinitializer" || s == "undef" || s == "poison" || s == "null" || s == "none") { zero(); return; }
    if (s == "true") { out.push_back(1); return; } if (s == "false") { out.push_back(0); return; }
    if (s == "f0x" || s.compare(0, 3, "f0x") == 0) { out.push_back(strtoull(s.c_str() + 3, 0, 16)); return; }
    if (s[0] == '+' || s[0] == '-') { bool f32 = t->w == 32; u64 m = f32 ? 0x7f800000ull : 0x7ff0000000000000ull, q = f32 ? 0x400000ull : 0x8000000000000ull, b = m; std::string n = s.substr(1); if (n == "inf") {} else if (n == "qnan") b |= q; else { size_t o = n.find('('); if (o == std::string::npos) die("float constant %s", s.c_str()); u64 pl = strtoull(n.c_str() + o + 1, 0, 16); b |= pl; if (n[0] != 's') b |= q; } if (s[0] == '-') b |= f32 ? 0x80000000ull : 0x8000000000000000ull; out.push_back(b); return; }
    if (s == "splat") { L.expect('('); Type* et = parseType(L); std::vector<u128> v; parseConst(L, et, v); L.expect(')'); for (u64 i = 0; i < t->n; i++) out.insert(out.end(), v.begin(), v.end()); return; }
    if (s == "getelementptr") { while (L.t.k == T_WORD) { L.next(); if (L.is('(') ) { // inrange(...) or the operand list
          const char* q = L.p; (void)q; break; } } if (!L.is('(')) die("gep const"); 
      L.next(); if (L.t.k == T_INT) { // inrange(a,b) list
        while (!L.is(')')) L.next(); L.next(); while (L.t.k == T_WORD && !L.is('(')) L.next(); L.expect('('); }
      Type* ty = parseType(L); L.expect(','); Type* pt = parseType(L); u64 base = (u64)constScalar(L, pt); std::vector<i64> idx; while (L.eat(',')) { Type* it = parseType(L); u128 v = constScalar(L, it); idx.push_back((i64)sx(v, it->w)); } L.expect(')'); out.push_back(base + gepConst(ty, idx)); return; }
    if (s == "ptrtoint" || s == "inttoptr" || s == "bitcast" || s == "trunc" || s == "zext" || s == "addrspacecast" || s == "ptrtoaddr") { while (L.t.k == T_WORD) L.next(); L.expect('('); Type* a = parseType(L); u128 v = constScalar(L, a); if (!L.isW("to")) die("const cast"); L.next(); Type* b = parseType(L); L.expect(')'); out.push_back(v & maskw(b->w)); return; }
    if (s == "sub" || s == "add" || s == "xor" || s == "mul" || s == "and" || s == "or" || s == "shl" || s == "lshr") { while (L.t.k == T_WORD) L.next(); L.expect('('); Type* a = parseType(L); u128 x = constScalar(L, a); L.expect(','); Type* b = parseType(L); u128 y = constScalar(L, b); L.expect(')'); u128 r = s == "sub" ? x - y : s == "add" ? x + y : s == "xor" ? x ^ y : s == "mul" ? x * y : s == "and" ? (x & y) : s == "or" ? (x | y) : s == "shl" ? x << (unsigned)y : x >> (unsigned)y; out.push_back(r & maskw(a->w)); return; }
    if (s == "dso_local_equivalent" || s == "no_cfi") { parseConst(L, t, out); return; }
    die("const word %s near %.80s", s.c_str(), L.p); }
  die("const near '%.80s'", L.p); }
static void constToMem(Lex& L, Type* t, u8* m) { std::vector<u128> v; // big arrays of bytes fast path
  if (t->k == Type::ARR && L.t.k == T_CSTR) { memcpy(m, L.t.s.data(), std::min<size_t>(L.t.s.size(), t->size)); L.next(); return; }
  if (L.t.k == T_WORD && (L.t.s == "zeroinitializer" || L.t.s == "undef" || L.t.s == "poison" || L.t.s == "null")) { L.next(); return; }
  if ((t->k == Type::ARR && L.is('[')) || (t->k == Type::STRUCT && (L.is('{') || L.is('<')))) { bool pk = L.is('<'); L.next(); if (pk) L.next(); u64 i = 0; char cl = t->k == Type::ARR ? ']' : '}'; while (!L.is(cl)) { Type* et = parseType(L); u64 off = t->k == Type::ARR ? i * t->el->size : t->foff[i]; constToMem(L, et, m + off); i++; L.eat(','); } L.next(); if (pk) L.expect('>'); return; }
  parseConst(L, t, v); auto& lv = leavesOf(t); for (size_t i = 0; i < lv.size(); i++) { u128 x = v[i]; memcpy(m + lv[i].off, &x, (lv[i].w + 7) / 8); } }
void initGlobals(const std::function<u8*(Global*)>& mem) { for (auto* g : globalList) { if (!g->init || !g->alias.empty()) continue; u8* m = mem(g); const char* e = g->init; while (*e != '\n') e++; Lex L(g->init, e); constToMem(L, g->ty, m); } }
// ---------------------------------------------------------------- module
void parseModule(const char* text, size_t len) {
  const char* p = text; const char* end = text + len; std::vector<std::pair<const char*, const char*>> tydefs;
  while (p < end) { const char* nl = (const char*)memchr(p, '\n', end - p); if (!nl) nl = end;
    if (*p == '%') { Lex L(p, nl); std::string n = L.t.s; Type* t = new Type; t->k = Type::STRUCT; named[n] = t; tydefs.push_back({p, nl}); }
    else if (*p == '@') { Lex L(p, nl); Global* g = new Global; g->name = L.t.s; L.next(); L.expect('='); bool alias = false;
      while (true) { if (L.t.k == T_WORD && (L.t.s == "constant" || L.t.s == "global")) { g->isConst = L.t.s == "constant"; L.next(); break; } if (L.isW("alias")) { alias = true; L.next(); break; } if (L.isW("external") || L.isW("extern_weak")) g->ext = true; if (L.isW("thread_local") || L.isW("addrspace")) { L.next(); if (L.is('(')) L.skipParens(); continue; } if (L.t.k == T_EOF) die("global %s", g->name.c_str()); L.next(); }
      g->ty = parseType(L); if (alias) { while (L.t.k != T_GLOBAL) L.next(); g->alias = L.t.s; } else if (!g->ext) { // L.t is first token of initializer: recompute pointer to its start
        g->init = nullptr; const char* q = L.p; // back up over current token
        size_t back; if (L.t.k == T_CSTR || L.t.k == T_STR) { q--; /* closing quote */ int seen = 0; (void)seen; do q--; while (*q != '"'); if (L.t.k == T_CSTR) q--; g->init = q; } else if (L.t.k == T_P) g->init = q - 1; else if (L.t.k == T_GLOBAL || L.t.k == T_LOCAL) { do q--; while (*q != '@' && *q != '%'); g->init = q; } else { back = L.t.s.size(); g->init = q - back; }
        const char* al = nl; while (al > q && strncmp(al, ", align ", 8)) al--; if (al > q) g->align = atoi(al + 8); }
      globals[g->name] = g; globalList.push_back(g); }
    else if (!strncmp(p, "declare ", 8) || !strncmp(p, "define ", 7)) { bool def = p[2] == 'f'; Func* f = new Func; f->hdr = p; const char* q = p; while (q < nl && *q != '@') q++; Lex L(q, nl); f->name = L.t.s; f->defined = def; f->id = funcList.size(); f->addr = 0x10000000ull + 32ull * f->id; if (def) { f->body = nl + 1; const char* b = nl + 1; while (!(b[0] == '}' && (b[1] == '\n' || b[1] == 0))) { b = (const char*)memchr(b, '\n', end - b) + 1; } f->end = b; nl = b + 1; if (nl > end) nl = end; } funcs[f->name] = f; funcList.push_back(f); }
    p = nl + 1; }
  for (auto& d : tydefs) { Lex L(d.first, d.second); Type* t = named[L.t.s]; L.next(); L.expect('='); L.next(); /*type*/ if (L.isW("opaque")) continue; Type* s = parseType(L); *t = *s; } }
// ---------------------------------------------------------------- function decoder
static const std::map<std::string, u8> binops = {{"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"udiv", UDIV}, {"sdiv", SDIV}, {"urem", UREM}, {"srem", SREM}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"shl", SHL}, {"lshr", LSHR}, {"ashr", ASHR}};
static const std::map<std::string, u8> fbins = {{"fadd", FADD}, {"fsub", FSUB}, {"fmul", FMUL}, {"fdiv", FDIV}, {"frem", FREM}};
static const std::map<std::string, u8> preds = {{"eq", 0}, {"ne", 1}, {"ugt", 2}, {"uge", 3}, {"ult", 4}, {"ule", 5}, {"sgt", 6}, {"sge", 7}, {"slt", 8}, {"sle", 9}};
static const std::map<std::string, u8> fpreds = {{"false", 0}, {"oeq", 1}, {"ogt", 2}, {"oge", 3}, {"olt", 4}, {"ole", 5}, {"one", 6}, {"ord", 7}, {"uno", 8}, {"ueq", 9}, {"ugt", 10}, {"uge", 11}, {"ult", 12}, {"ule", 13}, {"une", 14}, {"true", 15}};
struct Dec { Func* f; std::unordered_map<std::string, std::pair<i32, u32>> regs; std::unordered_map<std::string, i32> blocks; std::vector<u32> blockStart; std::vector<std::vector<std::tuple<i32, u32, std::vector<std::pair<i32, i32>>>>> blockPhis; // per block: dst,n,(pred,src)
  i32 reg(const std::string& n, Type* t) { u32 k = leavesOf(t).size(); auto it = regs.find(n); if (it != regs.end()) { if (it->second.second != k) die("reg %s width", n.c_str()); return it->second.first; } i32 s = f->nregs; f->nregs += k; regs[n] = {s, k}; return s; }
  i32 block(const std::string& n) { auto it = blocks.find(n); if (it == blocks.end()) die("block %s in %s", n.c_str(), f->name.c_str()); return it->second; }
  i32 konst(const std::vector<u128>& v) { i32 s = f->K.size(); for (auto x : v) f->K.push_back({x, 0}); if (v.empty()) f->K.push_back({0, 0}); return ~s; }
  void skipAttrs(Lex& L) { static const std::set<std::string> vk = {"true", "false", "null", "none", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "ptrtoint", "inttoptr", "trunc", "sub", "add", "xor", "bitcast", "ptrtoaddr"}; while (L.t.k == T_WORD && !vk.count(L.t.s) && L.t.s.compare(0, 3, "f0x") && L.t.s[0] != '+' && L.t.s[0] != '-') { bool al = L.t.s == "align"; L.next(); if (L.is('(')) L.skipParens(); else if (al && L.t.k == T_INT) L.next(); } }
  i32 val(Lex& L, Type* t) { if (L.t.k == T_LOCAL) { i32 r = reg(L.t.s, t); L.next(); return r; } std::vector<u128> v; parseConst(L, t, v); return konst(v); }
  i32 edge(i32 pred, const std::string& lbl) { Edge e; e.predBlock = pred; e.succBlock = block(lbl); e.target = 0; e.ps = e.pn = 0; f->edges.push_back(e); return f->edges.size() - 1; }
  u32 leafList(Type* t) { f->lvs.push_back(leavesOf(t)); return f->lvs.size() - 1; }
};
static void typeWords(Lex& L, std::string* last = nullptr) { while (!typeStart(L)) { if (L.t.k == T_EOF) die("no type"); if (last) *last = L.t.s; L.next(); if (L.is('(')) { L.skipParens(); } } }
static bool panicName(const std::string& n) {
  static const char* pats[] = {"4core9panicking", "13unwrap_failed", "13expect_failed", "start_index_len_fail", "end_index_len_fail", "index_order_fail", "slice_index_fail", "slice_error_fail", "index_overflow_fail", "12handle_error", "17capacity_overflow", "18handle_alloc_error", "len_mismatch_fail", "13assert_failed", "9panicking11begin_panic", "19begin_panic_handler", "20rust_panic_with_hook", "panic_already", "panic_access_error", "7process5abort", "5alloc10alloc_error"};
  for (auto* p : pats) if (n.find(p) != std::string::npos) return true; return n == "abort" || n == "llvm.trap" || n == "llvm.ubsantrap" || n == "_exit" || n == "exit"; }
void decode(Func* f) {
  if (f->decoded) return; f->decoded = true; Dec D; D.f = f;
  { // args
    const char* q = f->hdr; while (*q != '@') q++; const char* nl = strchr(q, '\n'); Lex L(q, nl); L.next(); L.expect('('); while (!L.is(')')) { if (L.is('.')) { f->vararg = true; L.next(); continue; } if (L.t.k == T_WORD && L.t.s[0] == '.') { f->vararg = true; L.next(); continue; } Type* t = parseType(L); D.skipAttrs(L); if (L.t.k == T_LOCAL) { D.reg(L.t.s, t); L.next(); } else die("arg name %s", f->name.c_str()); L.eat(','); } f->nargSlots = f->nregs; }
  // split into logical lines
  std::vector<std::pair<const char*, const char*>> lines; std::vector<int> lineBlock; i32 cur = -1; const char* p = f->body; std::vector<std::string> labels; bool first = true;
  while (p < f->end) { const char* nl = (const char*)memchr(p, '\n', f->end - p); if (!nl) nl = f->end; if (nl == p || *p == ';') { p = nl + 1; continue; }
    if (*p != ' ') { const char* c = p; std::string n; if (*c == '"') { c++; const char* b = c; while (*c != '"') c++; n = unesc(b, c); } else { while (*c != ':') c++; n.assign(p, c); } cur = D.blockStart.size(); D.blocks[n] = cur; D.blockStart.push_back(0); p = nl + 1; first = false; continue; }
    if (first) { D.blocks["0entry"] = 0; D.blockStart.push_back(0); cur = 0; first = false; }
    const char* e = nl; const char* q = nl + 1; while (q < f->end && (!strncmp(q, "   ", 3) || !strncmp(q, "  ]", 3))) { const char* n2 = (const char*)memchr(q, '\n', f->end - q); e = n2; q = n2 + 1; }
    lines.push_back({p, e}); lineBlock.push_back(cur); p = q; }
  D.blockPhis.resize(D.blockStart.size()); i32 curB = -1; std::vector<i32> brIdx;
  for (size_t li = 0; li < lines.size(); li++) {
    if (lineBlock[li] != curB) { curB = lineBlock[li]; D.blockStart[curB] = f->code.size(); }
    const char* b = lines[li].first; const char* e = lines[li].second; Ins I; memset(&I, 0, sizeof I); { // debug location
      static const char pat[] = "!dbg !"; const char* s = e; const char* lim = b; while (s > lim && !(*s == '!' && !strncmp(s, pat, 6))) s--; if (s > lim) I.dbg = atoi(s + 6); }
    decoding = true; try {
    Lex L(b, e); std::string res; if (L.t.k == T_LOCAL) { res = L.t.s; L.next(); L.expect('='); }
    if (L.t.k != T_WORD) { if (L.is('#')) continue; continue; }
    std::string op = L.t.s; L.next();
    if (op == "tail" || op == "musttail" || op == "notail") { op = L.t.s; L.next(); }
    auto bi = binops.find(op);
    if (bi != binops.end()) { typeWords(L); Type* t = parseType(L); I.op = I_BIN; I.sub = bi->second; I.a = D.val(L, t); L.expect(','); I.b = D.val(L, t); I.n = leavesOf(t).size(); I.w = leavesOf(t)[0].w; I.d = D.reg(res, t); }
    else if (fbins.count(op)) { typeWords(L); Type* t = parseType(L); I.op = I_FBIN; I.sub = fbins.at(op); I.a = D.val(L, t); L.expect(','); I.b = D.val(L, t); I.n = leavesOf(t).size(); I.w = leavesOf(t)[0].w; I.d = D.reg(res, t); }
    else if (op == "fneg") { typeWords(L); Type* t = parseType(L); I.op = I_FNEG; I.a = D.val(L, t); I.n = leavesOf(t).size(); I.w = leavesOf(t)[0].w; I.d = D.reg(res, t); }
    else if (op == "icmp" || op == "fcmp") { std::string pr; typeWords(L, &pr); Type* t = parseType(L); I.op = op == "icmp" ? I_ICMP : I_FCMP; I.sub = op == "icmp" ? preds.at(pr) : fpreds.at(pr); I.a = D.val(L, t); L.expect(','); I.b = D.val(L, t); I.n = leavesOf(t).size(); I.w = leavesOf(t)[0].w; Type* rt = t->k == Type::VEC ? seqT(Type::VEC, t->n, intT(1)) : intT(1); I.d = D.reg(res, rt); }
    else if (op == "trunc" || op == "zext" || op == "sext" || op == "ptrtoint" || op == "inttoptr" || op == "bitcast" || op == "fptoui" || op == "fptosi" || op == "uitofp" || op == "sitofp" || op == "fpext" || op == "fptrunc" || op == "addrspacecast" || op == "ptrtoaddr") {
      typeWords(L); Type* t = parseType(L); I.a = D.val(L, t); if (!L.isW("to")) die("cast: %.100s", b); L.next(); Type* r = parseType(L); I.n = leavesOf(r).size(); I.w = leavesOf(r)[0].w; I.c = leavesOf(t)[0].w; I.b = leavesOf(t).size(); I.d = D.reg(res, r); u32 sw = leavesOf(t)[0].w;
      if (op == "trunc") I.op = I_TRUNC; else if (op == "zext") I.op = I_ZEXT; else if (op == "sext") I.op = I_SEXT; else if (op == "ptrtoint" || op == "inttoptr" || op == "ptrtoaddr") I.op = I.w < sw ? I_TRUNC : I.w > sw ? I_ZEXT : I_COPY; else if (op == "bitcast") I.op = I_BITCAST; else if (op == "fptoui") I.op = I_FPTOUI; else if (op == "fptosi") I.op = I_FPTOSI; else if (op == "uitofp") I.op = I_UITOFP; else if (op == "sitofp") I.op = I_SITOFP; else if (op == "fpext") I.op = I_FPEXT; else if (op == "fptrunc") I.op = I_FPTRUNC; else I.op = I_COPY; }
    else if (op == "freeze") { Type* t = parseType(L); I.op = I_COPY; I.a = D.val(L, t); I.n = leavesOf(t).size(); I.d = D.reg(res, t); }
    else if (op == "select") { typeWords(L); Type* ct = parseType(L); I.a = D.val(L, ct); L.expect(','); Type* t = parseType(L); I.b = D.val(L, t); L.expect(','); parseType(L); I.c = D.val(L, t); I.op = I_SELECT; I.n = leavesOf(t).size(); I.sub = ct->k == Type::VEC; I.ex = D.leafList(t); I.w = I.n ? leavesOf(t)[0].w : 0; I.d = D.reg(res, t); }
    else if (op == "getelementptr") { typeWords(L); Type* ty = parseType(L); L.expect(','); Type* pt = parseType(L); if (pt->k != Type::PTR) die("vector gep"); I.a = D.val(L, pt); GepEx g; g.coff = 0; Type* c = nullptr; bool firstI = true; while (L.eat(',')) { if (L.t.k == T_META) break; Type* it = parseType(L); if (it->k == Type::VEC) die("vector gep"); i64 scale; if (firstI) { scale = ty->size; c = ty; firstI = false; if (L.t.k == T_LOCAL) { g.idx.push_back({D.val(L, it), scale}); g.w.push_back(it->w); } else { u128 v = constScalar(L, it); g.coff += (i64)sx(v, it->w) * scale; } } else if (c->k == Type::STRUCT) { u64 k = (u64)constScalar(L, it); g.coff += c->foff[k]; c = c->f[k]; } else { scale = c->el->size; c = c->el; if (L.t.k == T_LOCAL) { g.idx.push_back({D.val(L, it), scale}); g.w.push_back(it->w); } else { u128 v = constScalar(L, it); g.coff += (i64)sx(v, it->w) * scale; } } } I.op = I_GEP; I.ex = f->geps.size(); f->geps.push_back(g); I.d = D.reg(res, ptrT()); }
    else if (op == "load") { I.sub = L.isW("atomic"); typeWords(L); Type* t = parseType(L); L.expect(','); Type* pt = parseType(L); I.a = D.val(L, pt); I.op = I_LOAD; I.ex = D.leafList(t); I.n = leavesOf(t).size(); I.w = I.n ? leavesOf(t)[0].w : 0; I.d = D.reg(res, t); if (t->k == Type::VEC && t->el->w % 8) { u32 bits = t->n * t->el->w; if (bits % 8 || bits > 128) die("bit vector load"); Type* it = intT(bits); Ins Ld = I; Ld.ex = D.leafList(it); Ld.n = 1; Ld.w = bits; Ld.d = f->nregs++; f->code.push_back(Ld); I.op = I_BITCAST; I.a = Ld.d; I.n = t->n; I.w = t->el->w; I.c = bits; I.b = 1; } }
    else if (op == "store") { I.sub = L.isW("atomic"); typeWords(L); Type* t = parseType(L); I.b = D.val(L, t); L.expect(','); Type* pt = parseType(L); I.a = D.val(L, pt); I.op = I_STORE; I.ex = D.leafList(t); I.n = leavesOf(t).size(); I.w = I.n ? leavesOf(t)[0].w : 0; if (t->k == Type::VEC && t->el->w % 8) { u32 bits = t->n * t->el->w; if (bits % 8 || bits > 128) die("bit vector store"); Type* it = intT(bits); Ins B = I; B.op = I_BITCAST; B.a = I.b; B.n = 1; B.w = bits; B.c = t->el->w; B.b = t->n; B.d = f->nregs++; f->code.push_back(B); I.b = B.d; I.ex = D.leafList(it); I.n = 1; I.w = bits; } }
    else if (op == "alloca") { typeWords(L); Type* t = parseType(L); I.op = I_ALLOCA; I.b = (i32)t->size; I.a = 0; I.c = t->align; I.sub = 0; while (L.eat(',')) { if (L.isW("align")) { L.next(); I.c = atoi(L.t.s.c_str()); L.next(); } else if (typeStart(L)) { Type* nt = parseType(L); I.a = D.val(L, nt); I.sub = 1; } else break; } I.d = D.reg(res, ptrT()); }
    else if (op == "phi") { typeWords(L); Type* t = parseType(L); i32 d = D.reg(res, t); std::vector<std::pair<i32, i32>> inc; while (L.is('[')) { L.next(); i32 s = D.val(L, t); L.expect(','); std::string lb = L.t.s; L.next(); L.expect(']'); auto it = D.blocks.find(lb); i32 bk; if (it == D.blocks.end()) { bk = 0; } else bk = it->second; inc.push_back({bk, s}); if (!L.eat(',')) break; } D.blockPhis[curB].push_back({d, (u32)leavesOf(t).size(), inc}); continue; }
    else if (op == "br") { Type* t = parseType(L); if (t->k == Type::LABEL) { I.op = I_BR; I.ex = D.edge(curB, L.t.s); } else { I.op = I_CBR; I.a = D.val(L, t); L.expect(','); L.next(); I.b = D.edge(curB, L.t.s); L.next(); L.expect(','); L.next(); I.c = D.edge(curB, L.t.s); } }
    else if (op == "switch") { Type* t = parseType(L); I.op = I_SWITCH; I.w = t->w; I.a = D.val(L, t); L.expect(','); L.next(); SwEx s; s.def = D.edge(curB, L.t.s); L.next(); L.expect('['); while (!L.is(']')) { Type* ct = parseType(L); u128 v = constScalar(L, ct); L.expect(','); L.next(); s.cases.push_back({v, (u32)D.edge(curB, L.t.s)}); L.next(); } I.ex = f->sws.size(); f->sws.push_back(s); }
    else if (op == "ret") { Type* t = parseType(L); I.op = I_RET; if (t->k == Type::VOID) I.n = 0; else { I.a = D.val(L, t); I.n = leavesOf(t).size(); } }
    else if (op == "unreachable") I.op = I_UNREACH;
    else if (op == "call" || op == "invoke") { CallEx c; typeWords(L); c.ret = parseType(L); if (L.is('(')) L.skipParens(); // function type
      if (L.isW("asm")) { while (L.t.k != T_STR && L.t.k != T_EOF) L.next(); std::string txt = L.t.s; L.next(); L.expect(','); L.next(); c.name = "asm"; c.intr = -2; bool div = !txt.compare(0, 7, "div ${2");
        if (!txt.empty() && !div && txt.find("cpuid") == std::string::npos && txt.find("xgetbv") == std::string::npos) throw DecodeError{"inline assembly"}; // empty: a compiler barrier; cpuid: a CPU without optional features
        if (div) { c.intr = -3; L.expect('('); while (!L.is(')')) { Type* t = parseType(L); D.skipAttrs(L); c.args.push_back(D.val(L, t)); c.argT.push_back(t); L.eat(','); } }
        I.op = I_CALL; I.ex = f->calls.size(); if (!res.empty()) I.d = D.reg(res, c.ret); I.n = leavesOf(c.ret).size(); f->calls.push_back(c); f->code.push_back(I); continue; }
      if (L.t.k == T_GLOBAL) { c.name = L.t.s; L.next(); } else { c.indirect = true; c.fp = D.val(L, ptrT()); }
      L.expect('('); while (!L.is(')')) { Type* t = parseType(L); if (t->k == Type::META) { int d = 0; while (!((L.is(',') || L.is(')')) && d == 0)) { if (L.is('(')) d++; if (L.is(')')) d--; L.next(); } } else { D.skipAttrs(L); if (L.t.k == T_WORD && L.t.s == "metadata") {} c.args.push_back(D.val(L, t)); c.argT.push_back(t); } L.eat(','); } L.next();
      if (op == "invoke") { while (!L.isW("to")) L.next(); L.next(); L.next(); c.normalEdge = D.edge(curB, L.t.s); }
      I.op = I_CALL; I.n = leavesOf(c.ret).size(); I.d = -1; if (!res.empty() && c.ret->k != Type::VOID) I.d = D.reg(res, c.ret); I.ex = f->calls.size(); f->calls.push_back(c); }
    else if (op == "extractvalue") { Type* t = parseType(L); i32 v = D.val(L, t); u64 off = 0; Type* c = t; while (L.eat(',')) { if (L.t.k != T_INT) break; u64 k = strtoull(L.t.s.c_str(), 0, 10); L.next(); if (c->k == Type::STRUCT) { for (u64 i = 0; i < k; i++) off += leavesOf(c->f[i]).size(); c = c->f[k]; } else { off += k * leavesOf(c->el).size(); c = c->el; } } I.op = I_COPY; I.a = v >= 0 ? v + (i32)off : ~(~v + (i32)off); I.n = leavesOf(c).size(); I.d = D.reg(res, c); }
    else if (op == "insertvalue") { Type* t = parseType(L); I.a = D.val(L, t); L.expect(','); Type* et = parseType(L); I.b = D.val(L, et); u64 off = 0; Type* c = t; while (L.eat(',')) { if (L.t.k != T_INT) break; u64 k = strtoull(L.t.s.c_str(), 0, 10); L.next(); if (c->k == Type::STRUCT) { for (u64 i = 0; i < k; i++) off += leavesOf(c->f[i]).size(); c = c->f[k]; } else { off += k * leavesOf(c->el).size(); c = c->el; } } I.op = I_INSERTVAL; I.c = off; I.ex = leavesOf(c).size(); I.n = leavesOf(t).size(); I.d = D.reg(res, t); }
    else if (op == "extractelement") { Type* t = parseType(L); I.a = D.val(L, t); L.expect(','); Type* it = parseType(L); I.b = D.val(L, it); I.op = I_EXTRACTELT; I.n = t->n; I.d = D.reg(res, t->el); }
    else if (op == "insertelement") { Type* t = parseType(L); I.a = D.val(L, t); L.expect(','); Type* et = parseType(L); I.b = D.val(L, et); L.expect(','); Type* it = parseType(L); I.c = D.val(L, it); I.op = I_INSERTELT; I.n = t->n; I.d = D.reg(res, t); }
    else if (op == "shufflevector") { Type* t = parseType(L); I.a = D.val(L, t); L.expect(','); parseType(L); I.b = D.val(L, t); L.expect(','); Type* mt = parseType(L); std::vector<u128> m; parseConst(L, mt, m); std::vector<i32> ml; for (auto x : m) ml.push_back((i32)x); I.ex = f->lists.size(); f->lists.push_back(ml); I.op = I_SHUFFLE; I.n = mt->n; I.c = t->n; I.d = D.reg(res, seqT(Type::VEC, mt->n, t->el)); }
    else if (op == "atomicrmw") { if (L.isW("volatile")) L.next(); std::string o = L.t.s; L.next(); Type* pt = parseType(L); I.a = D.val(L, pt); L.expect(','); Type* t = parseType(L); I.b = D.val(L, t); I.op = I_RMW; I.w = leavesOf(t)[0].w; static const std::map<std::string, u8> ro = {{"xchg", 0}, {"add", 1}, {"sub", 2}, {"and", 3}, {"or", 4}, {"xor", 5}, {"nand", 6}, {"umax", 7}, {"umin", 8}, {"max", 9}, {"min", 10}}; I.sub = ro.at(o); I.d = D.reg(res, t); }
    else if (op == "cmpxchg") { while (L.t.k == T_WORD && !L.isW("ptr")) L.next(); Type* pt = parseType(L); I.a = D.val(L, pt); L.expect(','); Type* t = parseType(L); I.b = D.val(L, t); L.expect(','); parseType(L); I.c = D.val(L, t); I.op = I_CMPXCHG; I.w = leavesOf(t)[0].w; I.d = D.reg(res, structT({t, intT(1)}, false)); }
    else if (op == "fence") continue;
    else { throw DecodeError{"instruction"}; /* landingpad, resume: exception paths are never entered */ }
    } catch (DecodeError& x) { decoding = false; I.op = I_BADOP; I.ex = badOps.size(); badOps.push_back(f->name + ": " + x.what + ": " + std::string(b, std::min<size_t>(e - b, 120))); } // reported when executed
    f->code.push_back(I); }
  decoding = false;
  for (auto& ed : f->edges) { ed.target = D.blockStart[ed.succBlock]; ed.ps = f->phis.size(); for (auto& ph : D.blockPhis[ed.succBlock]) { bool ok = false; for (auto& in : std::get<2>(ph)) if (in.first == ed.predBlock) { f->phis.push_back({std::get<0>(ph), in.second, std::get<1>(ph)}); ok = true; break; } if (!ok) die("phi without incoming edge in %s", f->name.c_str()); } ed.pn = f->phis.size() - ed.ps; } }
bool isPanicName(const std::string& n) { return panicName(n); }
