// Reader for the textual LLVM IR that rustc emits (whole program, after fat LTO). Function bodies are parsed on first use.
#pragma once
#include "expr.h"
#include <string_view>
#include <unordered_set>

struct Type { enum K { VOID, INT, PTR, FLOAT, STRUCT, ARRAY, VECTOR, META, LABEL, OPAQUE } k; unsigned bits = 0; u64 n = 0; Type* el = nullptr; std::vector<Type*> f; std::vector<u64> off; bool packed = false; u64 size = 0, align = 1; };

struct Value { Expr* e = nullptr; std::shared_ptr<std::vector<Value>> agg; };

struct Operand { int reg = -1; Value v; Type* ty = nullptr; };

enum IOp : u8 { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_ICMP, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_PHI, I_CAST, I_EXTRACTVALUE, I_INSERTVALUE, I_EXTRACTELEM, I_INSERTELEM, I_SHUFFLE, I_FREEZE, I_CMPXCHG, I_RMW, I_FENCE, I_FBIN, I_FCMP, I_UNSUPPORTED, I_NOP };
enum Cast : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_BITCAST, C_FP };
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Inst {
  IOp op; u8 sub = 0; int dest = -1; u32 dbg = 0; Type* ty = nullptr; Type* ty2 = nullptr;
  std::vector<Operand> a; std::vector<u64> idx; // idx: extract/insertvalue indices, GEP: [const offset]; switch targets etc.
  std::vector<u32> tgt; std::vector<u128> cases; std::string text; u64 extra = 0;
  std::vector<u64> scale;
  struct Function* callee = nullptr;
};
struct Block { std::string name; std::vector<Inst> in; };
struct Function { std::string name; bool defined = false, parsed = false; size_t bpos = 0, bend = 0; size_t hpos = 0; u64 addr = 0; Type* ret = nullptr; std::vector<int> argRegs; std::vector<std::string> argNames; int nregs = 0; std::vector<Block> bl; int extId = -1; bool hit = false; };
struct Global { std::string name; u64 addr = 0; u64 size = 0, align = 1; bool ro = false; bool external = false; size_t ipos = 0, iend = 0; Type* ty = nullptr; std::vector<u8> bytes; bool inited = false; };

struct ParseErr { std::string m; };

struct Module {
  ExprMgr& X; std::string src; std::unordered_map<std::string, Function*> fn; std::unordered_map<std::string, Global*> gl; std::unordered_map<std::string, std::string> alias; std::vector<Global*> globals; std::unordered_map<std::string, Type*> named; std::map<u64, Function*> fnByAddr;
  std::unordered_map<u32, size_t> mdPos;
  std::map<std::string, Type*> tyCache;
  u64 nextFn = 0x100000, nextGl = 0x10000000;
  Module(ExprMgr& x) : X(x) {}
  Type *tI(unsigned b) { std::string k = "i" + std::to_string(b); auto& t = tyCache[k]; if (!t) { t = new Type{Type::INT}; t->bits = b; t->size = (b + 7) / 8; u64 s = 1; while (s < t->size) s *= 2; t->size = s; t->align = std::min<u64>(s, 16); } return t; }
  Type *tPtr() { auto& t = tyCache["ptr"]; if (!t) { t = new Type{Type::PTR}; t->bits = 64; t->size = 8; t->align = 8; } return t; }
  Type *tK(const char* n, Type::K k, unsigned bits = 0) { auto& t = tyCache[n]; if (!t) { t = new Type{k}; t->bits = bits; t->size = bits / 8; t->align = t->size ? t->size : 1; } return t; }

  struct Cur { const char* p; const char* e; Module* M;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
    void wsl() { while (p < e && (*p == ' ' || *p == '\t')) p++; }
    bool is(char c) { ws(); return p < e && *p == c; }
    bool eat(char c) { ws(); if (p < e && *p == c) { p++; return true; } return false; }
    void need(char c) { if (!eat(c)) throw ParseErr{std::string("expected ") + c + " at: " + std::string(p, std::min<size_t>(60, e - p))}; }
    bool eatw(const char* w) { ws(); size_t n = strlen(w); if ((size_t)(e - p) >= n && !memcmp(p, w, n) && (p + n == e || !(isalnum(p[n]) || p[n] == '_' || p[n] == '.'))) { p += n; return true; } return false; }
    bool peekw(const char* w) { const char* s = p; bool r = eatw(w); p = s; return r; }
    std::string word() { ws(); const char* s = p; while (p < e && (isalnum(*p) || *p == '_' || *p == '.')) p++; return std::string(s, p); }
    std::string ident() { // after % or @ : name, quoted or plain
      if (p < e && *p == '"') { p++; const char* s = p; while (*p != '"') p++; std::string r(s, p); p++; return r; }
      const char* s = p; while (p < e && (isalnum(*p) || *p == '_' || *p == '.' || *p == '$' || *p == '-')) p++; return std::string(s, p); }
    void skipParens() { ws(); if (p < e && *p == '(') { int d = 0; do { if (*p == '(') d++; else if (*p == ')') d--; else if (*p == '"') { p++; while (*p != '"') p++; } p++; } while (d && p < e); } }
    bool typeStart() { ws(); if (p >= e) return false; char c = *p; if (c == '{' || c == '<' || c == '[' || c == '%') return true;
      if (c == 'i' && p + 1 < e && isdigit(p[1])) return true;
      return peekw("ptr") || peekw("void") || peekw("float") || peekw("double") || peekw("half") || peekw("fp128") || peekw("x86_fp80") || peekw("metadata") || peekw("label") || peekw("token") || peekw("opaque"); }
    void skipAttrsToType() { for (;;) { ws(); if (typeStart()) return; if (p < e && (isalpha(*p) || *p == '_')) { std::string w = word(); if (w == "align" || w == "cc") { wsl(); if (p < e && isdigit(*p)) word(); } skipParens(); continue; } if (p < e && *p == '#') { p++; word(); continue; } if (p < e && *p == '"') { p++; while (*p != '"') p++; p++; if (p < e && *p == '=') { p += 2; while (*p != '"') p++; p++; } continue; } throw ParseErr{"attrs at: " + std::string(p, std::min<size_t>(60, e - p))}; } }
    bool valueStart() { ws(); if (p >= e) return false; char c = *p; if (c == '%' || c == '@' || c == '-' || isdigit(c) || c == '{' || c == '[' || c == '<' || (c == 'c' && p + 1 < e && p[1] == '"') || c == '!') return true;
      static const char* kw[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "ptrtoaddr", "inttoptr", "splat", "none", "sub", "add", "trunc", "bitcast", "xor", "mul", "blockaddress", "asm", "no_cfi", "dso_local_equivalent", nullptr};
      for (int i = 0; kw[i]; i++) if (peekw(kw[i])) return true; return false; }
    void skipAttrsToValue() { for (;;) { if (valueStart()) return; ws(); if (p < e && (isalpha(*p) || *p == '_')) { std::string w = word(); if (w == "align") { wsl(); if (p < e && isdigit(*p)) word(); } skipParens(); continue; } if (p < e && *p == '"') { p++; while (*p != '"') p++; p++; if (p < e && *p == '=') { p += 2; while (*p != '"') p++; p++; } continue; } throw ParseErr{"vattrs at: " + std::string(p, std::min<size_t>(60, e - p))}; } }
  };
  Type* mkStruct(const std::vector<Type*>& f, bool packed) { std::string k = packed ? "<{" : "{"; char b[32]; for (auto t : f) { snprintf(b, 32, "%p,", (void*)t); k += b; } auto& t = tyCache[k]; if (t) return t; t = new Type{Type::STRUCT}; t->f = f; t->packed = packed; u64 o = 0, al = 1; for (auto x : f) { if (!packed) { o = (o + x->align - 1) / x->align * x->align; al = std::max(al, x->align); } t->off.push_back(o); o += x->size; } t->align = al; t->size = (o + al - 1) / al * al; return t; }
  Type* mkArr(Type::K kk, u64 n, Type* el) { char b[64]; snprintf(b, 64, "%d[%llu]%p", kk, (unsigned long long)n, (void*)el); auto& t = tyCache[b]; if (t) return t; t = new Type{kk}; t->n = n; t->el = el; if (kk == Type::ARRAY) { t->size = n * el->size; t->align = el->align; } else { t->size = el->k == Type::INT ? (n * el->bits + 7) / 8 : n * el->size; u64 s = 1; while (s < t->size) s *= 2; t->align = s; } return t; }
  Type* type(Cur& c) {
    c.ws(); char ch = *c.p; Type* r = nullptr;
    if (ch == 'i' && isdigit(c.p[1])) { c.p++; r = tI(atoi(c.word().c_str())); }
    else if (ch == '{') { c.p++; std::vector<Type*> f; while (!c.eat('}')) { f.push_back(type(c)); c.eat(','); } r = mkStruct(f, false); }
    else if (ch == '[') { c.p++; u64 n = strtoull(c.word().c_str(), 0, 10); c.eatw("x"); Type* t = type(c); c.need(']'); r = mkArr(Type::ARRAY, n, t); }
    else if (ch == '<') { c.p++; if (c.is('{')) { c.p++; std::vector<Type*> f; while (!c.eat('}')) { f.push_back(type(c)); c.eat(','); } c.need('>'); r = mkStruct(f, true); } else { u64 n = strtoull(c.word().c_str(), 0, 10); c.eatw("x"); Type* t = type(c); c.need('>'); r = mkArr(Type::VECTOR, n, t); } }
    else if (ch == '%') { c.p++; std::string n = c.ident(); auto it = named.find(n); if (it == named.end()) throw ParseErr{"named type " + n}; r = it->second; }
    else if (c.eatw("ptr")) { if (c.eatw("addrspace")) c.skipParens(); r = tPtr(); }
    else if (c.eatw("void")) r = tK("void", Type::VOID); else if (c.eatw("float")) r = tK("float", Type::FLOAT, 32); else if (c.eatw("double")) r = tK("double", Type::FLOAT, 64);
    else if (c.eatw("half")) r = tK("half", Type::FLOAT, 16); else if (c.eatw("fp128")) r = tK("fp128", Type::FLOAT, 128); else if (c.eatw("x86_fp80")) r = tK("x86_fp80", Type::FLOAT, 128);
    else if (c.eatw("metadata")) r = tK("metadata", Type::META); else if (c.eatw("label")) r = tK("label", Type::LABEL); else if (c.eatw("token")) r = tK("token", Type::META); else if (c.eatw("opaque")) r = tK("opaque", Type::OPAQUE);
    else throw ParseErr{"type at: " + std::string(c.p, std::min<size_t>(60, c.e - c.p))};
    return r;
  }
  Value zeroV(Type* t) { Value v; if (t->k == Type::STRUCT) { v.agg = std::make_shared<std::vector<Value>>(); for (auto f : t->f) v.agg->push_back(zeroV(f)); } else if (t->k == Type::ARRAY || t->k == Type::VECTOR) { v.agg = std::make_shared<std::vector<Value>>(t->n, zeroV(t->el)); } else v.e = X.C(0, t->bits ? t->bits : 1); return v; }
  u64 symAddr(const std::string& n) { auto a = alias.find(n); if (a != alias.end()) return symAddr(a->second); auto g = gl.find(n); if (g != gl.end()) return g->second->addr; auto f = fn.find(n); if (f != fn.end()) return f->second->addr; throw ParseErr{"unknown symbol " + n}; }
  static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
  std::string cstr(Cur& c) { // at "
    c.need('"'); std::string r; while (*c.p != '"') { if (*c.p == '\\' && c.p[1] == '\\') { r.push_back('\\'); c.p += 2; } else if (*c.p == '\\') { r.push_back((char)(hexv(c.p[1]) * 16 + hexv(c.p[2]))); c.p += 3; } else r.push_back(*c.p++); } c.p++; return r; }
  // constant (no registers)
  Value constant(Cur& c, Type* t) {
    c.ws(); Value v; char ch = *c.p;
    if (c.eatw("zeroinitializer") || c.eatw("null") || c.eatw("undef") || c.eatw("poison") || c.eatw("none")) return zeroV(t);
    if (c.eatw("true")) { v.e = X.C(1, 1); return v; } if (c.eatw("false")) { v.e = X.C(0, 1); return v; }
    if (ch == '@') { c.p++; v.e = X.C(symAddr(c.ident()), 64); return v; }
    if (c.eatw("splat")) { c.need('('); Type* et = type(c); Value x = constant(c, et); c.need(')'); v.agg = std::make_shared<std::vector<Value>>(t->n, x); return v; }
    if (ch == 'c' && c.p[1] == '"') { c.p++; std::string s = cstr(c); v.agg = std::make_shared<std::vector<Value>>(); for (char x : s) { Value y; y.e = X.C((u8)x, 8); v.agg->push_back(y); } return v; }
    if (ch == '[' || ch == '{' || ch == '<') { c.p++; bool pk = ch == '<' && c.eat('{'); char close = ch == '[' ? ']' : ch == '{' ? '}' : '>'; v.agg = std::make_shared<std::vector<Value>>();
      if (pk) { while (!c.eat('}')) { Type* et = type(c); v.agg->push_back(constant(c, et)); c.eat(','); } c.need('>'); }
      else while (!c.eat(close)) { Type* et = type(c); v.agg->push_back(constant(c, et)); c.eat(','); }
      return v; }
    if (c.eatw("getelementptr")) { while (!c.is('(')) { c.word(); if (c.is('(') ) { const char* s = c.p; // inrange(...)
            Cur d = c; d.p++; if (!d.typeStart()) { c.skipParens(); continue; } c.p = s; break; } }
      c.need('('); Type* bt = type(c); c.need(','); Type* pt = type(c); Value b = constant(c, pt); u64 off = 0; bool first = true; Type* cur = bt;
      while (c.eat(',')) { Type* it = type(c); Value iv = constant(c, it); i64 ix = (i64)sextw(iv.e->c, iv.e->width); if (first) { off += ix * (i64)cur->size; first = false; } else if (cur->k == Type::STRUCT) { off += cur->off[ix]; cur = cur->f[ix]; } else { cur = cur->el; off += ix * (i64)cur->size; } }
      c.need(')'); v.e = X.C((u64)b.e->c + off, 64); return v; }
    for (const char* w : {"ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "trunc"}) if (c.eatw(w)) { while (!c.is('(')) c.word(); c.need('('); Type* ft = type(c); Value x = constant(c, ft); c.eatw("to"); Type* tt = type(c); c.need(')'); if (x.agg) throw ParseErr{"const cast agg"}; v.e = X.C(x.e->c, tt->bits); return v; }
    for (const char* w : {"sub", "add", "xor", "mul"}) if (c.eatw(w)) { while (!c.is('(')) c.word(); c.need('('); Type* at = type(c); Value x = constant(c, at); c.need(','); Type* bt = type(c); Value y = constant(c, bt); c.need(')'); Op o = !strcmp(w, "sub") ? O_SUB : !strcmp(w, "add") ? O_ADD : !strcmp(w, "xor") ? O_XOR : O_MUL; v.e = X.bin(o, x.e, y.e); return v; }
    if (t->k == Type::FLOAT) { // decimal or 0x hex
      const char* s = c.p; while (c.p < c.e && (isalnum(*c.p) || *c.p == '.' || *c.p == '+' || *c.p == '-')) c.p++; std::string w(s, c.p); double d; if (w.size() > 2 && w[0] == '0' && w[1] == 'x') { u64 b = strtoull(w.c_str() + (isxdigit(w[2]) ? 2 : 3), 0, 16); memcpy(&d, &b, 8); } else d = atof(w.c_str());
      if (t->bits == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); v.e = X.C(b, 32); } else { u64 b; memcpy(&b, &d, 8); v.e = X.C(b, t->bits == 64 ? 64 : t->bits); } return v; }
    if (ch == '-' || isdigit(ch)) { bool neg = false; if (ch == '-') { neg = true; c.p++; } u128 x = 0; if (!isdigit(*c.p)) throw ParseErr{"num"}; while (c.p < c.e && isdigit(*c.p)) x = x * 10 + (*c.p++ - '0'); if (neg) x = (u128)0 - x; v.e = X.C(x, t->bits); return v; }
    throw ParseErr{"constant at: " + std::string(c.p, std::min<size_t>(80, c.e - c.p))};
  }
  // ---------------------------------------------------------------- top level
  void load(const char* path) {
    FILE* f = fopen(path, "rb"); if (!f) { perror(path); exit(3); } fseek(f, 0, SEEK_END); size_t n = ftell(f); rewind(f); src.resize(n); if (fread(&src[0], 1, n, f) != n) exit(3); fclose(f);
    size_t p = 0; const char* S = src.data();
    std::vector<std::pair<std::string, size_t>> tys, als;
    while (p < n) {
      size_t e = src.find('\n', p); if (e == std::string::npos) e = n;
      if (S[p] == '@') topGlobal(p, e);
      else if (S[p] == '%') { size_t q = src.find(" = type", p); if (q != std::string::npos && q < e) { Cur c{S + p + 1, S + e, this}; std::string nm = c.ident(); c.p = S + q + 7; named[nm] = new Type{Type::OPAQUE}; tys.push_back({nm, (size_t)(c.p - S)}); } }
      else if (!strncmp(S + p, "define ", 7)) { size_t be = src.find("\n}\n", e); if (be == std::string::npos) be = n; topFn(p, e, true, be); e = be + 2; }
      else if (!strncmp(S + p, "declare ", 8)) topFn(p, e, false, 0);
      else if (S[p] == '!' && isdigit(S[p + 1])) mdPos[atoi(S + p + 1)] = p;
      p = e + 1;
    }
    for (auto& t : tys) { Cur c{S + t.second, S + src.find('\n', t.second), this}; Type* r = type(c); *named[t.first] = *r; }
    for (auto g : globals) { Cur c{S + g->ipos, S + g->iend, this}; g->ty = type(c); g->ipos = c.p - S; g->size = std::max<u64>(g->ty->size, g->external ? 64 : 0); u64 al = std::max<u64>(16, g->align); nextGl = (nextGl + al - 1) / al * al; g->addr = nextGl; nextGl += std::max<u64>(g->size, 1) + 32; }
  }
  void topGlobal(size_t p, size_t e) {
    const char* S = src.data(); Cur c{S + p + 1, S + e, this}; std::string nm = c.ident(); c.ws(); c.need('='); bool ext = false;
    for (;;) { c.ws(); if (c.eatw("global")) break; if (c.eatw("constant")) { Global* g = new Global; g->ro = true; fin(g, nm, c, e, ext); return; } if (c.eatw("alias")) { // type, ptr @x
        const char* at = c.p; while (c.p < c.e && *c.p != '@') c.p++; if (c.p < c.e) { c.p++; alias[nm] = c.ident(); } (void)at; return; }
      if (c.eatw("external") || c.eatw("extern_weak")) { ext = true; continue; } std::string w = c.word(); if (w.empty()) { throw ParseErr{"global " + nm}; } c.skipParens(); }
    Global* g = new Global; fin(g, nm, c, e, ext);
  }
  void fin(Global* g, const std::string& nm, Cur& c, size_t e, bool ext) { g->name = nm; g->external = ext; g->ipos = c.p - src.data(); g->iend = e; size_t a = src.rfind(", align ", e); if (a != std::string::npos && a > g->ipos) g->align = atoi(src.c_str() + a + 8); gl[nm] = g; globals.push_back(g); }
  void initGlobal(Global* g) { if (g->inited) return; g->inited = true; g->bytes.assign(g->size, 0); if (g->external) return; Cur c{src.data() + g->ipos, src.data() + g->iend, this}; emit(c, g->ty, g->bytes.data()); }
  // write constant directly to bytes (fast path for big tables)
  void emit(Cur& c, Type* t, u8* out) {
    c.ws(); char ch = *c.p;
    if (ch == 'c' && c.p[1] == '"') { c.p++; std::string s = cstr(c); if (s.size() != t->size) throw ParseErr{"string constant of the wrong length"}; memcpy(out, s.data(), s.size()); return; }
    if (c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison")) return;
    if (t->k == Type::ARRAY && ch == '[') { c.p++; u64 i = 0; while (!c.eat(']')) { Type* et = type(c); emit(c, et, out + i * t->el->size); i++; c.eat(','); } return; }
    if (t->k == Type::STRUCT && (ch == '<' || ch == '{')) { c.p++; if (ch == '<') c.need('{'); u64 i = 0; while (!c.eat('}')) { Type* et = type(c); emit(c, et, out + t->off[i]); i++; c.eat(','); } if (ch == '<') c.need('>'); return; }
    Value v = constant(c, t); store(v, t, out);
  }
  void store(const Value& v, Type* t, u8* out) { if (v.agg) { for (size_t i = 0; i < v.agg->size(); i++) { Type* et = t->k == Type::STRUCT ? t->f[i] : t->el; store((*v.agg)[i], et, out + (t->k == Type::STRUCT ? t->off[i] : i * et->size)); } } else { u128 x = v.e->c; for (u64 i = 0; i < t->size; i++) out[i] = (u8)(i < 16 ? (x >> (8 * i)) : 0); } }
  void topFn(size_t p, size_t e, bool def, size_t be) {
    const char* S = src.data(); size_t at = src.find('@', p); // the first @ may be inside attrs? return attrs never contain @
    Cur c{S + at + 1, S + e, this}; std::string nm = c.ident(); Function* f = new Function; f->name = nm; f->defined = def; f->hpos = p; f->bpos = e + 1; f->bend = be; f->addr = nextFn; nextFn += 16; fn[nm] = f; fnByAddr[f->addr] = f;
  }
  // ---------------------------------------------------------------- function bodies
  struct FCtx { std::unordered_map<std::string, int> reg; std::unordered_map<std::string, int> blk; int nregs = 0; int r(const std::string& n) { auto it = reg.find(n); if (it != reg.end()) return it->second; return reg[n] = nregs++; } };
  Operand operand(Cur& c, Type* t, FCtx& F) { c.skipAttrsToValue(); Operand o; o.ty = t; c.ws(); if (*c.p == '%') { c.p++; o.reg = F.r(c.ident()); return o; } if (t->k == Type::META || *c.p == '!') { o.v.e = X.C(0, 1); // skip metadata operand
      int d = 0; while (c.p < c.e) { if (*c.p == '(' ) d++; if (*c.p == ')') { if (!d) break; d--; } if (*c.p == ',' && !d) break; c.p++; } return o; }
    // vectors/aggs with regs don't occur in IR
    o.v = constant(c, t); return o; }
  Operand topnd(Cur& c, FCtx& F) { Type* t = type(c); return operand(c, t, F); }
  void parseFn(Function* f) {
    if (f->parsed) return; f->parsed = true; const char* S = src.data(); FCtx F;
    // header: return type & args
    { size_t he = f->bpos - 1; Cur c{S + f->hpos + 7, S + he, this}; c.skipAttrsToType(); f->ret = type(c); c.ws(); while (*c.p != '@') c.p++; c.p++; c.ident(); c.need('('); int unnamed = 0;
      while (!c.eat(')')) { if (c.eatw("...")) continue; Type* t = type(c); (void)t; // attrs then %name
        for (;;) { c.ws(); if (*c.p == '%') { c.p++; std::string n = c.ident(); f->argRegs.push_back(F.r(n)); if (isdigit(n[0])) unnamed++; break; } if (*c.p == ',' || *c.p == ')') { throw ParseErr{"arg without name"}; } if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (*c.p == '=') { c.p += 2; while (*c.p != '"') c.p++; c.p++; } continue; } std::string w = c.word(); if (w.empty()) throw ParseErr{"arg attr"}; if (w == "align") { c.wsl(); if (isdigit(*c.p)) c.word(); } c.skipParens(); }
        c.eat(','); }
      f->ret = f->ret; F.blk.clear(); f->bl.clear();
      // pass 1: block labels
      size_t p = f->bpos; bool first = true; 
      while (p < f->bend) { size_t e = src.find('\n', p); if (e > f->bend) e = f->bend; if (e > p && S[p] != ' ' && S[p] != ';' && S[p] != '}' && S[p] != '\t') { Cur l{S + p, S + e, this}; std::string n = l.ident(); if (first && f->bl.empty()) {} F.blk[n] = f->bl.size(); Block b; b.name = n; f->bl.push_back(b); first = false; }
        else if (first && e > p && S[p] == ' ') { std::string n = std::to_string(unnamed); F.blk[n] = 0; Block b; b.name = n; f->bl.push_back(b); first = false; }
        p = e + 1; }
    }
    size_t p = f->bpos; int cb = -1; bool started = false;
    while (p < f->bend) {
      size_t e = src.find('\n', p); if (e > f->bend) e = f->bend;
      if (e == p) { p = e + 1; continue; }
      if (S[p] != ' ' && S[p] != '\t') { if (S[p] != ';' && S[p] != '}') { cb++; started = true; } p = e + 1; continue; }
      if (!started) { cb = 0; started = true; }
      size_t q = p; while (S[q] == ' ' || S[q] == '\t') q++;
      if (S[q] == ';' || S[q] == '#') { p = e + 1; continue; }
      // multi-line constructs
      std::string_view ln(S + q, e - q);
      if (ln.find(" switch ") != std::string_view::npos || ln.substr(0, 7) == "switch ") { if (ln.find(']') == std::string_view::npos || ln.rfind('[') > ln.rfind(']')) { size_t z = src.find("\n  ]", e); e = src.find('\n', z + 1); } }
      else if (ln.find("invoke ") != std::string_view::npos && (ln.substr(0, 7) == "invoke " || ln.find(" = invoke ") != std::string_view::npos)) { size_t z = src.find('\n', e + 1); e = z; }
      Inst in; const char* ls = S + q; const char* le = S + e;
      // dbg id
      { std::string_view l2(ls, le - ls); size_t d = l2.rfind("!dbg !"); if (d != std::string_view::npos) in.dbg = atoi(ls + d + 6); }
      try { inst(Cur{ls, le, this}, in, F, f); } catch (ParseErr& er) { in = Inst(); in.op = I_UNSUPPORTED; in.text = er.m + " :: " + std::string(ls, std::min<size_t>(200, le - ls)); }
      f->bl[cb].in.push_back(std::move(in));
      p = e + 1;
    }
    f->nregs = F.nregs;
  }
  static bool flag(Cur& c) { static const char* fl[] = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", nullptr}; for (int i = 0; fl[i]; i++) if (c.eatw(fl[i])) return true; if (c.peekw("inrange")) { c.word(); c.skipParens(); return true; } return false; }
  u32 label(Cur& c, FCtx& F) { c.eatw("label"); c.need('%'); std::string n = c.ident(); auto it = F.blk.find(n); if (it == F.blk.end()) throw ParseErr{"label " + n}; return it->second; }
  void inst(Cur c, Inst& in, FCtx& F, Function* f) {
    c.ws(); if (*c.p == '%') { c.p++; std::string n = c.ident(); c.ws(); c.need('='); in.dest = F.r(n); }
    c.eatw("tail") || c.eatw("musttail") || c.eatw("notail");
    std::string w = c.word();
    static std::unordered_map<std::string, int> bin = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}};
    auto b = bin.find(w);
    if (b != bin.end()) { in.op = I_BIN; in.sub = b->second; while (flag(c)); in.ty = type(c); in.a.push_back(operand(c, in.ty, F)); c.need(','); in.a.push_back(operand(c, in.ty, F)); return; }
    if (w == "icmp") { in.op = I_ICMP; while (flag(c)); std::string p = c.word(); static const char* ps[] = {"eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"}; int i; for (i = 0; i < 10; i++) if (p == ps[i]) break; in.sub = i; in.ty = type(c); in.a.push_back(operand(c, in.ty, F)); c.need(','); in.a.push_back(operand(c, in.ty, F)); return; }
    if (w == "load") { in.op = I_LOAD; bool at = c.eatw("atomic"); (void)at; while (flag(c)); in.ty = type(c); c.need(','); in.a.push_back(topnd(c, F)); return; }
    if (w == "store") { in.op = I_STORE; c.eatw("atomic"); while (flag(c)); Operand v = topnd(c, F); c.need(','); Operand pt = topnd(c, F); in.ty = v.ty; in.a.push_back(v); in.a.push_back(pt); return; }
    if (w == "getelementptr") { in.op = I_GEP; while (flag(c)); Type* cur = type(c); c.need(','); in.a.push_back(topnd(c, F)); if (in.a[0].ty->k != Type::PTR) throw ParseErr{"vector gep"}; i64 off = 0; bool first = true;
      while (c.eat(',')) { c.ws(); if (*c.p == '!') break; Operand o = topnd(c, F); u64 sc; if (first) { sc = cur->size; first = false; } else if (cur->k == Type::STRUCT) { u64 ix = (u64)o.v.e->c; off += cur->off[ix]; cur = cur->f[ix]; continue; } else { cur = cur->el; sc = cur->size; }
        if (o.reg < 0) off += (i64)sextw(o.v.e->c, o.v.e->width) * (i64)sc; else { in.a.push_back(o); in.scale.push_back(sc); } }
      in.extra = (u64)off; return; }
    if (w == "alloca") { in.op = I_ALLOCA; c.eatw("inalloca"); in.ty = type(c); in.extra = in.ty->size; u64 al = 8; while (c.eat(',')) { if (c.eatw("align")) { al = atoi(c.word().c_str()); } else if (c.typeStart()) { Operand o = topnd(c, F); if (o.reg >= 0) throw ParseErr{"dyn alloca"}; in.extra *= (u64)o.v.e->c; } else break; } in.idx.push_back(al); return; }
    if (w == "select") { in.op = I_SELECT; while (flag(c)); in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); in.ty = in.a[1].ty; return; }
    if (w == "br") { if (c.peekw("label")) { in.op = I_BR; in.tgt.push_back(label(c, F)); } else { in.op = I_CBR; in.a.push_back(topnd(c, F)); c.need(','); in.tgt.push_back(label(c, F)); c.need(','); in.tgt.push_back(label(c, F)); } return; }
    if (w == "switch") { in.op = I_SWITCH; in.a.push_back(topnd(c, F)); c.need(','); in.tgt.push_back(label(c, F)); c.need('['); while (!c.eat(']')) { Type* t = type(c); Value v = constant(c, t); c.need(','); in.cases.push_back(v.e->c); in.tgt.push_back(label(c, F)); } return; }
    if (w == "ret") { in.op = I_RET; if (c.eatw("void")) return; in.a.push_back(topnd(c, F)); return; }
    if (w == "unreachable") { in.op = I_UNREACH; return; }
    if (w == "phi") { in.op = I_PHI; while (flag(c)); in.ty = type(c); do { c.need('['); in.a.push_back(operand(c, in.ty, F)); c.need(','); in.tgt.push_back(label(c, F)); c.need(']'); } while (c.eat(',') && c.is('[')); return; }
    if (w == "zext" || w == "sext" || w == "trunc" || w == "ptrtoint" || w == "ptrtoaddr" || w == "inttoptr" || w == "bitcast" || w == "addrspacecast") { in.op = I_CAST; while (flag(c)); in.a.push_back(topnd(c, F)); c.eatw("to"); in.ty = type(c); in.sub = w == "zext" ? C_ZEXT : w == "sext" ? C_SEXT : w == "trunc" ? C_TRUNC : w == "bitcast" ? C_BITCAST : (in.ty->bits >= in.a[0].ty->bits ? C_ZEXT : C_TRUNC); return; }
    if (w == "uitofp" || w == "sitofp" || w == "fptoui" || w == "fptosi" || w == "fpext" || w == "fptrunc") { in.op = I_CAST; in.sub = C_FP; in.text = w; while (flag(c)); in.a.push_back(topnd(c, F)); c.eatw("to"); in.ty = type(c); return; }
    if (w == "fadd" || w == "fsub" || w == "fmul" || w == "fdiv" || w == "frem") { in.op = I_FBIN; in.text = w; while (flag(c)); in.ty = type(c); in.a.push_back(operand(c, in.ty, F)); c.need(','); in.a.push_back(operand(c, in.ty, F)); return; }
    if (w == "fcmp") { in.op = I_FCMP; while (flag(c)); in.text = c.word(); in.ty = type(c); in.a.push_back(operand(c, in.ty, F)); c.need(','); in.a.push_back(operand(c, in.ty, F)); return; }
    if (w == "extractvalue") { in.op = I_EXTRACTVALUE; in.a.push_back(topnd(c, F)); while (c.eat(',')) { c.ws(); if (!isdigit(*c.p)) break; in.idx.push_back(atoi(c.word().c_str())); } return; }
    if (w == "insertvalue") { in.op = I_INSERTVALUE; in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); while (c.eat(',')) { c.ws(); if (!isdigit(*c.p)) break; in.idx.push_back(atoi(c.word().c_str())); } return; }
    if (w == "extractelement") { in.op = I_EXTRACTELEM; in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); return; }
    if (w == "insertelement") { in.op = I_INSERTELEM; for (int i = 0; i < 3; i++) { if (i) c.need(','); in.a.push_back(topnd(c, F)); } return; }
    if (w == "shufflevector") { in.op = I_SHUFFLE; for (int i = 0; i < 3; i++) { if (i) c.need(','); in.a.push_back(topnd(c, F)); } return; }
    if (w == "freeze") { in.op = I_FREEZE; in.a.push_back(topnd(c, F)); return; }
    if (w == "fence") { in.op = I_FENCE; return; }
    if (w == "cmpxchg") { in.op = I_CMPXCHG; c.eatw("weak"); while (flag(c)); in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); in.ty = in.a[1].ty; return; }
    if (w == "atomicrmw") { in.op = I_RMW; while (flag(c)); in.text = c.word(); in.a.push_back(topnd(c, F)); c.need(','); in.a.push_back(topnd(c, F)); in.ty = in.a[1].ty; return; }
    if (w == "call" || w == "invoke") {
      in.op = I_CALL; while (flag(c)); c.skipAttrsToType(); in.ty = type(c); c.ws(); if (*c.p == '(') c.skipParens(); // vararg fn type
      c.ws(); if (c.peekw("asm")) throw ParseErr{"inline asm"};
      c.ws(); if (*c.p == '@') { c.p++; std::string n = c.ident(); auto al = alias.find(n); while (al != alias.end()) { n = al->second; al = alias.find(n); } auto it = fn.find(n); if (it == fn.end()) throw ParseErr{"callee " + n}; in.callee = it->second; in.text = n; }
      else { in.a.push_back(operand(c, tPtr(), F)); in.extra = 1; }
      c.need('('); while (!c.eat(')')) { in.a.push_back(topnd(c, F)); c.eat(','); }
      if (w == "invoke") { // find "to label %x unwind label %y"
        std::string_view l(c.p, c.e - c.p); size_t z = l.find("to label "); c.p += z + 3; in.tgt.push_back(label(c, F)); }
      return; }
    throw ParseErr{"inst " + w};
  }
};
