// Hash-consed bit-vector expressions, constant folding, evaluation under a model, translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <functional>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT };

struct VarSet { std::vector<u64> w; u32 id; };

struct Expr {
  Op op; unsigned short width; u32 id; u32 aux; // aux: extract low bit / var index
  u128 c; Expr* k[3]; VarSet* vars;
  u64 lo, hi;                // unsigned range (valid when width<=64)
  u32 epoch; u128 ev;        // evaluation cache
  Z3_ast zbv, zbool;
  bool isC() const { return op == O_CONST; }
};

typedef std::vector<u64> Model; // value per variable index

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s)) - (i128)s; }

struct Var { std::string name; unsigned width; };

struct ExprMgr {
  std::unordered_multimap<u64, Expr*> tab;
  std::vector<Var> vars;
  std::vector<VarSet*> sets; std::map<std::vector<u64>, VarSet*> setTab; std::unordered_map<u64, VarSet*> unionCache;
  VarSet* emptySet; u32 nextId = 1; u32 epoch = 1;
  char* arena = nullptr; size_t arenaLeft = 0;
  Expr* T; Expr* F;
  std::unordered_map<u64, Expr*> smallC;
  ExprMgr() { emptySet = internSet({}); T = C(1, 1); F = C(0, 1); }
  VarSet* internSet(std::vector<u64> w) {
    while (!w.empty() && w.back() == 0) w.pop_back();
    auto it = setTab.find(w); if (it != setTab.end()) return it->second;
    VarSet* s = new VarSet{w, (u32)sets.size()}; sets.push_back(s); setTab[w] = s; return s;
  }
  VarSet* un(VarSet* a, VarSet* b) {
    if (a == b || b == emptySet) return a; if (a == emptySet) return b;
    if (a->id > b->id) std::swap(a, b);
    u64 key = ((u64)a->id << 32) | b->id; auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
    std::vector<u64> w(std::max(a->w.size(), b->w.size()), 0);
    for (size_t i = 0; i < a->w.size(); i++) w[i] |= a->w[i];
    for (size_t i = 0; i < b->w.size(); i++) w[i] |= b->w[i];
    return unionCache[key] = internSet(w);
  }
  static bool inter(VarSet* a, VarSet* b) { size_t n = std::min(a->w.size(), b->w.size()); for (size_t i = 0; i < n; i++) if (a->w[i] & b->w[i]) return true; return false; }
  void* alloc() { if (arenaLeft < sizeof(Expr)) { arenaLeft = 4 << 20; arena = (char*)malloc(arenaLeft); } void* p = arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return p; }

  Expr* intern(Op op, unsigned w, u128 c, u32 aux, Expr* a, Expr* b, Expr* d) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 1315423911ull + aux * 2654435761ull;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 31; };
    mix((u64)c); mix((u64)(c >> 64)); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(d ? d->id : 0);
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { Expr* e = it->second; if (e->op == op && e->width == w && e->aux == aux && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e; }
    Expr* e = (Expr*)alloc(); e->op = op; e->width = w; e->id = nextId++; e->aux = aux; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->epoch = 0; e->zbv = e->zbool = nullptr;
    if (op == O_VAR) { std::vector<u64> s(aux / 64 + 1, 0); s[aux / 64] |= 1ull << (aux % 64); e->vars = internSet(s); }
    else { VarSet* s = emptySet; for (int i = 0; i < 3; i++) if (e->k[i]) s = un(s, e->k[i]->vars); e->vars = s; }
    setRange(e);
    tab.emplace(h, e); return e;
  }
  void setRange(Expr* e) {
    u64 m = e->width >= 64 ? ~0ull : ((1ull << e->width) - 1); e->lo = 0; e->hi = m; if (e->width > 64) return;
    Expr *a = e->k[0], *b = e->k[1];
    if (a && a->width > 64) { return; }
    switch (e->op) {
      case O_CONST: e->lo = e->hi = (u64)e->c; break;
      case O_ADD: { u128 l = (u128)a->lo + b->lo, h = (u128)a->hi + b->hi; if (h <= m) { e->lo = (u64)l; e->hi = (u64)h; } else if (l > m && h <= 2 * (u128)m + 1) { e->lo = (u64)(l & m); e->hi = (u64)(h & m); } break; }
      case O_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
      case O_MUL: { u128 h = (u128)a->hi * b->hi; if (h <= m) { e->lo = a->lo * b->lo; e->hi = (u64)h; } break; }
      case O_AND: e->hi = std::min(a->hi, b->hi); break;
      case O_OR: case O_XOR: { u64 x = a->hi | b->hi; int bl = x ? 64 - __builtin_clzll(x) : 0; u64 mm = bl >= 64 ? ~0ull : ((1ull << bl) - 1); e->hi = mm; if (e->op == O_OR) e->lo = std::max(a->lo, b->lo); break; }
      case O_LSHR: if (b->isC() && b->c < 64) { e->lo = a->lo >> (int)b->c; e->hi = a->hi >> (int)b->c; } else e->hi = a->hi; break;
      case O_SHL: if (b->isC() && b->c < 64) { u128 h = (u128)a->hi << (int)b->c; if (h <= m) { e->hi = (u64)h; e->lo = a->lo << (int)b->c; } } break;
      case O_UDIV: if (b->lo > 0) { e->hi = a->hi / b->lo; e->lo = a->lo / b->hi; } break;
      case O_UREM: if (b->lo > 0) e->hi = std::min(a->hi, b->hi - 1); break;
      case O_ITE: e->lo = std::min(e->k[1]->lo, e->k[2]->lo); e->hi = std::max(e->k[1]->hi, e->k[2]->hi); break;
      case O_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
      case O_SEXT: { u64 s = 1ull << (a->width - 1); if (a->hi < s) { e->lo = a->lo; e->hi = a->hi; } break; }
      case O_EXTRACT: if (e->aux == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if (e->aux > 0 && e->aux < 64 && (a->hi >> e->aux) <= m) { e->lo = a->lo >> e->aux; e->hi = a->hi >> e->aux; } break;
      case O_CONCAT: e->lo = (a->lo << b->width) | b->lo; e->hi = (a->hi << b->width) | b->hi; break;
      default: break;
    }
  }
  Expr* C(u128 v, unsigned w) {
    v &= maskw(w);
    if (v < 4096) { u64 key = ((u64)w << 16) | (u64)v; auto it = smallC.find(key); if (it != smallC.end()) return it->second; return smallC[key] = intern(O_CONST, w, v, 0, 0, 0, 0); }
    return intern(O_CONST, w, v, 0, 0, 0, 0);
  }
  Expr* newVar(const std::string& n, unsigned w) { vars.push_back({n, w}); return intern(O_VAR, w, 0, vars.size() - 1, 0, 0, 0); }
  Expr* B(bool b) { return b ? T : F; }

  static u128 fold(Op op, u128 a, u128 b, unsigned w, unsigned kw) {
    u128 m = maskw(w);
    switch (op) {
      case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
      case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
      case O_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u128)(x / y) & m; }
      case O_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
      case O_SHL: return b >= w ? 0 : (a << (int)b) & m; case O_LSHR: return b >= w ? 0 : a >> (int)b;
      case O_ASHR: { i128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (int)b)) & m; }
      case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
      case O_SLT: return sextw(a, kw) < sextw(b, kw); case O_SLE: return sextw(a, kw) <= sextw(b, kw);
      default: abort();
    }
  }
  Expr* NOT(Expr* e) { // width 1
    if (e->isC()) return B(!e->c);
    if (e->op == O_XOR && e->k[1] == T) return e->k[0];
    if (e->op == O_ULT) return bin(O_ULE, e->k[1], e->k[0]);
    if (e->op == O_ULE) return bin(O_ULT, e->k[1], e->k[0]);
    if (e->op == O_SLT) return bin(O_SLE, e->k[1], e->k[0]);
    if (e->op == O_SLE) return bin(O_SLT, e->k[1], e->k[0]);
    return intern(O_XOR, 1, 0, 0, e, T, 0);
  }
  static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ; }
  Expr* bin(Op op, Expr* a, Expr* b) {
    unsigned kw = a->width; bool cmp = op >= O_EQ && op <= O_SLE; unsigned w = cmp ? 1 : kw;
    if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->width, b->width); abort(); }
    if (a->isC() && b->isC()) return C(fold(op, a->c, b->c, w, kw), w);
    if (commut(op)) { if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b); }
    u128 m = maskw(kw);
    switch (op) {
      case O_ADD: if (b->isC() && b->c == 0) return a;
        if (b->isC() && a->op == O_ADD && a->k[1]->isC()) return bin(O_ADD, a->k[0], C(a->k[1]->c + b->c, w));
        if (b->isC() && a->op == O_SUB && a->k[0]->isC()) return bin(O_SUB, C(a->k[0]->c + b->c, w), a->k[1]);
        if (w == 1) return bin(O_XOR, a, b);
        if (!b->isC() && a->op == O_ADD && a->k[1]->isC()) return bin(O_ADD, bin(O_ADD, a->k[0], b), a->k[1]);
        if (!b->isC() && b->op == O_ADD && b->k[1]->isC()) return bin(O_ADD, bin(O_ADD, a, b->k[0]), b->k[1]);
        if (b->isC() && a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
        if (a->op == O_SUB && a->k[1] == b) return a->k[0];
        if (b->op == O_SUB && b->k[1] == a) return b->k[0];
        break;
      case O_SUB: if (b->isC()) return bin(O_ADD, a, C((u128)0 - b->c, w)); if (a == b) return C(0, w); if (w == 1) return bin(O_XOR, a, b);
        if (a->op == O_ADD && a->k[0] == b) return a->k[1]; if (a->op == O_ADD && a->k[1] == b) return a->k[0];
        if (a->op == O_ADD && b->op == O_ADD && a->k[0] == b->k[0] && a->k[1]->isC() && b->k[1]->isC()) return C(a->k[1]->c - b->k[1]->c, w);
        if (a->op == O_ADD && a->k[1]->isC()) return bin(O_ADD, bin(O_SUB, a->k[0], b), a->k[1]);
        break;
      case O_MUL: if (b->isC()) { if (b->c == 0) return b; if (b->c == 1) return a; if (!(b->c & (b->c - 1))) { int s = 0; u128 x = b->c; while (x > 1) { x >>= 1; s++; } return bin(O_SHL, a, C(s, w)); }
          if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b)); } if (w == 1) return bin(O_AND, a, b); break;
      case O_UDIV: if (b->isC() && b->c == 1) return a; if (b->isC() && b->c && !(b->c & (b->c - 1))) { int s = 0; u128 x = b->c; while (x > 1) { x >>= 1; s++; } return bin(O_LSHR, a, C(s, w)); } break;
      case O_UREM: if (b->isC() && b->c && !(b->c & (b->c - 1))) return bin(O_AND, a, C(b->c - 1, w)); break;
      case O_AND: if (a == b) return a;
        if (b->isC()) { if (b->c == 0) return b; if (b->c == m) return a; if (kw <= 64 && !((u64)b->c & ((u64)b->c + 1)) && a->hi <= (u64)b->c) return a;
          if (a->op == O_AND && a->k[1]->isC()) return bin(O_AND, a->k[0], C(a->k[1]->c & b->c, w));
          if (a->op == O_ZEXT) { u128 im = maskw(a->k[0]->width); if ((b->c & im) == im) return a; return zext(bin(O_AND, a->k[0], C(b->c & im, a->k[0]->width)), w); }
          if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
          // low mask -> zext(extract)
          if (!(b->c & (b->c + 1))) { int n = 0; u128 x = b->c; while (x) { n++; x >>= 1; } return zext(extract(a, 0, n), w); }
        }
        if (w == 1) { if (a == NOT1(b)) return F; }
        break;
      case O_OR: if (a == b) return a; if (b->isC()) { if (b->c == 0) return a; if (b->c == m) return b; }
        if (w == 1 && a == NOT1(b)) return T;
        { Expr* r = orShift(a, b); if (r) return r; r = orShift(b, a); if (r) return r; }
        if (b->isC() && a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
        break;
      case O_XOR: if (a == b) return C(0, w); if (b->isC() && b->c == 0) return a; if (w == 1 && b == T) return NOT(a);
        if (b->isC() && a->op == O_XOR && a->k[1]->isC()) return bin(O_XOR, a->k[0], C(a->k[1]->c ^ b->c, w));
        if (b->isC() && a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
        break;
      case O_SHL: if (b->isC()) { if (b->c == 0) return a; if (b->c >= w) return C(0, w);
          if (a->op == O_SHL && a->k[1]->isC()) return bin(O_SHL, a->k[0], C(a->k[1]->c + b->c >= w ? w : a->k[1]->c + b->c, w));
          if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
          return concat(extract(a, 0, w - (unsigned)b->c), C(0, (unsigned)b->c)); } if (a->isC() && a->c == 0) return a; break;
      case O_LSHR: if (b->isC()) { if (b->c == 0) return a; if (b->c >= w) return C(0, w); return zext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w); } if (a->isC() && a->c == 0) return a; break;
      case O_ASHR: if (b->isC()) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return sext(extract(a, s, w - s), w); } if (a->isC() && a->c == 0) return a; break;
      case O_EQ: if (a == b) return T;
        if (kw <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F;
        if (kw == 1) { if (b->isC()) return b->c ? a : NOT(a); }
        if (b->isC()) {
          if (a->op == O_ZEXT || a->op == O_SEXT) { unsigned iw = a->k[0]->width; u128 im = maskw(iw); Expr* ic = C(b->c & im, iw); u128 back = a->op == O_ZEXT ? ic->c : ((u128)sextw(ic->c, iw) & m); if (back != b->c) return F; return bin(O_EQ, a->k[0], ic); }
          if (a->op == O_ITE && (a->k[1]->isC() || a->k[2]->isC())) { Expr *x = bin(O_EQ, a->k[1], b), *y = bin(O_EQ, a->k[2], b); if (x->isC() && y->isC()) return ite(a->k[0], x, y); }
          if (a->op == O_CONCAT) { Expr *hi = a->k[0], *lo = a->k[1]; return bin(O_AND, bin(O_EQ, hi, C(b->c >> lo->width, hi->width)), bin(O_EQ, lo, C(b->c, lo->width))); }
          if (a->op == O_ADD && a->k[1]->isC()) return bin(O_EQ, a->k[0], C(b->c - a->k[1]->c, kw));
          if (a->op == O_SUB && a->k[0]->isC()) return bin(O_EQ, a->k[1], C(a->k[0]->c - b->c, kw));
          if (a->op == O_XOR && a->k[1]->isC()) return bin(O_EQ, a->k[0], C(b->c ^ a->k[1]->c, kw));
          if (a->op == O_SUB && b->c == 0) return bin(O_EQ, a->k[0], a->k[1]);
          if (a->op == O_XOR && b->c == 0) return bin(O_EQ, a->k[0], a->k[1]);
        }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return bin(O_EQ, a->k[0], b->k[0]);
        break;
      case O_ULT: if (a == b) return F; if (kw <= 64) { if (a->hi < b->lo) return T; if (a->lo >= b->hi) return F; }
        if (kw == 1) return bin(O_AND, NOT(a), b);
        if (a->op == O_ZEXT && b->isC()) { unsigned iw = a->k[0]->width; if (b->c > maskw(iw)) return T; return bin(O_ULT, a->k[0], C(b->c, iw)); }
        if (b->op == O_ZEXT && a->isC()) { unsigned iw = b->k[0]->width; if (a->c >= maskw(iw)) return F; return bin(O_ULT, C(a->c, iw), b->k[0]); }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_ULT, a->k[0], b->k[0]);
        if (b->isC() && b->c == 1) return bin(O_EQ, a, C(0, kw));
        if (a->isC() && a->c == 0) return NOT(bin(O_EQ, b, a));
        if (a->op == O_ITE && b->isC() && (a->k[1]->isC() || a->k[2]->isC())) { Expr *x = bin(op, a->k[1], b), *y = bin(op, a->k[2], b); if (x->isC() && y->isC()) return ite(a->k[0], x, y); }
        if (b->op == O_ITE && a->isC() && (b->k[1]->isC() || b->k[2]->isC())) { Expr *x = bin(op, a, b->k[1]), *y = bin(op, a, b->k[2]); if (x->isC() && y->isC()) return ite(b->k[0], x, y); }
        break;
      case O_ULE: if (a == b) return T; if (kw <= 64) { if (a->hi <= b->lo) return T; if (a->lo > b->hi) return F; }
        if (kw == 1) return bin(O_OR, NOT(a), b);
        if (b->isC()) { if (b->c == m) return T; return bin(O_ULT, a, C(b->c + 1, kw)); }
        if (a->isC()) { if (a->c == 0) return T; return bin(O_ULT, C(a->c - 1, kw), b); }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_ULE, a->k[0], b->k[0]);
        break;
      case O_SLT: case O_SLE: if (a == b) return B(op == O_SLE);
        if (kw <= 64 && kw > 1) { u64 s = 1ull << (kw - 1); bool ap = a->hi < s, bp = b->hi < s, an = a->lo >= s, bn = b->lo >= s; if ((ap && bp) || (an && bn)) return bin(op == O_SLT ? O_ULT : O_ULE, a, b); if (ap && bn) return F; if (an && bp) return T; }
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return bin(op, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->isC()) { unsigned iw = a->k[0]->width; i128 v = sextw(b->c, kw), mx = (i128)(maskw(iw - 1)), mn = -mx - 1; if (iw > 1) { if (v >= mn && v <= mx) return bin(op, a->k[0], C(b->c, iw)); return B(v > mx); } }
        if (b->op == O_SEXT && a->isC()) { unsigned iw = b->k[0]->width; i128 v = sextw(a->c, kw), mx = (i128)(maskw(iw - 1)), mn = -mx - 1; if (iw > 1) { if (v >= mn && v <= mx) return bin(op, C(a->c, iw), b->k[0]); return B(v < mn); } }
        if (a->op == O_ITE && b->isC() && (a->k[1]->isC() || a->k[2]->isC())) { Expr *x = bin(op, a->k[1], b), *y = bin(op, a->k[2], b); if (x->isC() && y->isC()) return ite(a->k[0], x, y); }
        if (b->op == O_ITE && a->isC() && (b->k[1]->isC() || b->k[2]->isC())) { Expr *x = bin(op, a, b->k[1]), *y = bin(op, a, b->k[2]); if (x->isC() && y->isC()) return ite(b->k[0], x, y); }
        if (op == O_SLE && b->isC()) { if (b->c == (m >> 1)) return T; return bin(O_SLT, a, C(b->c + 1, kw)); }
        if (op == O_SLE && a->isC()) { if (a->c == ((m >> 1) + 1)) return T; return bin(O_SLT, C(a->c - 1, kw), b); }
        break;
      default: break;
    }
    return intern(op, w, 0, 0, a, b, 0);
  }
  Expr* NOT1(Expr* b) { // lookup helper: structural negation without new rewriting cost
    if (b->op == O_XOR && b->width == 1 && b->k[1] == T) return b->k[0];
    return NOT(b);
  }
  // or(a, b) where the set bits are provably disjoint by concat/zext shape -> concat
  Expr* orShift(Expr* a, Expr* b) {
    // a = concat(x, 0_n) , b = zext(y) or const with width(y) <= n
    if (a->op == O_CONCAT && a->k[1]->isC() && a->k[1]->c == 0) {
      unsigned n = a->k[1]->width;
      if (b->op == O_ZEXT && b->k[0]->width <= n) return concat(a->k[0], zext(b->k[0], n));
      if (b->isC() && b->c <= maskw(n)) return concat(a->k[0], C(b->c, n));
      if (b->op == O_CONCAT && b->width == a->width && b->k[0]->isC() && b->k[0]->c == 0 && b->k[1]->width <= n) return concat(a->k[0], zext(b->k[1], n));
    }
    if (a->op == O_ZEXT && a->k[0]->op == O_CONCAT && a->k[0]->k[1]->isC() && a->k[0]->k[1]->c == 0) {
      unsigned n = a->k[0]->k[1]->width;
      if (b->op == O_ZEXT && b->k[0]->width <= n) return zext(concat(a->k[0]->k[0], zext(b->k[0], n)), a->width);
      if (b->isC() && b->c <= maskw(n)) return zext(concat(a->k[0]->k[0], C(b->c, n)), a->width);
    }
    return nullptr;
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (c->isC()) return c->c ? a : b; if (a == b) return a;
    if (c->op == O_XOR && c->k[1] == T) return ite(c->k[0], b, a);
    if (a->width == 1) {
      if (a == T) return bin(O_OR, c, b); if (a == F) return bin(O_AND, NOT(c), b);
      if (b == T) return bin(O_OR, NOT(c), a); if (b == F) return bin(O_AND, c, a);
    }
    if (a->op == O_ITE && a->k[0] == c) return ite(c, a->k[1], b);
    if (b->op == O_ITE && b->k[0] == c) return ite(c, a, b->k[2]);
    if (b->op == O_ITE && b->k[1] == a) return ite(bin(O_OR, c, b->k[0]), a, b->k[2]);
    if (a->isC() && b->isC() && a->width > 1) { if (a->c == 1 && b->c == 0) return zext(c, a->width); if (a->c == 0 && b->c == 1) return zext(NOT(c), a->width); }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return zext(ite(c, a->k[0], b->k[0]), a->width);
    if (a->op == O_ZEXT && b->isC() && b->c <= maskw(a->k[0]->width)) return zext(ite(c, a->k[0], C(b->c, a->k[0]->width)), a->width);
    if (b->op == O_ZEXT && a->isC() && a->c <= maskw(b->k[0]->width)) return zext(ite(c, C(a->c, b->k[0]->width), b->k[0]), a->width);
    return intern(O_ITE, a->width, 0, 0, c, a, b);
  }
  Expr* zext(Expr* a, unsigned w) { if (a->width == w) return a; if (a->isC()) return C(a->c, w); if (a->op == O_ZEXT) return zext(a->k[0], w);
    if (a->op == O_CONCAT && a->k[0]->isC() && a->k[0]->c == 0) return zext(a->k[1], w);
    return intern(O_ZEXT, w, 0, 0, a, 0, 0); }
  Expr* sext(Expr* a, unsigned w) { if (a->width == w) return a; if (a->isC()) return C((u128)sextw(a->c, a->width), w); if (a->op == O_ZEXT && a->k[0]->width < a->width) return zext(a->k[0], w); if (a->op == O_SEXT) return sext(a->k[0], w);
    if (a->width <= 64 && a->width > 1 && a->hi < (1ull << (a->width - 1))) return zext(a, w);
    return intern(O_SEXT, w, 0, 0, a, 0, 0); }
  Expr* extract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->width) return a;
    if (a->isC()) return C(a->c >> lo, w);
    switch (a->op) {
      case O_EXTRACT: return extract(a->k[0], a->aux + lo, w);
      case O_ZEXT: { unsigned iw = a->k[0]->width; if (lo >= iw) return C(0, w); if (lo + w <= iw) return extract(a->k[0], lo, w); if (lo == 0) return zext(a->k[0], w); return zext(extract(a->k[0], lo, iw - lo), w); }
      case O_SEXT: { unsigned iw = a->k[0]->width; if (lo + w <= iw) return extract(a->k[0], lo, w); if (lo == 0) return sext(a->k[0], w); if (lo < iw) return sext(extract(a->k[0], lo, iw - lo), w); break; }
      case O_CONCAT: { unsigned lw = a->k[1]->width; if (lo + w <= lw) return extract(a->k[1], lo, w); if (lo >= lw) return extract(a->k[0], lo - lw, w); return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo)); }
      case O_AND: case O_OR: case O_XOR: return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
      case O_ITE: if ((a->k[1]->isC() || a->k[2]->isC()) || a->k[1]->op == O_ZEXT || a->k[2]->op == O_ZEXT || a->k[1]->op == O_CONCAT || a->k[2]->op == O_CONCAT) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w)); break;
      case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
        if (a->width <= 64 && lo < 64 && (a->hi >> lo) == 0) return C(0, w);
        break;
      default: break;
    }
    if (a->width <= 64 && lo < 64 && (a->hi >> lo) == 0) return C(0, w);
    return intern(O_EXTRACT, w, 0, lo, a, 0, 0);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->width + lo->width;
    if (hi->isC() && lo->isC()) return C((hi->c << lo->width) | lo->c, w);
    if (hi->isC() && hi->c == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width) return extract(hi->k[0], lo->aux, w);
    if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->aux == lo->width) return extract(hi->k[0], 0, w);
    if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->k[0]->op == O_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->width) return concat(extract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width), lo->k[1]);
    if (hi->isC() && lo->op == O_CONCAT && lo->k[0]->isC()) return concat(C((hi->c << lo->k[0]->width) | lo->k[0]->c, hi->width + lo->k[0]->width), lo->k[1]);
    if (hi->op == O_ZEXT) { return zext(concat(hi->k[0], lo), w); }
    // sext pieces: concat(extract(sext(x)), x) handled by EXTRACT rules when widths line up
    return intern(O_CONCAT, w, 0, 0, hi, lo, 0);
  }
  // ---- evaluation
  u128 evalRec(Expr* e, const Model& m) {
    if (e->op == O_CONST) return e->c;
    if (e->epoch == epoch) return e->ev;
    u128 r;
    switch (e->op) {
      case O_VAR: r = e->aux < m.size() ? m[e->aux] : 0; r &= maskw(e->width); break;
      case O_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
      case O_ZEXT: r = evalRec(e->k[0], m); break;
      case O_SEXT: r = (u128)sextw(evalRec(e->k[0], m), e->k[0]->width) & maskw(e->width); break;
      case O_EXTRACT: r = (evalRec(e->k[0], m) >> e->aux) & maskw(e->width); break;
      case O_CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->width) | evalRec(e->k[1], m); break;
      default: r = fold(e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->width, e->k[0]->width);
    }
    e->epoch = epoch; e->ev = r; return r;
  }
  u128 eval(Expr* e, const Model& m) { if (e->isC()) return e->c; epoch++; return evalRec(e, m); }
  // ---- z3
  Z3_context ctx = nullptr;
  Z3_ast R(Z3_ast a) { Z3_inc_ref(ctx, a); return a; } // temporaries are kept (never freed)
  Z3_ast num(u64 v, unsigned w) { return R(Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w))); }
  Z3_ast zb(Expr* e) { // as Bool
    if (e->zbool) return e->zbool;
    Z3_ast r;
    if (e->isC()) r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    else switch (e->op) {
      case O_EQ: r = e->k[0]->width == 1 ? Z3_mk_eq(ctx, zb(e->k[0]), zb(e->k[1])) : Z3_mk_eq(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case O_ULT: r = Z3_mk_bvult(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case O_ULE: r = Z3_mk_bvule(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case O_SLT: r = Z3_mk_bvslt(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case O_SLE: r = Z3_mk_bvsle(ctx, zv(e->k[0]), zv(e->k[1])); break;
      case O_AND: { Z3_ast x[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_and(ctx, 2, x); break; }
      case O_OR: { Z3_ast x[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_or(ctx, 2, x); break; }
      case O_XOR: if (e->k[1] == T) r = Z3_mk_not(ctx, zb(e->k[0])); else r = Z3_mk_xor(ctx, zb(e->k[0]), zb(e->k[1])); break;
      case O_ITE: r = Z3_mk_ite(ctx, zb(e->k[0]), zb(e->k[1]), zb(e->k[2])); break;
      default: { Z3_ast x = zv(e), y = num(1, 1); r = Z3_mk_eq(ctx, x, y); }
    }
    Z3_inc_ref(ctx, r); return e->zbool = r;
  }
  Z3_ast zv(Expr* e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    auto K = [&](int i) { return zv(e->k[i]); };
    if (e->isC()) { if (e->width <= 64) r = num((u64)e->c, e->width); else { Z3_ast h = num((u64)(e->c >> 64), e->width - 64), l = num((u64)e->c, 64); r = Z3_mk_concat(ctx, h, l); } }
    else if (e->width == 1 && (e->op >= O_EQ && e->op <= O_SLE)) { Z3_ast x = zb(e), y = num(1, 1), z = num(0, 1); r = Z3_mk_ite(ctx, x, y, z); }
    else switch (e->op) {
      case O_VAR: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->width)); break; }
      case O_ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break; case O_SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break; case O_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break; case O_SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break; case O_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break; case O_SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
      case O_AND: r = Z3_mk_bvand(ctx, K(0), K(1)); break; case O_OR: r = Z3_mk_bvor(ctx, K(0), K(1)); break; case O_XOR: r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break; case O_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
      case O_ITE: r = Z3_mk_ite(ctx, zb(e->k[0]), K(1), K(2)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, K(0)); break; case O_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, K(0)); break;
      case O_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, K(0)); break; case O_CONCAT: r = Z3_mk_concat(ctx, K(0), K(1)); break;
      default: fprintf(stderr, "zv: bad op %d\n", e->op); abort();
    }
    Z3_inc_ref(ctx, r); return e->zbv = r;
  }
};
