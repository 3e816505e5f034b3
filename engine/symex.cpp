// Path-forking symbolic executor for whole-program LLVM IR emitted by rustc. See /verif/DESIGN.md.
#include "ir.h"
#include <set>
#include <list>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
#include <math.h>
#include <fstream>
#include <sstream>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static ExprMgr* XP; static Module* MP;
#define X (*XP)
#define M (*MP)

// ------------------------------------------------------------------ options / stats
struct Opt { u64 maxSteps = 30000000; double timeout = 800; int workers = 1; unsigned z3ms = 60000; u64 maxPaths = 0; int maxViol = 4; std::string concrete; std::string out; bool verbose = false; u64 memMB = 6000; std::string dumpDir; u64 dumpMax = 0; bool trace = false; u64 seed = 1; size_t samples = 0; } opt;
struct Stats { u64 paths = 0, ended = 0, assumed = 0, forks = 0, queries = 0, solverCalls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, insts = 0, asserts = 0, assertQ = 0, fallback = 0, ranged = 0; double solverT = 0, maxQ = 0; } st;
static double t0;

// ------------------------------------------------------------------ solver
enum Res { SAT, UNSAT, UNK };
struct Solver {
  Z3_context c; Z3_solver s = nullptr; std::unordered_map<std::string, std::pair<Res, Model>> cache; std::list<Model> recent; u64 dumped = 0;
  void init() { Z3_config cfg = Z3_mk_config(); c = Z3_mk_context_rc(cfg); Z3_del_config(cfg); X.ctx = c; Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); exit(3); }); fresh(); }
  void fresh() { if (s) Z3_solver_dec_ref(c, s); stk.clear(); popped = 0; s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); setTO(s, opt.z3ms > 5000 ? 5000 : opt.z3ms); }
  void setTO(Z3_solver q, unsigned ms) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms); Z3_solver_set_params(c, q, p); Z3_params_dec_ref(c, p); }
  std::vector<Expr*> stk; // constraints asserted, one scope each
  void sync(const std::vector<Expr*>& pc) { size_t k = 0; while (k < stk.size() && k < pc.size() && stk[k] == pc[k]) k++; if (stk.size() > k) { Z3_solver_pop(c, s, stk.size() - k); stk.resize(k); popped += 1; } for (; k < pc.size(); k++) { Z3_solver_push(c, s); Z3_solver_assert(c, s, X.zb(pc[k])); stk.push_back(pc[k]); } }
  u64 popped = 0;
  void getModel(Z3_solver q, VarSet* vs, Model& m) { Z3_model md = Z3_solver_get_model(c, q); Z3_model_inc_ref(c, md); if (m.size() < X.vars.size()) m.resize(X.vars.size(), 0);
    for (size_t i = 0; i < vs->w.size() * 64; i++) if (vs->w[i / 64] >> (i % 64) & 1) { Expr* v = X.intern(O_VAR, X.vars[i].width, 0, i, 0, 0, 0); Z3_ast r; if (Z3_model_eval(c, md, X.zv(v), true, &r)) { Z3_inc_ref(c, r); uint64_t u = 0; Z3_get_numeral_uint64(c, r, &u); m[i] = u; Z3_dec_ref(c, r); } }
    Z3_model_dec_ref(c, md); }
  Res check(std::vector<Expr*>& cs, Model& m) { // m: in = base model (kept for other vars), out = model if SAT
    st.queries++; std::vector<Expr*> cs0 = cs; std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    VarSet* vs = X.emptySet; std::string key; for (auto e : cs) { if (e == X.F) return UNSAT; vs = X.un(vs, e->vars); key.append((char*)&e->id, 4); }
    auto put = [&](const Model& src) { if (m.size() < X.vars.size()) m.resize(X.vars.size(), 0); for (size_t i = 0; i < vs->w.size() * 64; i++) if (vs->w[i / 64] >> (i % 64) & 1) m[i] = i < src.size() ? src[i] : 0; };
    auto it = cache.find(key); if (it != cache.end()) { st.cacheHits++; if (it->second.first == SAT) put(it->second.second); return it->second.first; }
    int tries = 0; for (auto r = recent.begin(); r != recent.end() && tries < 6; ++r, ++tries) { X.epoch++; bool ok = true; for (size_t i = cs.size(); i-- > 0;) if (!X.evalRec(cs[i], *r)) { ok = false; break; } if (ok) { st.modelHits++; put(*r); if (r != recent.begin()) recent.splice(recent.begin(), recent, r); return SAT; } }
    double q0 = now(); st.solverCalls++;
    if (popped > 2000) { fresh(); }
    std::vector<Expr*> base(cs0); base.pop_back(); sync(base); Z3_solver_push(c, s); Z3_solver_assert(c, s, X.zb(cs0.back()));
    Z3_lbool r = Z3_solver_check(c, s); Model got = m;
    if (r == Z3_L_TRUE) getModel(s, vs, got);
    Z3_solver_pop(c, s, 1);
    if (r == Z3_L_UNDEF) { st.fallback++; // one-shot tactic solver with the full limit
      Z3_tactic t = Z3_mk_tactic(c, "qfbv"); Z3_tactic_inc_ref(c, t); Z3_solver q = Z3_mk_solver_from_tactic(c, t); Z3_solver_inc_ref(c, q); setTO(q, opt.z3ms); for (auto e : cs) Z3_solver_assert(c, q, X.zb(e)); r = Z3_solver_check(c, q); if (r == Z3_L_TRUE) getModel(q, vs, got); if (r == Z3_L_UNDEF && !opt.dumpDir.empty()) dump(cs, "unknown"); Z3_solver_dec_ref(c, q); Z3_tactic_dec_ref(c, t); fresh(); }
    double dt = now() - q0; st.solverT += dt; if (dt > st.maxQ) st.maxQ = dt;
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
    if (res == SAT) { st.sat++; recent.push_front(got); if (recent.size() > 24) recent.pop_back(); m = got; // validate model against our own evaluator
      X.epoch++; for (auto e : cs) if (!X.evalRec(e, m)) { fprintf(stderr, "model does not satisfy constraint (encoding bug)\n"); exit(3); } }
    else if (res == UNSAT) st.unsat++; else st.unknown++;
    if (res != UNK) { if (cache.size() > 400000) cache.clear(); cache[key] = {res, res == SAT ? got : Model()}; }
    return res;
  }
  void dump(std::vector<Expr*>& cs, const char* tag) { if (dumped >= opt.dumpMax) return; Z3_solver q = Z3_mk_solver(c); Z3_solver_inc_ref(c, q); for (auto e : cs) Z3_solver_assert(c, q, X.zb(e)); std::string fn = opt.dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumped++) + "_" + tag + ".smt2"; std::ofstream o(fn); o << "(set-logic QF_BV)\n" << Z3_solver_to_string(c, q) << "(check-sat)\n"; Z3_solver_dec_ref(c, q); }
} S;

// ------------------------------------------------------------------ state
struct Bytes { std::vector<u8> c; std::vector<Expr*> s; };
struct Obj { u64 size; bool ro; u8 kind; std::shared_ptr<Bytes> b; }; // kind 0 global 1 stack 2 heap
struct Frame { Function* f; u32 blk = 0, ip = 0, prev = 0; std::vector<Value> regs; std::vector<u64> allocas; int retReg = -1; int retTgt = -1; };
struct SymRec { std::string name; u32 len; std::vector<int> vars; };
struct State { std::vector<Frame> fr; std::map<u64, Obj> mem; u64 brk = 0x7000000000ull; std::vector<Expr*> pc; std::shared_ptr<Model> model; u64 steps = 0; std::vector<SymRec> syms; bool expectPanic = false; std::vector<Expr*> outE; std::vector<u64> outs; u32 depth = 0; std::unordered_map<Expr*, std::pair<u64, u64>> bnd; std::unordered_set<Expr*> many; };
struct Violation { std::string kind, label, loc, stack; std::vector<SymRec> syms; Model m; };
struct PathEnd { std::string why; };
struct EngineErr { std::string m; };

struct Sample { std::vector<SymRec> syms; Model m; std::vector<u64> outs; bool panicked; }; static std::vector<Sample> samples; static u64 sampleSeen = 0, lcg = 1;
static std::vector<State*> work; static std::vector<Violation> viols; static std::map<std::string, u64> reach, assertCount, errors; static std::set<std::string> violKeys; static std::unordered_set<u32> dbgHit; static std::set<std::string> extsUsed;
static std::map<u64, Obj> gmem; static std::map<std::string, int> varIdx; static std::vector<u64> concVals; static std::vector<std::pair<std::string, std::vector<u8>>> concFile; static std::map<std::string, u64> forkAt;

static const Model& mod(State* s) { return *s->model; }

// ---- interval reasoning under the path condition (sound, incomplete; saves solver calls)
typedef std::pair<u64, u64> Rg;
static Rg rng(State* s, Expr* e, int d = 0) {
  if (e->width > 64) return {0, ~0ull}; u64 lo = e->lo, hi = e->hi; if (lo == hi) return {lo, hi};
  auto it = s->bnd.find(e); if (it != s->bnd.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); if (lo >= hi) return {lo, hi}; }
  if (d > 10 || s->bnd.empty()) return {lo, hi}; u64 m = e->width >= 64 ? ~0ull : ((1ull << e->width) - 1); Expr *a = e->k[0], *b = e->k[1]; if (a && a->width > 64) return {lo, hi};
  auto tl = [&](u64 l, u64 h) { lo = std::max(lo, l); hi = std::min(hi, h); };
  switch (e->op) {
    case O_ZEXT: { Rg r = rng(s, a, d + 1); tl(r.first, r.second); break; }
    case O_SEXT: { Rg r = rng(s, a, d + 1); if (a->width < 64 && r.second < (1ull << (a->width - 1))) tl(r.first, r.second); break; }
    case O_ADD: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); u128 l = (u128)x.first + y.first, h = (u128)x.second + y.second; if (h <= m) tl((u64)l, (u64)h); else if (l > m && h <= 2 * (u128)m + 1) tl((u64)(l & m), (u64)(h & m)); break; }
    case O_SUB: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); if (x.first >= y.second) tl(x.first - y.second, x.second - y.first); break; }
    case O_MUL: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); u128 h = (u128)x.second * y.second; if (h <= m) tl(x.first * y.first, (u64)h); break; }
    case O_AND: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); tl(0, std::min(x.second, y.second)); break; }
    case O_EXTRACT: { Rg x = rng(s, a, d + 1); if (e->aux < 64 && (x.second >> e->aux) <= m) tl(x.first >> e->aux, x.second >> e->aux); break; }
    case O_CONCAT: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); tl((x.first << b->width) | y.first, (x.second << b->width) | y.second); break; }
    case O_ITE: { Rg x = rng(s, e->k[1], d + 1), y = rng(s, e->k[2], d + 1); tl(std::min(x.first, y.first), std::max(x.second, y.second)); break; }
    case O_UDIV: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); if (y.first) tl(x.first / y.second, x.second / y.first); break; }
    case O_UREM: { Rg x = rng(s, a, d + 1), y = rng(s, b, d + 1); if (y.first) tl(0, std::min(x.second, y.second - 1)); break; }
    default: break;
  }
  return {lo, hi};
}
static bool inPC(State* s, Expr* c);
static std::unordered_map<Expr*, std::vector<std::tuple<int, Expr*, Expr*>>> origin; // comparison result -> (op, a, b) as computed, before rewriting
static int tri(State* s, Expr* c, int d = 0) { // 1 true, 0 false, -1 unknown
  if (c->isC()) return c->c != 0; Rg r0; if (c->op == O_VAR) { r0 = rng(s, c); return r0.first == r0.second ? (int)r0.first : -1; }
  Expr *a = c->k[0], *b = c->k[1];
  switch (c->op) {
    case O_EQ: if (a->width > 64) return -1; { Rg x = rng(s, a), y = rng(s, b); if (x.second < y.first || y.second < x.first) return 0; if (x.first == x.second && y.first == y.second) return x.first == y.first; return -1; }
    case O_ULT: if (a->width > 64) return -1; { Rg x = rng(s, a), y = rng(s, b); if (x.second < y.first) return 1; if (x.first >= y.second) return 0; return -1; }
    case O_ULE: if (a->width > 64) return -1; { Rg x = rng(s, a), y = rng(s, b); if (x.second <= y.first) return 1; if (x.first > y.second) return 0; return -1; }
    case O_SLT: case O_SLE: { if (a->width > 64) return -1; u64 sg = 1ull << (a->width - 1); Rg x = rng(s, a), y = rng(s, b); bool xc = (x.first < sg) == (x.second < sg), yc = (y.first < sg) == (y.second < sg); if (!xc || !yc) return -1; bool xn = x.first >= sg, yn = y.first >= sg; if (xn != yn) return xn; if (c->op == O_SLT) { if (x.second < y.first) return 1; if (x.first >= y.second) return 0; } else { if (x.second <= y.first) return 1; if (x.first > y.second) return 0; } return -1; }
    case O_AND: if (c->width != 1 || d > 6) return -1; { int x = tri(s, a, d + 1); if (x == 0) return 0; int y = tri(s, b, d + 1); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
    case O_OR: if (c->width != 1 || d > 6) return -1; { int x = tri(s, a, d + 1); if (x == 1) return 1; int y = tri(s, b, d + 1); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
    case O_XOR: if (c->width != 1 || d > 6) return -1; { int x = tri(s, a, d + 1); if (x < 0) return -1; int y = tri(s, b, d + 1); return y < 0 ? -1 : x ^ y; }
    default: return -1;
  }
}
static void setB(State* s, Expr* e, u64 lo, u64 hi, int d = 0) {
  if (e->isC() || e->width > 64) return; Rg r = rng(s, e); lo = std::max(lo, r.first); hi = std::min(hi, r.second); if (lo > hi) return; if (lo == r.first && hi == r.second) return; s->bnd[e] = {lo, hi};
  if (d > 4) return; // push through invertible operators
  if (e->op == O_ZEXT) setB(s, e->k[0], lo, hi, d + 1);
  if (e->op == O_SEXT && hi < (1ull << (e->k[0]->width - 1))) setB(s, e->k[0], lo, hi, d + 1);
  if (e->op == O_ADD && e->k[1]->isC()) { u64 m = e->width >= 64 ? ~0ull : ((1ull << e->width) - 1); u64 c = (u64)e->k[1]->c; u64 l = (lo - c) & m, h = (hi - c) & m; if (l <= h) setB(s, e->k[0], l, h, d + 1); }
  if (e->op == O_CONCAT && e->k[0]->width <= 64) setB(s, e->k[0], lo >> e->k[1]->width, hi >> e->k[1]->width, d + 1);
}
static void learn(State* s, Expr* c) {
  if (c->width != 1 || c->isC()) return; Expr *a = c->k[0], *b = c->k[1];
  if (c->op == O_EQ && a->width <= 64) { Rg x = rng(s, a), y = rng(s, b); setB(s, a, y.first, y.second); setB(s, b, x.first, x.second); }
  else if (c->op == O_ULT && a->width <= 64) { Rg x = rng(s, a), y = rng(s, b); if (y.second) setB(s, a, 0, y.second - 1); if (x.first != ~0ull) setB(s, b, x.first + 1, ~0ull); }
  else if (c->op == O_ULE && a->width <= 64) { Rg x = rng(s, a), y = rng(s, b); setB(s, a, 0, y.second); setB(s, b, x.first, ~0ull); }
  else if ((c->op == O_SLT || c->op == O_SLE) && a->width <= 64 && a->width > 1) { u64 sg = 1ull << (a->width - 1), m = a->width >= 64 ? ~0ull : ((1ull << a->width) - 1); Rg x = rng(s, a), y = rng(s, b); u64 st_ = c->op == O_SLT;
    if (y.second < sg && x.second < sg) { if (y.second >= st_) setB(s, a, 0, y.second - st_); setB(s, b, x.first + st_, ~0ull); }
    else if (x.second < sg) setB(s, b, x.first + st_, sg - 1); // a >= 0 => b > a
    else if (y.first >= sg) { setB(s, a, sg, y.second - st_); }
    (void)m; }
  else if (c->op == O_XOR && b == X.T && a->op == O_EQ && a->k[1]->isC() && a->k[0]->width <= 64) { Rg r = rng(s, a->k[0]); u64 v = (u64)a->k[1]->c; if (r.first == v && r.first < r.second) setB(s, a->k[0], v + 1, r.second); else if (r.second == v && r.first < r.second) setB(s, a->k[0], r.first, v - 1); }
  else if (c->op == O_VAR || c->op == O_EXTRACT) s->bnd[c] = {1, 1};
  else if (c->op == O_XOR && b == X.T && (a->op == O_VAR || a->op == O_EXTRACT)) s->bnd[a] = {0, 0};
}
static void learnOrigin(State* s, Expr* c) {
  for (int neg = 0; neg < 2; neg++) { auto it = origin.find(neg ? X.NOT(c) : c); if (it == origin.end()) continue;
    for (auto& t : it->second) { int op = std::get<0>(t); Expr *a = std::get<1>(t), *b = std::get<2>(t); if (neg) { if (op == O_EQ) { if (b->isC()) { Rg r = rng(s, a); u64 v = (u64)b->c; if (r.first == v && r.first < r.second) setB(s, a, v + 1, r.second); else if (r.second == v && r.first < r.second) setB(s, a, r.first, v - 1); } continue; } op = op == O_ULT ? O_ULE : op == O_ULE ? O_ULT : op == O_SLT ? O_SLE : O_SLT; std::swap(a, b); }
      Expr tmp; memset(&tmp, 0, sizeof tmp); tmp.op = (Op)op; tmp.width = 1; tmp.k[0] = a; tmp.k[1] = b; learn(s, &tmp); } }
}
static void addPC(State* s, Expr* c) { if (c->isC()) return; learnOrigin(s, c); if (c->op == O_AND && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; } if (c->op == O_XOR && c->k[1] == X.T && c->k[0]->op == O_OR) { addPC(s, X.NOT(c->k[0]->k[0])); addPC(s, X.NOT(c->k[0]->k[1])); return; } for (auto p : s->pc) if (p == c) return; s->pc.push_back(c); learn(s, c); }
static bool inPC(State* s, Expr* c) { for (auto p : s->pc) if (p == c) return true; return false; }
static void slice(State* s, Expr* c, std::vector<Expr*>& out) { VarSet* vs = c->vars; std::vector<char> used(s->pc.size(), 0); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i] && ExprMgr::inter(s->pc[i]->vars, vs)) { used[i] = 1; VarSet* n = X.un(vs, s->pc[i]->vars); if (n != vs) { vs = n; ch = true; } } } for (size_t i = 0; i < s->pc.size(); i++) if (used[i]) out.push_back(s->pc[i]); out.push_back(c); }
static std::string where(State* s); static std::map<std::string, u64> queryAt;
static void dumpE(Expr* e, int d, int in = 0) { static const char* nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat"}; fprintf(stderr, "%*s%s w%d", in, "", nm[e->op], e->width); if (e->isC()) fprintf(stderr, " %llu", (unsigned long long)e->c); if (e->op == O_EXTRACT) fprintf(stderr, " lo%d", e->aux); if (e->op == O_VAR) fprintf(stderr, " v%d", e->aux); fprintf(stderr, " [%llu,%llu]\n", (unsigned long long)e->lo, (unsigned long long)e->hi); if (d > 0) for (int i = 0; i < 3; i++) if (e->k[i]) dumpE(e->k[i], d - 1, in + 1); }
// is pc && c satisfiable; fills m
static Res feasible(State* s, Expr* c, Model& m) {
  if (c->isC()) return c->c ? SAT : UNSAT; m = mod(s); if (inPC(s, c)) { return SAT; } if (inPC(s, X.NOT(c))) return UNSAT; int tv = tri(s, c); if (tv == 0) { st.ranged++; return UNSAT; } if (tv == 1) { st.ranged++; return SAT; }
  std::vector<Expr*> cs; slice(s, c, cs); m = mod(s); if (opt.verbose) { queryAt[where(s)]++; if (getenv("SHOWQ")) { Frame& f = s->fr.back(); std::string t = M.src.substr(0, 0); fprintf(stderr, "Q %s op=%d\n", where(s).c_str(), c->op); dumpE(c, 4); } } return S.check(cs, m);
}
static State* cloneState(State* s) { State* n = new State(*s); n->depth++; return n; }
// decide a symbolic condition for s: returns the side taken; pushes the other side (to re-execute this instruction)
static bool decide(State* s, Expr* c) {
  if (c->isC()) return c->c != 0;
  bool v = X.eval(c, mod(s)) != 0; Expr* side = v ? c : X.NOT(c); Expr* other = v ? X.NOT(c) : c;
  if (inPC(s, side)) return v; int tv = tri(s, c); if (tv >= 0) { st.ranged++; return tv; }
  Model m; Res r = feasible(s, other, m);
  if (r == UNK) throw EngineErr{"solver unknown at " + where(s)};
  if (r == SAT) { st.forks++; if (opt.verbose) forkAt[where(s)]++; State* o = cloneState(s); addPC(o, other); o->model = std::make_shared<Model>(m); work.push_back(o); addPC(s, side); }
  return v;
}
static u64 concretize(State* s, Expr* e) { if (e->isC()) return (u64)e->c; Rg r = rng(s, e); if (r.first == r.second) return r.first; for (;;) { u128 v = X.eval(e, mod(s)); if (decide(s, X.bin(O_EQ, e, X.C(v, e->width)))) { if (e->width <= 64) s->bnd[e] = {(u64)v, (u64)v}; return (u64)v; } } }

// ------------------------------------------------------------------ memory
static u64 allocObj(State* s, u64 size, u64 align, u8 kind) { if (align < 16) align = 16; s->brk = (s->brk + align - 1) / align * align; u64 a = s->brk; s->brk += size + 64; Obj o; o.size = size; o.ro = false; o.kind = kind; o.b = std::make_shared<Bytes>(); o.b->c.assign(size, 0); s->mem[a] = o; return a; }
static Obj* findObj(State* s, u64 a, u64& base) {
  auto it = s->mem.upper_bound(a); if (it != s->mem.begin()) { --it; if (a < it->first + it->second.size || (a == it->first)) { base = it->first; return &it->second; } if (a == it->first + it->second.size) { base = it->first; return &it->second; } }
  auto g = gmem.upper_bound(a); if (g != gmem.begin()) { --g; if (a <= g->first + g->second.size) { base = g->first; auto m = s->mem.find(g->first); if (m != s->mem.end()) return &m->second; if (!g->second.b) { auto* gl = M.globals[g->second.kind == 0 ? 0 : 0]; (void)gl; } return &g->second; } }
  return nullptr;
}
static std::unordered_map<u64, Global*> globByAddr;
static void ensureG(Obj* o, u64 base) { if (!o->b) { Global* g = globByAddr[base]; M.initGlobal(g); o->b = std::make_shared<Bytes>(); o->b->c = g->bytes; o->b->c.resize(o->size, 0); } }
static Bytes* wr(State* s, Obj*& o, u64 base) { ensureG(o, base); if (o->kind == 0 && s->mem.find(base) == s->mem.end()) { if (o->ro) throw EngineErr{"write to constant " + globByAddr[base]->name}; s->mem[base] = *o; o = &s->mem[base]; } if (o->b.use_count() > 1) o->b = std::make_shared<Bytes>(*o->b); return o->b.get(); }
static Expr* rdBytes(Obj* o, u64 off, u64 n) {
  Bytes* b = o->b.get(); bool conc = true; if (!b->s.empty()) for (u64 i = 0; i < n; i++) if (b->s[off + i]) { conc = false; break; }
  if (conc) { u128 v = 0; for (u64 i = n; i-- > 0;) v = (v << 8) | b->c[off + i]; return X.C(v, n * 8); }
  Expr* r = nullptr; for (u64 i = 0; i < n; i++) { Expr* x = b->s[off + i] ? b->s[off + i] : X.C(b->c[off + i], 8); r = r ? X.concat(x, r) : x; } return r;
}
static void wrBytes(Bytes* b, u64 off, Expr* v, u64 n) {
  if (v->isC()) { for (u64 i = 0; i < n; i++) { b->c[off + i] = (u8)(v->c >> (8 * i)); if (!b->s.empty()) b->s[off + i] = nullptr; } return; }
  if (b->s.empty()) b->s.assign(b->c.size(), nullptr);
  for (u64 i = 0; i < n; i++) { Expr* x = X.extract(v, i * 8, 8); if (x->isC()) { b->c[off + i] = (u8)x->c; b->s[off + i] = nullptr; } else b->s[off + i] = x; }
}
struct Ref { Obj* o; u64 base; Expr* off; };
static Ref resolve(State* s, Expr* addr, u64 n) {
  Ref r;
  if (addr->isC()) { r.o = findObj(s, (u64)addr->c, r.base); if (!r.o || (u64)addr->c + n > r.base + r.o->size) { if (n == 0) { static Obj dummy; dummy.size = 0; dummy.b = std::make_shared<Bytes>(); r.o = &dummy; r.base = (u64)addr->c; r.off = X.C(0, 64); return r; } char b[128]; snprintf(b, 128, "memory fault: access of %llu bytes at 0x%llx", (unsigned long long)n, (unsigned long long)addr->c); throw EngineErr{b + std::string(" at ") + where(s)}; } ensureG(r.o, r.base); r.off = X.C((u64)addr->c - r.base, 64); return r; }
  for (;;) {
    u64 a = (u64)X.eval(addr, mod(s)); r.o = findObj(s, a, r.base); if (!r.o) throw EngineErr{"symbolic pointer resolves to no object at " + where(s)};
    ensureG(r.o, r.base); r.off = X.bin(O_SUB, addr, X.C(r.base, 64)); if (n > r.o->size) throw EngineErr{"object too small at " + where(s)};
    Expr* inb = X.bin(O_ULE, r.off, X.C(r.o->size - n, 64)); if (decide(s, inb)) return r; throw EngineErr{"symbolic pointer out of bounds at " + where(s)};
  }
}
// an index which the path condition leaves only one value for becomes that value (asked once per expression and path)
static Expr* forced(State* s, Expr* x) {
  if (x->isC() || x->width > 64) return x; auto it = s->bnd.find(x); if (it != s->bnd.end() && it->second.first == it->second.second) return X.C(it->second.first, x->width);
  if (s->pc.empty() || s->many.count(x)) return x; u64 v = (u64)X.eval(x, mod(s)); Model m; Res r = feasible(s, X.NOT(X.bin(O_EQ, x, X.C(v, x->width))), m);
  if (r == UNSAT) { s->bnd[x] = {v, v}; return X.C(v, x->width); } s->many.insert(x); return x;
}
// tight unsigned bounds of e under the path condition
static u64 bound(State* s, Expr* e, bool mx, u64 lo, u64 hi) { u64 v = (u64)X.eval(e, mod(s)); if (mx) lo = std::max(lo, v); else hi = std::min(hi, v); while (lo < hi) { u64 mid = mx ? lo + (hi - lo + 1) / 2 : lo + (hi - lo) / 2; Model m; Expr* c = mx ? X.bin(O_ULE, X.C(mid, 64), e) : X.bin(O_ULE, e, X.C(mid, 64)); Res r = feasible(s, c, m); if (r == UNK) throw EngineErr{"solver unknown (bound)"}; if (mx) { if (r == SAT) { u64 w = (u64)X.eval(e, m); lo = std::max(mid, std::min(w, hi)); } else hi = mid - 1; } else { if (r == SAT) { u64 w = (u64)X.eval(e, m); hi = std::min(mid, std::max(w, lo)); } else lo = mid + 1; } } return lo; }
static u64 knownZeros(Expr* e) { // number of provably-zero low bits
  switch (e->op) { case O_CONST: { if (e->c == 0) return e->width; u64 n = 0; u128 x = e->c; while (!(x & 1)) { x >>= 1; n++; } return n; }
    case O_CONCAT: { u64 l = knownZeros(e->k[1]); return l == e->k[1]->width ? l + knownZeros(e->k[0]) : l; }
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(knownZeros(e->k[0]), knownZeros(e->k[1])); case O_ZEXT: case O_SEXT: { u64 l = knownZeros(e->k[0]); return l == e->k[0]->width ? e->width : l; }
    case O_ITE: return std::min(knownZeros(e->k[1]), knownZeros(e->k[2])); case O_MUL: return std::min<u64>(e->width, knownZeros(e->k[0]) + knownZeros(e->k[1])); case O_AND: return std::max(knownZeros(e->k[0]), knownZeros(e->k[1])); case O_SHL: if (e->k[1]->isC()) return std::min<u64>(e->width, knownZeros(e->k[0]) + (u64)e->k[1]->c); return knownZeros(e->k[0]); default: return 0; } }
static u64 strideOf(Expr* off, u64& residue) { // off = residue (mod stride) when provable; handles  c1*x + c2
  if (off->isC()) { residue = (u64)off->c; return 0; }
  if (off->op == O_ADD) { u64 r1, r2; u64 a = strideOf(off->k[0], r1), b = strideOf(off->k[1], r2); u64 g = a, h = b; while (h) { u64 t = g % h; g = h; h = t; } residue = r1 + r2; return g; }
  if (off->op == O_MUL && off->k[1]->isC() && off->width == 64 && (off->hi != ~0ull)) { residue = 0; return (u64)off->k[1]->c; }
  if (off->op == O_ITE) { u64 r1, r2; u64 a = strideOf(off->k[1], r1), b = strideOf(off->k[2], r2); u64 d = r1 > r2 ? r1 - r2 : r2 - r1; u64 g = a; for (u64 h : {b, d}) { while (h) { u64 t = g % h; g = h; h = t; } } residue = r1; return g; }
  u64 z = knownZeros(off); if (z > 20) z = 20; residue = 0; return 1ull << z;
}
static Expr* memRead(State* s, Expr* addr, u64 n) {
  Ref r = resolve(s, addr, n); if (r.off->isC()) return rdBytes(r.o, (u64)r.off->c, n);
  u64 res, str = strideOf(r.off, res); if (str == 0) str = 1; res %= str; u64 lo = r.off->lo, hi = std::min<u64>(r.off->hi, r.o->size - n);
  if (lo > hi) lo = 0;
  if ((hi - lo) / str > 40) { hi = bound(s, r.off, true, lo, hi); lo = bound(s, r.off, false, lo, hi); }
  u64 first = lo; if (first % str != res) first += (res + str - first % str) % str;
  std::vector<std::pair<u64, Expr*>> runs; u64 cnt = 0, limit = r.o->ro ? 1500 : 40; bool ok = true;
  for (u64 o = first; o <= hi; o += str) { Expr* v = rdBytes(r.o, o, n); if (runs.empty() || runs.back().second != v) { runs.push_back({o, v}); if (runs.size() > limit) { ok = false; break; } } if (++cnt > 300000) { ok = false; break; } }
  if (!ok || runs.empty()) { u64 v = concretize(s, r.off); return rdBytes(r.o, v, n); }
  std::function<Expr*(size_t, size_t)> build = [&](size_t a, size_t b) -> Expr* { if (b - a == 1) return runs[a].second; size_t m = (a + b) / 2; return X.ite(X.bin(O_ULT, r.off, X.C(runs[m].first, 64)), build(a, m), build(m, b)); };
  return build(0, runs.size());
}
static void memWrite(State* s, Expr* addr, Expr* v, u64 n) { Ref r = resolve(s, addr, n); u64 off = r.off->isC() ? (u64)r.off->c : concretize(s, r.off); Bytes* b = wr(s, r.o, r.base); wrBytes(b, off, v, n); }
static Value load(State* s, Type* t, Expr* addr) {
  Value v; if (t->k == Type::STRUCT) { v.agg = std::make_shared<std::vector<Value>>(); for (size_t i = 0; i < t->f.size(); i++) v.agg->push_back(load(s, t->f[i], X.bin(O_ADD, addr, X.C(t->off[i], 64)))); return v; }
  if (t->k == Type::ARRAY || t->k == Type::VECTOR) { if (t->k == Type::VECTOR && t->el->k == Type::INT && t->el->bits % 8) { // e.g. <16 x i1>
      Expr* e = memRead(s, addr, t->size); v.agg = std::make_shared<std::vector<Value>>(); for (u64 i = 0; i < t->n; i++) { Value x; x.e = X.extract(e, i * t->el->bits, t->el->bits); v.agg->push_back(x); } return v; }
    v.agg = std::make_shared<std::vector<Value>>(); for (u64 i = 0; i < t->n; i++) v.agg->push_back(load(s, t->el, X.bin(O_ADD, addr, X.C(i * t->el->size, 64)))); return v; }
  u64 n = (t->bits + 7) / 8; Expr* e = memRead(s, addr, n); v.e = X.extract(e, 0, t->bits); return v;
}
static void store(State* s, const Value& v, Type* t, Expr* addr) {
  if (t->k == Type::STRUCT) { for (size_t i = 0; i < t->f.size(); i++) store(s, (*v.agg)[i], t->f[i], X.bin(O_ADD, addr, X.C(t->off[i], 64))); return; }
  if (t->k == Type::ARRAY || t->k == Type::VECTOR) { for (u64 i = 0; i < t->n; i++) store(s, (*v.agg)[i], t->el, X.bin(O_ADD, addr, X.C(i * t->el->size, 64))); return; }
  u64 n = (t->bits + 7) / 8; memWrite(s, addr, X.zext(v.e, n * 8), n);
}
static void memCopy(State* s, Expr* d, Expr* sr, Expr* len) {
  u64 n = concretize(s, len); if (!n) return; Ref rs = resolve(s, sr, n); u64 so = rs.off->isC() ? (u64)rs.off->c : concretize(s, rs.off); Ref rd = resolve(s, d, n); u64 dof = rd.off->isC() ? (u64)rd.off->c : concretize(s, rd.off);
  std::shared_ptr<Bytes> hold = rs.o->b; // keep source alive/unchanged
  std::vector<u8> tc(hold->c.begin() + so, hold->c.begin() + so + n); std::vector<Expr*> ts; if (!hold->s.empty()) ts.assign(hold->s.begin() + so, hold->s.begin() + so + n); hold.reset();
  Bytes* b = wr(s, rd.o, rd.base); memcpy(&b->c[dof], tc.data(), n);
  bool any = false; for (auto x : ts) if (x) { any = true; break; }
  if (any && b->s.empty()) b->s.assign(b->c.size(), nullptr);
  if (!b->s.empty()) for (u64 i = 0; i < n; i++) b->s[dof + i] = ts.empty() ? nullptr : ts[i];
}
static std::string cstrAt(State* s, u64 p, u64 n) { std::string r; u64 base; Obj* o = findObj(s, p, base); if (!o) return "?"; ensureG(o, base); for (u64 i = 0; i < n && p - base + i < o->size; i++) r.push_back((char)o->b->c[p - base + i]); return r; }

// ------------------------------------------------------------------ locations
static std::unordered_map<u32, std::string> mdCache;
static std::string mdField(const std::string& l, const char* f) { size_t p = l.find(f); if (p == std::string::npos) return ""; p += strlen(f); size_t e = p; if (l[p] == '"') { e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); } while (e < l.size() && l[e] != ',' && l[e] != ')') e++; return l.substr(p, e - p); }
static std::string mdLine(u32 id) { auto it = M.mdPos.find(id); if (it == M.mdPos.end()) return ""; size_t e = M.src.find('\n', it->second); return M.src.substr(it->second, e - it->second); }
static void dbgChain(u32 id, std::vector<std::string>& out) { // innermost first: file:line:function
  int g = 0; while (id && g++ < 60) { std::string l = mdLine(id); if (l.find("DILocation(") == std::string::npos) return; std::string line = mdField(l, "line: "), sc = mdField(l, "scope: !"), ia = mdField(l, "inlinedAt: !"); u32 sid = atoi(sc.c_str()); std::string fnn, file; int h = 0; while (sid && h++ < 60) { std::string sl = mdLine(sid); if (file.empty()) { std::string fl = mdField(sl, "file: !"); if (!fl.empty()) file = mdField(mdLine(atoi(fl.c_str())), "filename: "); } if (sl.find("DISubprogram(") != std::string::npos) { fnn = mdField(sl, "name: "); break; } sid = atoi(mdField(sl, "scope: !").c_str()); } out.push_back(file + ":" + line + ":" + fnn); id = ia.empty() ? 0 : atoi(ia.c_str()); }
}
static std::string where(State* s) { if (s->fr.empty()) return "?"; Frame& f = s->fr.back(); std::string r = f.f->name.substr(0, 90); if (f.blk < f.f->bl.size() && f.ip < f.f->bl[f.blk].in.size()) { u32 d = f.f->bl[f.blk].in[f.ip].dbg; if (d) { std::vector<std::string> c; dbgChain(d, c); if (!c.empty()) r = c[0]; } } return r; }
static std::string stackOf(State* s) { std::string r; int n = 0; for (size_t i = s->fr.size(); i-- > 0 && n < 14;) { Frame& f = s->fr[i]; std::vector<std::string> c; if (f.blk < f.f->bl.size() && f.ip < f.f->bl[f.blk].in.size()) { u32 d = f.f->bl[f.blk].in[f.ip].dbg; if (d) dbgChain(d, c); } if (c.empty()) c.push_back(f.f->name); for (auto& x : c) { if (n++ < 14) { if (!r.empty()) r += " <- "; r += x; } } } return r; }

static void violation(State* s, const std::string& kind, const std::string& label, const std::string& loc, const Model& m) {
  std::string key = kind + "|" + label + "|" + loc; if (violKeys.count(key)) return; violKeys.insert(key); Violation v; v.kind = kind; v.label = label; v.loc = loc; v.stack = stackOf(s); v.syms = s->syms; v.m = m; viols.push_back(v);
}

// ------------------------------------------------------------------ calls
static Value mk(Expr* e) { Value v; v.e = e; return v; }
static Value pair(Expr* a, Expr* b) { Value v; v.agg = std::make_shared<std::vector<Value>>(); v.agg->push_back(mk(a)); v.agg->push_back(mk(b)); return v; }
static Expr* clz(Expr* e) { unsigned w = e->width; if (e->isC()) { unsigned n = 0; for (int i = w - 1; i >= 0 && !((e->c >> i) & 1); i--) n++; return X.C(n, w); } Expr* r = X.C(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(e, i, 1), X.C(w - 1 - i, w), r); return r; }
static Expr* ctz(Expr* e) { unsigned w = e->width; if (e->isC()) { unsigned n = 0; for (unsigned i = 0; i < w && !((e->c >> i) & 1); i++) n++; return X.C(n, w); } Expr* r = X.C(w, w); for (int i = w - 1; i >= 0; i--) r = X.ite(X.extract(e, i, 1), X.C(i, w), r); return r; }
static Value map2(const Value& a, const Value& b, std::function<Expr*(Expr*, Expr*)> f) { if (!a.agg) return mk(f(a.e, b.e)); Value v; v.agg = std::make_shared<std::vector<Value>>(); for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(mk(f((*a.agg)[i].e, (*b.agg)[i].e))); return v; }
static Value map1(const Value& a, std::function<Expr*(Expr*)> f) { if (!a.agg) return mk(f(a.e)); Value v; v.agg = std::make_shared<std::vector<Value>>(); for (auto& x : *a.agg) v.agg->push_back(mk(f(x.e))); return v; }

static bool intrinsic(State* s, const std::string& n, std::vector<Value>& a, Type* rt, Value& out) {
  auto has = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (has("llvm.lifetime.") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.dbg") || has("llvm.donothing") || has("llvm.prefetch") || has("llvm.x86.sse2.pause") || has("llvm.fake.use")) return true;
  if (has("llvm.expect")) { out = a[0]; return true; } if (has("llvm.is.constant")) { out = mk(X.F); return true; }
  if (has("llvm.threadlocal.address")) { out = a[0]; return true; } if (has("llvm.ptrmask")) { out = mk(X.bin(O_AND, a[0].e, a[1].e)); return true; }
  if (has("llvm.memcpy") || has("llvm.memmove")) { memCopy(s, a[0].e, a[1].e, a[2].e); return true; }
  if (has("llvm.memset")) { u64 len = concretize(s, a[2].e); if (!len) return true; Ref r = resolve(s, a[0].e, len); u64 off = concretize(s, r.off); Bytes* b = wr(s, r.o, r.base); if (a[1].e->isC()) { memset(&b->c[off], (int)a[1].e->c, len); if (!b->s.empty()) for (u64 i = 0; i < len; i++) b->s[off + i] = nullptr; } else for (u64 i = 0; i < len; i++) wrBytes(b, off + i, a[1].e, 1); return true; }
  if (n.find(".with.overflow.") != std::string::npos) { Expr *x = a[0].e, *y = a[1].e; unsigned w = x->width; bool sg = n[5] == 's'; std::string k = n.substr(6, 3); Op o = k == "add" ? O_ADD : k == "sub" ? O_SUB : O_MUL; Expr* r = X.bin(o, x, y); Expr* ov;
    if (!sg && o == O_ADD) ov = X.bin(O_ULT, r, x); else if (!sg && o == O_SUB) ov = X.bin(O_ULT, x, y);
    else if (sg && o == O_ADD && y->isC()) { i128 v = sextw(y->c, w); i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1; ov = v >= 0 ? X.bin(O_SLT, X.C((u128)(mx - v), w), x) : X.bin(O_SLT, x, X.C((u128)(mn - v), w)); }
    else if (sg && o == O_SUB && y->isC()) { i128 v = sextw(y->c, w); i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1; ov = v <= 0 ? X.bin(O_SLT, X.C((u128)(mx + v), w), x) : X.bin(O_SLT, x, X.C((u128)(mn + v), w)); }
    else { unsigned ww = o == O_MUL ? 2 * w : w + 1; if (ww > 128) { if (x->isC() && y->isC()) { if (w <= 64) throw EngineErr{"mulov"}; ov = X.F; } else throw EngineErr{"wide overflow op"}; } else {
      if (!sg && o == O_MUL && w <= 64 && (u128)x->hi * y->hi <= maskw(w)) ov = X.F;
      else { Expr* wx = sg ? X.sext(x, ww) : X.zext(x, ww); Expr* wy = sg ? X.sext(y, ww) : X.zext(y, ww); Expr* wres = X.bin(o, wx, wy); Expr* back = sg ? X.sext(X.extract(wres, 0, w), ww) : X.zext(X.extract(wres, 0, w), ww); ov = X.NOT(X.bin(O_EQ, wres, back)); } } }
    out = pair(r, ov); return true; }
  if (has("llvm.umax.")) { out = map2(a[0], a[1], [](Expr* x, Expr* y) { return X.ite(X.bin(O_ULT, x, y), y, x); }); return true; }
  if (has("llvm.umin.")) { out = map2(a[0], a[1], [](Expr* x, Expr* y) { return X.ite(X.bin(O_ULT, x, y), x, y); }); return true; }
  if (has("llvm.smax.")) { out = map2(a[0], a[1], [](Expr* x, Expr* y) { return X.ite(X.bin(O_SLT, x, y), y, x); }); return true; }
  if (has("llvm.smin.")) { out = map2(a[0], a[1], [](Expr* x, Expr* y) { return X.ite(X.bin(O_SLT, x, y), x, y); }); return true; }
  if (has("llvm.abs.")) { out = map1(a[0], [](Expr* x) { return X.ite(X.bin(O_SLT, x, X.C(0, x->width)), X.bin(O_SUB, X.C(0, x->width), x), x); }); return true; }
  if (has("llvm.ctlz.")) { out = map1(a[0], clz); return true; } if (has("llvm.cttz.")) { out = map1(a[0], ctz); return true; }
  if (has("llvm.ctpop.")) { out = map1(a[0], [](Expr* e) { Expr* r = X.C(0, e->width); for (unsigned i = 0; i < e->width; i++) r = X.bin(O_ADD, r, X.zext(X.extract(e, i, 1), e->width)); return r; }); return true; }
  if (has("llvm.bswap.")) { out = map1(a[0], [](Expr* e) { Expr* r = nullptr; for (unsigned i = 0; i < e->width; i += 8) { Expr* x = X.extract(e, i, 8); r = r ? X.concat(r, x) : x; } return r; }); return true; }
  if (has("llvm.bitreverse.")) { out = map1(a[0], [](Expr* e) { Expr* r = nullptr; for (unsigned i = 0; i < e->width; i++) { Expr* x = X.extract(e, i, 1); r = r ? X.concat(r, x) : x; } return r; }); return true; }
  if (has("llvm.fshl.") || has("llvm.fshr.")) { Expr *x = a[0].e, *y = a[1].e, *z = a[2].e; unsigned w = x->width; if (2 * w > 128) throw EngineErr{"fsh"}; Expr* cc = X.concat(x, y); Expr* sh = X.zext(X.bin(O_UREM, z, X.C(w, w)), 2 * w); if (n[8] == 'l') out = mk(X.extract(X.bin(O_SHL, cc, sh), w, w)); else out = mk(X.extract(X.bin(O_LSHR, cc, sh), 0, w)); return true; }
  if (has("llvm.usub.sat")) { out = map2(a[0], a[1], [](Expr* x, Expr* y) { return X.ite(X.bin(O_ULT, x, y), X.C(0, x->width), X.bin(O_SUB, x, y)); }); return true; }
  if (has("llvm.uadd.sat")) { out = map2(a[0], a[1], [](Expr* x, Expr* y) { Expr* r = X.bin(O_ADD, x, y); return X.ite(X.bin(O_ULT, r, x), X.C(~(u128)0, x->width), r); }); return true; }
  if (has("llvm.ssub.sat") || has("llvm.sadd.sat")) { bool sub = n[6] == 's'; out = map2(a[0], a[1], [&](Expr* x, Expr* y) { unsigned w = x->width; Expr* r = X.bin(sub ? O_SUB : O_ADD, X.sext(x, w + 1), X.sext(y, w + 1)); Expr* mx = X.C(maskw(w) >> 1, w); Expr* mn = X.C((maskw(w) >> 1) + 1, w); return X.ite(X.bin(O_SLT, X.sext(mx, w + 1), r), mx, X.ite(X.bin(O_SLT, r, X.sext(mn, w + 1)), mn, X.extract(r, 0, w))); }); return true; }
  if (has("llvm.ucmp.") || has("llvm.scmp.")) { Op lt = n[5] == 'u' ? O_ULT : O_SLT; unsigned w = rt->bits; out = mk(X.ite(X.bin(lt, a[0].e, a[1].e), X.C(~(u128)0, w), X.ite(X.bin(O_EQ, a[0].e, a[1].e), X.C(0, w), X.C(1, w)))); return true; }
  if (has("llvm.vector.reduce.")) { std::string k = n.substr(19); k = k.substr(0, k.find('.')); Expr* r = nullptr; for (auto& x : *a[0].agg) { if (!r) r = x.e; else if (k == "or") r = X.bin(O_OR, r, x.e); else if (k == "and") r = X.bin(O_AND, r, x.e); else if (k == "add") r = X.bin(O_ADD, r, x.e); else if (k == "xor") r = X.bin(O_XOR, r, x.e); else if (k == "umax") r = X.ite(X.bin(O_ULT, r, x.e), x.e, r); else if (k == "umin") r = X.ite(X.bin(O_ULT, r, x.e), r, x.e); else if (k == "smax") r = X.ite(X.bin(O_SLT, r, x.e), x.e, r); else if (k == "smin") r = X.ite(X.bin(O_SLT, r, x.e), r, x.e); else return false; } out = mk(r); return true; }
  if (has("llvm.x86.sse2.pmovmskb")) { Expr* r = nullptr; for (auto& x : *a[0].agg) { Expr* b = X.extract(x.e, x.e->width - 1, 1); r = r ? X.concat(b, r) : b; } out = mk(X.zext(r, 32)); return true; }
  if (has("llvm.objectsize")) { out = mk(X.C(~0ull, rt->bits)); return true; }
  if (has("llvm.trap")) throw PathEnd{"trap"};
  return false;
}
static std::string panicLoc(State* s, std::vector<Value>& a) { // last pointer argument that looks like &Location{ptr,len,line,col}
  for (size_t i = a.size(); i-- > 0;) if (a[i].e && a[i].e->isC() && a[i].e->width == 64) { u64 base; Obj* o = findObj(s, (u64)a[i].e->c, base); if (!o || (u64)a[i].e->c + 24 > base + o->size) continue; ensureG(o, base); u64 off = (u64)a[i].e->c - base; Expr *p = rdBytes(o, off, 8), *l = rdBytes(o, off + 8, 8), *ln = rdBytes(o, off + 16, 4), *col = rdBytes(o, off + 20, 4); if (!p->isC() || !l->isC() || l->c > 300) continue; std::string f = cstrAt(s, (u64)p->c, (u64)l->c); if (f.find(".rs") == std::string::npos) continue; if (f.size() && f.back() == 0) f.pop_back(); return f + ":" + std::to_string((u64)ln->c) + ":" + std::to_string((u64)col->c); }
  return "";
}
static bool isPanicFn(const std::string& n) {
  static const char* k[] = {"4core9panicking", "rust_begin_unwind", "9panicking20rust_panic_with_hook", "9panicking11begin_panic", "4core6option13unwrap_failed", "4core6option13expect_failed", "4core6result13unwrap_failed", "5slice5index16slice_index_fail", "4core3str16slice_error_fail", "7raw_vec12handle_error", "7raw_vec17capacity_overflow", "5alloc18handle_alloc_error", "4core4cell22panic_already_borrowed", "4core4cell30panic_already_mutably_borrowed", "copy_from_slice_impl17len_mismatch_fail", "4core4cell26panic_already_mut_borrowed"};
  for (auto x : k) if (n.find(x) != std::string::npos) return true; return false;
}
static Expr* errnoPtr(State* s) { static const u64 A = 0x6fff000000ull; if (!s->mem.count(A)) { Obj o; o.size = 16; o.ro = false; o.kind = 1; o.b = std::make_shared<Bytes>(); o.b->c.assign(16, 0); s->mem[A] = o; } return X.C(A, 64); }
// external functions; returns true if handled
static bool external(State* s, const std::string& n, std::vector<Value>& a, Type* rt, Value& out) {
  auto E = [&](int i) { return a[i].e; }; auto ret = [&](u128 v) { out = mk(X.C(v, rt->bits ? rt->bits : 64)); return true; };
  if (n == "verif_sym") { u64 p = concretize(s, E(0)), len = concretize(s, E(1)); std::string nm = cstrAt(s, concretize(s, E(2)), concretize(s, E(3))); u32 seq = s->syms.size(); SymRec r; r.name = nm; r.len = len;
    Ref rf = resolve(s, X.C(p, 64), len); Bytes* b = wr(s, rf.o, rf.base); u64 off = p - rf.base;
    if (!opt.concrete.empty()) { if (seq >= concFile.size()) throw EngineErr{"concrete input exhausted"}; for (u64 i = 0; i < len; i++) wrBytes(b, off + i, X.C(i < concFile[seq].second.size() ? concFile[seq].second[i] : 0, 8), 1); s->syms.push_back(r); return true; }
    u64 step = len <= 8 ? len : 1; for (u64 i = 0; i < len; i += step) { std::string key = std::to_string(seq) + ":" + nm + ":" + std::to_string(len) + ":" + std::to_string(i); auto it = varIdx.find(key); int ix; if (it == varIdx.end()) { X.newVar(nm, step * 8); ix = X.vars.size() - 1; varIdx[key] = ix; } else ix = it->second; r.vars.push_back(ix); Expr* v = X.intern(O_VAR, step * 8, 0, ix, 0, 0, 0); wrBytes(b, off + i, v, step); }
    s->syms.push_back(r); return true; }
  if (n == "verif_assume") { Expr* c = X.extract(E(0), 0, 1); if (c->isC()) { if (!c->c) throw PathEnd{"assume"}; return true; } if (X.eval(c, mod(s))) { addPC(s, c); return true; } Model m; Res r = feasible(s, c, m); if (r == UNK) throw EngineErr{"solver unknown (assume)"}; if (r == UNSAT) throw PathEnd{"assume"}; if (!inPC(s, c)) s->model = std::make_shared<Model>(m); addPC(s, c); return true; }
  if (n == "verif_assert") { Expr* c = X.extract(E(0), 0, 1); std::string lb = cstrAt(s, concretize(s, E(1)), concretize(s, E(2))); assertCount[lb]++; st.asserts++; if (c->isC()) { if (c->c) return true; violation(s, "assert", lb, "", mod(s)); throw PathEnd{"assert"}; }
    st.assertQ++; Model m; Expr* nc = X.NOT(c); Res r = feasible(s, nc, m); if (r == UNK) throw EngineErr{"solver unknown (assert " + lb + ")"}; if (r == SAT) { if (inPC(s, nc)) m = mod(s); violation(s, "assert", lb, "", m); Model m2; if (feasible(s, c, m2) != SAT) throw PathEnd{"assert"}; if (!inPC(s, c)) s->model = std::make_shared<Model>(m2); addPC(s, c); }
    else if (!opt.dumpDir.empty()) { std::vector<Expr*> cs; slice(s, nc, cs); S.dump(cs, "unsat"); }
    return true; }
  if (n == "verif_reach") { reach[cstrAt(s, concretize(s, E(0)), concretize(s, E(1)))]++; return true; }
  if (n == "verif_concretize") { out = mk(X.C(concretize(s, E(0)), 64)); return true; }
  if (n == "verif_symbolic") { return ret(1); }
  if (n == "verif_expect_panic") { s->expectPanic = E(0)->c & 1; return true; }
  if (n == "verif_out") { s->outE.push_back(E(0)); return true; }
  if (n == "verif_log") { fprintf(stderr, "log: %s\n", cstrAt(s, concretize(s, E(0)), concretize(s, E(1))).c_str()); return true; }
  if (n == "malloc") { return ret(allocObj(s, concretize(s, E(0)), 16, 2)); }
  if (n == "calloc") { return ret(allocObj(s, concretize(s, E(0)) * concretize(s, E(1)), 16, 2)); }
  if (n == "posix_memalign") { u64 al = concretize(s, E(1)), sz = concretize(s, E(2)); u64 p = concretize(s, E(0)); u64 r = allocObj(s, sz, al, 2); memWrite(s, X.C(p, 64), X.C(r, 64), 8); return ret(0); }
  if (n == "realloc") { u64 p = concretize(s, E(0)), sz = concretize(s, E(1)); u64 q = allocObj(s, sz, 16, 2); if (p) { auto it = s->mem.find(p); if (it == s->mem.end()) throw EngineErr{"realloc of bad pointer"}; u64 k = std::min(sz, it->second.size); memCopy(s, X.C(q, 64), X.C(p, 64), X.C(k, 64)); s->mem.erase(p); } return ret(q); }
  if (n == "free") { u64 p = concretize(s, E(0)); if (p) { auto it = s->mem.find(p); if (it == s->mem.end()) throw EngineErr{"free of bad pointer at " + where(s)}; s->mem.erase(it); } return true; }
  if (n == "bcmp" || n == "memcmp") { u64 len = concretize(s, E(2)); if (!len) return ret(0); Ref x = resolve(s, E(0), len); u64 xo = concretize(s, x.off); Ref y = resolve(s, E(1), len); u64 yo = concretize(s, y.off); Expr* r = X.C(0, 32); if (x.o->b->s.empty() && y.o->b->s.empty()) { int k = memcmp(&x.o->b->c[xo], &y.o->b->c[yo], len); return ret(k < 0 ? 0xffffffffu : k > 0); }
    auto symAt = [](Obj* o, u64 i) { return !o->b->s.empty() && o->b->s[i]; };
    if (n == "bcmp") { Expr* eq = X.T; for (u64 i = 0; i < len; i++) if (!symAt(x.o, xo + i) && !symAt(y.o, yo + i)) { if (x.o->b->c[xo + i] != y.o->b->c[yo + i]) { eq = X.F; break; } } else eq = X.bin(O_AND, eq, X.bin(O_EQ, rdBytes(x.o, xo + i, 1), rdBytes(y.o, yo + i, 1))); r = X.zext(X.NOT(eq), 32); } else for (u64 i = len; i-- > 0;) { Expr *p = rdBytes(x.o, xo + i, 1), *q = rdBytes(y.o, yo + i, 1); r = X.ite(X.bin(O_EQ, p, q), r, X.ite(X.bin(O_ULT, p, q), X.C(~(u128)0, 32), X.C(1, 32))); } out = mk(r); return true; }
  if (n == "memcpy" || n == "memmove") { memCopy(s, E(0), E(1), E(2)); out = a[0]; return true; }
  if (n == "strlen") { Ref r = resolve(s, E(0), 1); u64 o = concretize(s, r.off); for (u64 i = 0;; i++) { Expr* b = rdBytes(r.o, o + i, 1); if (decide(s, X.bin(O_EQ, b, X.C(0, 8)))) return ret(i); } }
  if (n == "__errno_location") { out = mk(errnoPtr(s)); return true; }
  if (n == "getenv") return ret(0); if (n == "gettid" || n == "getpid") return ret(1); if (n == "pthread_self") return ret(1); if (n == "__cxa_thread_atexit_impl" || n == "pthread_setspecific" || n == "pthread_key_create" || n == "pthread_key_delete" || n == "close" || n == "atexit") return ret(0);
  if (n == "pthread_getspecific") return ret(0); if (n == "sysconf") return ret(4096); if (n == "getauxval") return ret(0);
  if (n == "__xpg_strerror_r") { u64 p = concretize(s, E(1)); if (concretize(s, E(2)) < 6) return ret(34); for (int i = 0; i < 6; i++) memWrite(s, X.C(p + i, 64), X.C((u8)"error"[i], 8), 1); return ret(0); } // the text is not judged
  if (n == "isatty") return ret(0);
  if (n == "syscall") { u64 k = concretize(s, E(0)); if (k == 1) return ret(concretize(s, E(3))); // output to the terminal is discarded
    if (k == 318) { // getrandom: fixed bytes
      u64 p = concretize(s, E(1)), len = concretize(s, E(2)); for (u64 i = 0; i < len; i++) memWrite(s, X.C(p + i, 64), X.C(0x5a + i, 8), 1); return ret(len); } if (k == 186) return ret(1); return ret(0); }
  if (n == "getrandom") { u64 p = concretize(s, E(0)), len = concretize(s, E(1)); for (u64 i = 0; i < len; i++) memWrite(s, X.C(p + i, 64), X.C(0x5a + i, 8), 1); return ret(len); }
  if (n == "write") { return ret(concretize(s, E(2))); } // fd output is discarded
  if (n == "writev") { u64 c = concretize(s, E(2)), p = concretize(s, E(1)), t = 0; for (u64 i = 0; i < c; i++) t += concretize(s, memRead(s, X.C(p + 16 * i + 8, 64), 8)); return ret(t); }
  if (n == "_exit") throw PathEnd{"end"}; if (n == "exit") throw PathEnd{"exit"}; if (n == "abort") throw PathEnd{"abort"};
  return false;
}
static bool isExt(const std::string& n) { return n.compare(0, 6, "verif_") == 0; }

// ------------------------------------------------------------------ interpreter
static State* curS;
static Value get(Frame& f, const Operand& o) { if (o.reg < 0) return o.v; const Value& v = f.regs[o.reg]; if (v.e && !v.e->isC() && !curS->bnd.empty()) { if (v.e->width <= 64) { Rg q = rng(curS, v.e, 7); if (q.first == q.second) { Value r; r.e = X.C(q.first, v.e->width); return r; } } } return v; }
static void note(Expr* r, int op, Expr* a, Expr* b) { if (r->isC() || a->width > 64) return; if (r->op == op && r->k[0] == a && r->k[1] == b) return; auto& v = origin[r]; if (v.size() >= 3) return; for (auto& t : v) if (std::get<1>(t) == a && std::get<2>(t) == b && std::get<0>(t) == op) return; v.push_back(std::make_tuple(op, a, b)); }
static Expr* icmp0(int p, Expr* a, Expr* b) { switch (p) { case P_EQ: return X.bin(O_EQ, a, b); case P_NE: return X.NOT(X.bin(O_EQ, a, b)); case P_UGT: return X.bin(O_ULT, b, a); case P_UGE: return X.bin(O_ULE, b, a); case P_ULT: return X.bin(O_ULT, a, b); case P_ULE: return X.bin(O_ULE, a, b); case P_SGT: return X.bin(O_SLT, b, a); case P_SGE: return X.bin(O_SLE, b, a); case P_SLT: return X.bin(O_SLT, a, b); default: return X.bin(O_SLE, a, b); } }
static Expr* icmp(int p, Expr* a, Expr* b) { Expr* r = icmp0(p, a, b); if (r->isC()) return r; switch (p) { case P_EQ: note(r, O_EQ, a, b); break; case P_NE: { Expr* q = X.NOT(r); note(q, O_EQ, a, b); break; } case P_UGT: note(r, O_ULT, b, a); break; case P_UGE: note(r, O_ULE, b, a); break; case P_ULT: note(r, O_ULT, a, b); break; case P_ULE: note(r, O_ULE, a, b); break; case P_SGT: note(r, O_SLT, b, a); break; case P_SGE: note(r, O_SLE, b, a); break; case P_SLT: note(r, O_SLT, a, b); break; default: note(r, O_SLE, a, b); } return r; }
static void jump(State* s, u32 tgt) { Frame& f = s->fr.back(); u32 from = f.blk; Block& b = f.f->bl[tgt]; std::vector<std::pair<int, Value>> ph; u32 i = 0; for (; i < b.in.size() && b.in[i].op == I_PHI; i++) { Inst& in = b.in[i]; bool ok = false; for (size_t k = 0; k < in.tgt.size(); k++) if (in.tgt[k] == from) { ph.push_back({in.dest, get(f, in.a[k])}); ok = true; break; } if (!ok) throw EngineErr{"phi without edge in " + f.f->name}; } for (auto& p : ph) f.regs[p.first] = p.second; f.blk = tgt; f.ip = i; }
static void enter(State* s, Function* fn, std::vector<Value>& args, int retReg, int retTgt) { M.parseFn(fn); fn->hit = true; if (s->fr.size() > 400) throw EngineErr{"call depth"}; Frame f; f.f = fn; f.regs.resize(fn->nregs); f.retReg = retReg; f.retTgt = retTgt; for (size_t i = 0; i < fn->argRegs.size() && i < args.size(); i++) f.regs[fn->argRegs[i]] = args[i]; s->fr.push_back(std::move(f)); }
static void setDest(State* s, const Inst& in, const Value& v) { if (in.dest >= 0) s->fr.back().regs[in.dest] = v; }
static double asD(Expr* e) { if (!e->isC()) throw EngineErr{"symbolic float"}; if (e->width == 32) { float f; u32 b = (u32)e->c; memcpy(&f, &b, 4); return f; } double d; u64 b = (u64)e->c; memcpy(&d, &b, 8); return d; }
static Expr* fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return X.C(b, 32); } u64 b; memcpy(&b, &d, 8); return X.C(b, 64); }
static Value castV(const Value& v, Type* from, Type* to, int sub, const Inst& in) {
  if (sub == C_FP) { const std::string& w = in.text; if (w == "uitofp") { if (!v.e->isC()) throw EngineErr{"symbolic float"}; return mk(fromD((double)(u64)v.e->c, to->bits)); } if (w == "sitofp") { if (!v.e->isC()) throw EngineErr{"symbolic float"}; return mk(fromD((double)(i64)sextw(v.e->c, v.e->width), to->bits)); } if (w == "fpext" || w == "fptrunc") return mk(fromD(asD(v.e), to->bits)); double d = asD(v.e); return mk(X.C(w == "fptoui" ? (u128)(u64)d : (u128)(i128)(i64)d, to->bits)); }
  if (sub == C_BITCAST) {
    if (!v.agg && to->k != Type::VECTOR) return v;
    Expr* e = nullptr; if (v.agg) { for (auto& x : *v.agg) e = e ? X.concat(x.e, e) : x.e; } else e = v.e;
    if (to->k != Type::VECTOR) return mk(e); Value r; r.agg = std::make_shared<std::vector<Value>>(); for (u64 i = 0; i < to->n; i++) r.agg->push_back(mk(X.extract(e, i * to->el->bits, to->el->bits))); return r; }
  unsigned tb = to->k == Type::VECTOR ? to->el->bits : to->bits; return map1(v, [&](Expr* e) { return sub == C_TRUNC ? X.extract(e, 0, tb) : sub == C_ZEXT ? X.zext(e, tb) : X.sext(e, tb); });
}
static void step(State* s) {
  curS = s; Frame* f = &s->fr.back(); const Inst& in = f->f->bl[f->blk].in[f->ip]; st.insts++; s->steps++;
  if (in.dbg) dbgHit.insert(in.dbg);
  switch (in.op) {
    case I_BIN: { Value a = get(*f, in.a[0]), b = get(*f, in.a[1]); if (b.e && !b.e->isC() && (in.sub == O_SHL || in.sub == O_LSHR || in.sub == O_ASHR)) { b.e = X.C(concretize(s, b.e), b.e->width); } f->regs[in.dest] = a.agg ? map2(a, b, [&](Expr* x, Expr* y) { return X.bin((Op)in.sub, x, y); }) : mk(X.bin((Op)in.sub, a.e, b.e)); f->ip++; return; }
    case I_ICMP: { Value a = get(*f, in.a[0]), b = get(*f, in.a[1]); f->regs[in.dest] = a.agg ? map2(a, b, [&](Expr* x, Expr* y) { return icmp(in.sub, x, y); }) : mk(icmp(in.sub, a.e, b.e)); f->ip++; return; }
    case I_LOAD: { Value v = load(s, in.ty, get(*f, in.a[0]).e); f->regs[in.dest] = v; f->ip++; return; }
    case I_STORE: { Value v = get(*f, in.a[0]); Expr* p = get(*f, in.a[1]).e; if (!p->isC()) { // concretise a symbolic store address first (no partial effects before forking)
        Ref r = resolve(s, p, std::max<u64>(1, in.ty->size)); concretize(s, r.off); p = X.C(X.eval(p, mod(s)), 64); } store(s, v, in.ty, p); f->ip++; return; }
    case I_GEP: { Expr* e = get(*f, in.a[0]).e; if (in.extra) e = X.bin(O_ADD, e, X.C(in.extra, 64)); for (size_t i = 1; i < in.a.size(); i++) { Expr* x = get(*f, in.a[i]).e; x = X.sext(forced(s, x), 64); e = X.bin(O_ADD, e, X.bin(O_MUL, x, X.C(in.scale[i - 1], 64))); } f->regs[in.dest] = mk(e); f->ip++; return; }
    case I_CAST: f->regs[in.dest] = castV(get(*f, in.a[0]), in.a[0].ty, in.ty, in.sub, in); f->ip++; return;
    case I_SELECT: { Value c = get(*f, in.a[0]), a = get(*f, in.a[1]), b = get(*f, in.a[2]); Value r; if (c.agg) { r.agg = std::make_shared<std::vector<Value>>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(mk(X.ite((*c.agg)[i].e, (*a.agg)[i].e, (*b.agg)[i].e))); } else { std::function<Value(const Value&, const Value&)> sel = [&](const Value& p, const Value& q) -> Value { if (!p.agg) return mk(X.ite(c.e, p.e, q.e)); Value z; z.agg = std::make_shared<std::vector<Value>>(); for (size_t i = 0; i < p.agg->size(); i++) z.agg->push_back(sel((*p.agg)[i], (*q.agg)[i])); return z; }; r = sel(a, b); } f->regs[in.dest] = r; f->ip++; return; }
    case I_BR: jump(s, in.tgt[0]); return;
    case I_CBR: { Expr* c = get(*f, in.a[0]).e; bool t = decide(s, c); jump(s, in.tgt[t ? 0 : 1]); return; }
    case I_SWITCH: { Expr* v = get(*f, in.a[0]).e; if (v->isC()) { for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v->c) { jump(s, in.tgt[i + 1]); return; } jump(s, in.tgt[0]); return; }
        u128 cv = X.eval(v, mod(s)); u32 tg = in.tgt[0]; bool found = false; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == cv) { tg = in.tgt[i + 1]; found = true; break; }
        // condition for reaching tg
        Expr* c; if (found && tg != in.tgt[0]) { c = X.F; for (size_t i = 0; i < in.cases.size(); i++) if (in.tgt[i + 1] == tg) c = X.bin(O_OR, c, X.bin(O_EQ, v, X.C(in.cases[i], v->width))); } else { c = X.T; for (size_t i = 0; i < in.cases.size(); i++) if (in.tgt[i + 1] != tg) c = X.bin(O_AND, c, X.NOT(X.bin(O_EQ, v, X.C(in.cases[i], v->width)))); }
        if (!decide(s, c)) throw EngineErr{"switch"}; jump(s, tg); return; }
    case I_RET: { Value v; if (!in.a.empty()) v = get(*f, in.a[0]); for (u64 a : f->allocas) s->mem.erase(a); int rr = f->retReg, rt = f->retTgt; s->fr.pop_back(); if (s->fr.empty()) throw PathEnd{"end"}; Frame& g = s->fr.back(); if (rr >= 0) g.regs[rr] = v; if (rt >= 0) jump(s, rt); else g.ip++; return; }
    case I_ALLOCA: { u64 a = allocObj(s, in.extra, in.idx[0], 1); f->allocas.push_back(a); f->regs[in.dest] = mk(X.C(a, 64)); f->ip++; return; }
    case I_EXTRACTVALUE: { Value v = get(*f, in.a[0]); for (u64 i : in.idx) { Value t = (*v.agg)[i]; v = t; } f->regs[in.dest] = v; f->ip++; return; }
    case I_INSERTVALUE: { Value v = get(*f, in.a[0]); Value x = get(*f, in.a[1]); std::function<Value(const Value&, size_t)> ins = [&](const Value& o, size_t d) -> Value { if (d == in.idx.size()) return x; Value n; n.agg = std::make_shared<std::vector<Value>>(*o.agg); (*n.agg)[in.idx[d]] = ins((*o.agg)[in.idx[d]], d + 1); return n; }; f->regs[in.dest] = ins(v, 0); f->ip++; return; }
    case I_EXTRACTELEM: { Value v = get(*f, in.a[0]); u64 i = concretize(s, get(*f, in.a[1]).e); Value t = (*v.agg)[i]; f->regs[in.dest] = t; f->ip++; return; }
    case I_INSERTELEM: { Value v = get(*f, in.a[0]); Value x = get(*f, in.a[1]); u64 i = concretize(s, get(*f, in.a[2]).e); Value n; n.agg = std::make_shared<std::vector<Value>>(*v.agg); (*n.agg)[i] = x; f->regs[in.dest] = n; f->ip++; return; }
    case I_SHUFFLE: { Value a = get(*f, in.a[0]), b = get(*f, in.a[1]), m = get(*f, in.a[2]); Value n; n.agg = std::make_shared<std::vector<Value>>(); size_t k = a.agg->size(); for (auto& x : *m.agg) { u64 i = (u64)x.e->c; n.agg->push_back(i < k ? (*a.agg)[i] : (*b.agg)[i - k]); } f->regs[in.dest] = n; f->ip++; return; }
    case I_FREEZE: f->regs[in.dest] = get(*f, in.a[0]); f->ip++; return;
    case I_FENCE: case I_NOP: f->ip++; return;
    case I_CMPXCHG: { Expr* p = get(*f, in.a[0]).e; Value cur = load(s, in.ty, p); Expr* eq = X.bin(O_EQ, cur.e, get(*f, in.a[1]).e); bool t = decide(s, eq); if (t) store(s, get(*f, in.a[2]), in.ty, p); f->regs[in.dest] = pair(cur.e, X.B(t)); f->ip++; return; }
    case I_RMW: { Expr* p = get(*f, in.a[0]).e; Value cur = load(s, in.ty, p); Expr* x = get(*f, in.a[1]).e; Expr* r; const std::string& o = in.text; if (o == "add") r = X.bin(O_ADD, cur.e, x); else if (o == "sub") r = X.bin(O_SUB, cur.e, x); else if (o == "xchg") r = x; else if (o == "or") r = X.bin(O_OR, cur.e, x); else if (o == "and") r = X.bin(O_AND, cur.e, x); else if (o == "xor") r = X.bin(O_XOR, cur.e, x); else throw EngineErr{"rmw " + o}; store(s, mk(r), in.ty, p); f->regs[in.dest] = cur; f->ip++; return; }
    case I_FBIN: { double a = asD(get(*f, in.a[0]).e), b = asD(get(*f, in.a[1]).e), r; if (in.text == "fadd") r = a + b; else if (in.text == "fsub") r = a - b; else if (in.text == "fmul") r = a * b; else if (in.text == "fdiv") r = a / b; else r = fmod(a, b); f->regs[in.dest] = mk(fromD(r, in.ty->bits)); f->ip++; return; }
    case I_FCMP: { double a = asD(get(*f, in.a[0]).e), b = asD(get(*f, in.a[1]).e); const std::string& p = in.text; bool un = std::isnan(a) || std::isnan(b), r; std::string q = p.substr(1); if (p == "ord") r = !un; else if (p == "uno") r = un; else if (p == "true") r = true; else if (p == "false") r = false; else { r = q == "eq" ? a == b : q == "ne" ? (a != b && !un) : q == "lt" ? a < b : q == "le" ? a <= b : q == "gt" ? a > b : a >= b; if (p[0] == 'u') r = r || un; } f->regs[in.dest] = mk(X.B(r)); f->ip++; return; }
    case I_CALL: {
      std::vector<Value> args; size_t i0 = in.extra ? 1 : 0; for (size_t i = i0; i < in.a.size(); i++) args.push_back(get(*f, in.a[i]));
      Function* fn = in.callee; if (in.extra) { u64 a = concretize(s, get(*f, in.a[0]).e); auto it = M.fnByAddr.find(a); if (it == M.fnByAddr.end()) throw EngineErr{"indirect call to non-function at " + where(s)}; fn = it->second; }
      if (opt.trace) fprintf(stderr, "%*scall %s\n", (int)s->fr.size(), "", fn->name.c_str());
      if (isPanicFn(fn->name)) { std::string loc = panicLoc(s, args); if (loc.empty()) loc = where(s); if (s->expectPanic) throw PathEnd{"expected-panic"}; violation(s, "panic", fn->name.find("panic_const") != std::string::npos || true ? "panic" : "", loc, mod(s)); throw PathEnd{"panic"}; }
      Value out; bool done = false;
      if (fn->name.compare(0, 5, "llvm.") == 0) { if (!intrinsic(s, fn->name, args, in.ty, out)) throw EngineErr{"intrinsic " + fn->name}; done = true; }
      else if (!fn->defined || isExt(fn->name)) { if (!external(s, fn->name, args, in.ty, out)) throw EngineErr{"external " + fn->name + " at " + where(s)}; if (!isExt(fn->name)) extsUsed.insert(fn->name); done = true; }
      if (done) { Frame& g = s->fr.back(); if (in.dest >= 0) g.regs[in.dest] = out; if (!in.tgt.empty()) jump(s, in.tgt[0]); else g.ip++; return; }
      enter(s, fn, args, in.dest, in.tgt.empty() ? -1 : (int)in.tgt[0]); return; }
    case I_UNREACH: { violation(s, "unreachable", "unreachable", where(s), mod(s)); throw PathEnd{"unreachable"}; }
    default: throw EngineErr{"unsupported: " + in.text};
  }
}
static void runState(State* s) { // runs until the path ends; forks are pushed on `work`
  std::string why;
  try { for (;;) { if (s->steps > opt.maxSteps) { violation(s, "nontermination", "step budget exceeded", where(s), mod(s)); throw PathEnd{"budget"}; } if ((st.insts & 0x3fff) == 0 && now() - t0 > opt.timeout) throw EngineErr{"timeout"}; step(s); } }
  catch (PathEnd& p) { why = p.why; } catch (EngineErr& e) { why = "error"; errors[e.m]++; } catch (ParseErr& e) { why = "error"; errors["parse: " + e.m]++; }
  if (opt.samples && opt.concrete.empty()) { VarSet* used = X.emptySet; for (auto c : s->pc) used = X.un(used, c->vars); auto nm = std::make_shared<Model>(mod(s)); nm->resize(X.vars.size(), 0); static u64 rs = opt.seed * 7919 + 17; for (auto& r : s->syms) for (int v : r.vars) { bool u = (size_t)v / 64 < used->w.size() && (used->w[v / 64] >> (v % 64) & 1); if (!u) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; u64 x = (rs >> 20) ^ (rs << 40); (*nm)[v] = X.vars[v].width >= 64 ? x : x & ((1ull << X.vars[v].width) - 1); } } s->model = nm; }
  for (Expr* e : s->outE) s->outs.push_back((u64)X.eval(e, mod(s)));
  st.paths++; if (opt.samples && (why == "end" || why == "expected-panic")) { if (lcg == 1) lcg = opt.seed * 0x9E3779B97F4A7C15ull + 12345; lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; Sample q{s->syms, mod(s), s->outs, why != "end"}; sampleSeen++; if (samples.size() < opt.samples) samples.push_back(q); else { u64 j = (lcg >> 33) % sampleSeen; if (j < opt.samples) samples[j] = q; } }
  if (why == "end") { st.ended++; reach["end"]++; if (!opt.concrete.empty()) { printf("OUT"); for (u64 o : s->outs) printf(" %llu", (unsigned long long)o); printf("\n"); } } else if (why == "assume") st.assumed++; else if (why == "exit") reach["exit"]++; else if (why == "expected-panic") { reach["expected-panic"]++; st.ended++; } else if (why == "abort" || why == "trap") { violation(s, "abort", why, where(s), mod(s)); }
  if (!opt.concrete.empty() && why != "end") printf("OUT %s\n", why.c_str());
  delete s;
}
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void emitJson(FILE* o) {
  fprintf(o, "{\"paths\":%llu,\"ended\":%llu,\"assumed\":%llu,\"forks\":%llu,\"queries\":%llu,\"solver_calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"insts\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"fallback\":%llu,\"ranged\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"vars\":%zu,\"dumped\":%llu,", (unsigned long long)st.paths, (unsigned long long)st.ended, (unsigned long long)st.assumed, (unsigned long long)st.forks, (unsigned long long)st.queries, (unsigned long long)st.solverCalls, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.insts, (unsigned long long)st.asserts, (unsigned long long)st.assertQ, (unsigned long long)st.fallback, (unsigned long long)st.ranged, st.solverT, st.maxQ, now() - t0, X.vars.size(), (unsigned long long)S.dumped);
  auto mp = [&](const char* n, std::map<std::string, u64>& m) { fprintf(o, "\"%s\":{", n); bool f = true; for (auto& x : m) { fprintf(o, "%s%s:%llu", f ? "" : ",", js(x.first).c_str(), (unsigned long long)x.second); f = false; } fprintf(o, "},"); };
  mp("reach", reach); mp("assert_labels", assertCount); mp("errors", errors); if (opt.verbose) { mp("fork_at", forkAt); mp("query_at", queryAt); }
  std::set<std::string> fns; for (u32 d : dbgHit) { std::vector<std::string> c; dbgChain(d, c); for (auto& x : c) { size_t a = x.find(':'); size_t b = x.rfind(':'); std::string file = x.substr(0, a); if (file.find("src/") == 0 || file.find("/src/") != std::string::npos) { if (file.find("/rustc") != std::string::npos || file.find("library/") != std::string::npos || file.find(".cargo") != std::string::npos) continue; fns.insert(file + "::" + x.substr(b + 1)); } } }
  fprintf(o, "\"functions\":["); bool f1 = true; for (auto& x : fns) { fprintf(o, "%s%s", f1 ? "" : ",", js(x).c_str()); f1 = false; } fprintf(o, "],\"externals\":["); f1 = true; for (auto& x : extsUsed) { fprintf(o, "%s%s", f1 ? "" : ",", js(x).c_str()); f1 = false; }
  auto inputs = [&](std::vector<SymRec>& syms, Model& m) { bool f2 = true; for (auto& r : syms) { std::string hex; u64 step = r.len <= 8 ? r.len : 1; for (size_t i = 0; i < r.vars.size(); i++) { u64 val = (size_t)r.vars[i] < m.size() ? m[r.vars[i]] : 0; for (u64 k = 0; k < step; k++) { char b[4]; snprintf(b, 4, "%02x", (u8)(val >> (8 * k))); hex += b; } } fprintf(o, "%s[%s,%u,\"%s\"]", f2 ? "" : ",", js(r.name).c_str(), r.len, hex.c_str()); f2 = false; } };
  fprintf(o, "],\"samples\":["); f1 = true; for (auto& q : samples) { fprintf(o, "%s{\"panic\":%s,\"inputs\":[", f1 ? "" : ",", q.panicked ? "true" : "false"); f1 = false; inputs(q.syms, q.m); fprintf(o, "],\"outs\":["); for (size_t i = 0; i < q.outs.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)q.outs[i]); fprintf(o, "]}"); }
  fprintf(o, "],\"violations\":["); f1 = true;
  for (auto& v : viols) { fprintf(o, "%s{\"kind\":%s,\"label\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":[", f1 ? "" : ",", js(v.kind).c_str(), js(v.label).c_str(), js(v.loc).c_str(), js(v.stack).c_str()); f1 = false; inputs(v.syms, v.m); fprintf(o, "]}"); }
  fprintf(o, "]}\n");
}
static bool stopNow() { return (int)viols.size() >= opt.maxViol || (opt.maxPaths && st.paths >= opt.maxPaths) || errors.size() > 20 || errors.count("timeout"); }
static u64 rssMB() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 / 1048576; }
static void drain() { u64 k = 0; while (!work.empty() && !stopNow()) { State* s = work.back(); work.pop_back(); runState(s); if ((++k & 63) == 0 && rssMB() > opt.memMB) { errors["memory limit"]++; break; } if (now() - t0 > opt.timeout) { errors["timeout"]++; break; } } if (!work.empty() && viols.empty()) errors["unexplored states left"] += work.size(); }

static int realMain(int argc, char** argv) {
  std::string ll, fn; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); }; if (a == "--ll") ll = nx(); else if (a == "--fn") fn = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--timeout") opt.timeout = atof(nx().c_str()); else if (a == "--workers") opt.workers = atoi(nx().c_str()); else if (a == "--steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--z3ms") opt.z3ms = atoi(nx().c_str()); else if (a == "--max-paths") opt.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str()); else if (a == "--concrete") opt.concrete = nx(); else if (a == "-v") opt.verbose = true; else if (a == "--trace") opt.trace = true; else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") opt.samples = atoi(nx().c_str()); else if (a == "--mem") opt.memMB = strtoull(nx().c_str(), 0, 10); else if (a == "--dump") { opt.dumpDir = nx(); opt.dumpMax = 200; } else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; } }
  t0 = now(); XP = new ExprMgr; MP = new Module(*XP); S.init();
  try { M.load(ll.c_str()); } catch (ParseErr& e) { fprintf(stderr, "IR parse error: %s\n", e.m.c_str()); return 3; }
  for (auto g : M.globals) { Obj o; o.size = g->size; o.ro = g->ro; o.kind = 0; gmem[g->addr] = o; globByAddr[g->addr] = g; }
  if (!opt.concrete.empty()) { std::ifstream f(opt.concrete); std::string l; while (std::getline(f, l)) { std::istringstream is(l); std::string n, h; u64 len; is >> n >> len >> h; std::vector<u8> b; for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((u8)strtoul(h.substr(i, 2).c_str(), 0, 16)); concFile.push_back({n, b}); } }
  auto it = M.fn.find(fn); if (it == M.fn.end() || !it->second->defined) { fprintf(stderr, "no function %s\n", fn.c_str()); return 3; }
  State* s = new State; s->model = std::make_shared<Model>(); std::vector<Value> none; enter(s, it->second, none, -1, -1); work.push_back(s);
  std::vector<std::string> parts;
  if (opt.workers > 1) { // breadth-first until there is enough work to share, then fork
    size_t want = opt.workers * 6; double b0 = now();
    while (!work.empty() && work.size() < want && !stopNow() && now() - b0 < 60) { State* s0 = work.front(); work.erase(work.begin()); runState(s0); }
    if (work.size() > 1 && !stopNow()) {
      u64* ctr = (u64*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctr[0] = 0; ctr[1] = 0; std::vector<State*> init = work; std::vector<pid_t> kids; fflush(stdout); fflush(stderr);
      std::string base = opt.out.empty() ? "/tmp/symex." + std::to_string(getpid()) : opt.out;
      for (int w = 0; w < opt.workers; w++) { std::string po = base + ".w" + std::to_string(w); parts.push_back(po); pid_t p = fork(); if (p == 0) { st = Stats(); reach.clear(); assertCount.clear(); errors.clear(); viols.clear(); work.clear(); samples.clear(); sampleSeen = 0; S.dumped = 0; for (;;) { u64 i = __sync_fetch_and_add(&ctr[0], 1); if (i >= init.size()) break; if (stopNow() || ctr[1]) { if (viols.empty() && !ctr[1]) errors["unexplored states left"]++; break; } work.push_back(init[i]); drain(); if (!viols.empty()) ctr[1] = 1; } FILE* o = fopen(po.c_str(), "w"); emitJson(o); fclose(o); _exit(0); } kids.push_back(p); }
      bool bad = false; for (pid_t p : kids) { int ws; waitpid(p, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) bad = true; } if (bad) errors["worker died"]++; work.clear();
    } else drain();
  } else drain();
  FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w"); emitJson(o); if (o != stdout) fclose(o); else fflush(stdout);
  return 0;
}
struct Args { int c; char** v; int r; };
static void* th(void* p) { Args* a = (Args*)p; a->r = realMain(a->c, a->v); return nullptr; }
int main(int argc, char** argv) { Args a{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t t; if (pthread_create(&t, &at, th, &a)) { perror("pthread"); return 3; } pthread_join(t, nullptr); fflush(stdout); fflush(stderr); _exit(a.r); }
