// symir: symbolic executor for LLVM IR with Z3.
// Usage: symir file.bc --out DIR --entries a,b,c [--jobs N] [--deadline S] [--samples N] [--seed N] [--max-steps N]
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <fstream>
#include <sstream>
#include <unordered_set>

#include "state.hpp"

ExprPool P;
Z3Side Z;
Program prog;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Opts {
  std::string file, out;
  std::vector<std::string> entries;
  int jobs = 8;
  double deadline = 600;
  int samples = 20;
  u64 seed = 1;
  u64 maxSteps = 400000000;
  unsigned maxViol = 6;
  bool dumpTrace = false;
  u64 qtimeout = 20000;
  std::string replay;  // concrete run: values file
} opt;
static double t0;

struct Shared {
  std::atomic<u32> nextItem;
  std::atomic<u32> violations;
};
static Shared* shared;

// ------------------------------------------------------------- statistics
struct Stats {
  u64 paths = 0, steps = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, asserts = 0,
      assertsSym = 0, assertsConst = 0, infeasible = 0, killed = 0, enumCut = 0, memChecks = 0, branchesSym = 0, errors = 0;
  double solver = 0;
} st;
static std::set<std::string> reachMarks, errorMsgs;
static std::vector<std::string> names{""};
static std::map<std::string, u32> nameIds;
static u32 nameId(const std::string& s) {
  auto it = nameIds.find(s);
  if (it != nameIds.end()) return it->second;
  names.push_back(s);
  return nameIds[s] = names.size() - 1;
}
static FILE* outf;
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}

struct PathEnd {};        // the current path is over
struct Violation { std::string kind, msg; };

// ------------------------------------------------------------- solver
enum Res { UNSAT, SAT, UNKNOWN };
struct Solver {
  Z3_solver s = nullptr;
  struct Hash { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
  std::unordered_map<std::vector<u32>, std::pair<Res, std::vector<std::pair<u32, u64>>>, Hash> cache;
  void init() {
    s = Z3_mk_simple_solver(Z.c);
    Z3_solver_inc_ref(Z.c, s);
    Z3_params p = Z3_mk_params(Z.c);
    Z3_params_inc_ref(Z.c, p);
    Z3_params_set_uint(Z.c, p, Z3_mk_string_symbol(Z.c, "timeout"), opt.qtimeout);
    Z3_solver_set_params(Z.c, s, p);
    Z3_params_dec_ref(Z.c, p);
  }
  static void vars(E e, std::map<u32, u8>& out, std::unordered_set<E>& seen) {
    if (e->op == E_CONST || !seen.insert(e).second) return;
    if (e->op == E_VAR) { out[e->extra] = e->width; return; }
    for (int i = 0; i < e->nargs; i++) vars(e->a[i], out, seen);
  }
  // Is pc && c satisfiable?  On SAT, *model is a model of pc && c.
  Res query(const State& S, E c, std::shared_ptr<const std::vector<u64>>* model) {
    if (c->op == E_CONST) {
      if (!c->cval) return UNSAT;
      if (model) *model = S.model;
      return SAT;
    }
    st.queries++;
    Mask m = c->mask;
    std::vector<char> in(S.pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < S.pc.size(); i++)
        if (!in[i] && S.pc[i]->mask.meets(m)) {
          in[i] = 1;
          if (!S.pc[i]->mask.within(m)) { m.add(S.pc[i]->mask); ch = true; }
        }
    }
    std::vector<u32> key;
    for (size_t i = 0; i < S.pc.size(); i++) if (in[i]) key.push_back(S.pc[i]->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(c->id);
    auto it = cache.find(key);
    if (it == cache.end()) {
      double a = now();
      Z3_solver_push(Z.c, s);
      std::map<u32, u8> vs;
      std::unordered_set<E> seen;
      for (size_t i = 0; i < S.pc.size(); i++)
        if (in[i]) { Z3_solver_assert(Z.c, s, Z.tr(S.pc[i])); vars(S.pc[i], vs, seen); }
      Z3_solver_assert(Z.c, s, Z.tr(c));
      vars(c, vs, seen);
      Z3_lbool r = Z3_solver_check(Z.c, s);
      std::pair<Res, std::vector<std::pair<u32, u64>>> res;
      if (r == Z3_L_TRUE) {
        res.first = SAT;
        Z3_model zm = Z3_solver_get_model(Z.c, s);
        Z3_model_inc_ref(Z.c, zm);
        for (auto& [v, w] : vs) {
          if (v >= UNDEF_BASE) continue;
          Z3_ast x;
          Z3_ast var = Z.tr(P.var(v, w));
          if (!Z3_model_eval(Z.c, zm, var, true, &x)) { fprintf(stderr, "model_eval failed\n"); exit(3); }
          u64 val = 0;
          if (w == 1) val = Z3_get_bool_value(Z.c, x) == Z3_L_TRUE;
          else Z3_get_numeral_uint64(Z.c, x, &val);
          res.second.push_back({v, val});
        }
        Z3_model_dec_ref(Z.c, zm);
      } else if (r == Z3_L_FALSE) res.first = UNSAT;
      else { res.first = UNKNOWN; st.unknown++; }
      Z3_solver_pop(Z.c, s, 1);
      st.solver += now() - a;
      it = cache.emplace(std::move(key), std::move(res)).first;
    } else st.cacheHits++;
    auto& res = it->second;
    if (res.first == SAT) {
      st.sat++;
      if (model) {
        auto n = std::make_shared<std::vector<u64>>(*S.model);
        for (auto& [v, val] : res.second) { if (n->size() <= v) n->resize(v + 1); (*n)[v] = val; }
        *model = n;
      }
    } else if (res.first == UNSAT) st.unsat++;
    return res.first;
  }
} solver;

// ------------------------------------------------------------- engine
enum Builtin {
  B_NONE = -1, B_VAR, B_CHOICE, B_ASSUME, B_ASSERT, B_OBSERVE, B_REACH, B_FAIL, B_MALLOC, B_FREE, B_UNWIND, B_TERMINATE,
  B_EXIT, B_LEAKS, B_LIVE, B_CONCRETE, B_ISLIVE, B_COST,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_LSTART, B_LEND, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_UADDO, B_USUBO, B_UMULO,
  B_SADDO, B_SSUBO, B_SMULO, B_NOP, B_EXPECT, B_TYPEID, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSHL, B_FSHR, B_TRAP,
  B_ISCONST, B_OBJSIZE, B_IDENT, B_STACKSAVE, B_FABS, B_CEIL, B_FLOOR, B_FMULADD, B_USUBSAT, B_UADDSAT, B_BCMP_UNUSED,
};
int builtinId(const std::string& n) {
  static const std::map<std::string, int> exact = {
      {"__sym_var", B_VAR}, {"__sym_choice", B_CHOICE}, {"__sym_assume", B_ASSUME}, {"__sym_assert", B_ASSERT},
      {"__sym_observe", B_OBSERVE}, {"__sym_reach", B_REACH}, {"__sym_fail", B_FAIL}, {"__sym_malloc", B_MALLOC},
      {"__sym_free", B_FREE}, {"__sym_unwind", B_UNWIND}, {"__sym_terminate", B_TERMINATE}, {"__sym_exit", B_EXIT},
      {"__sym_leaks", B_LEAKS}, {"__sym_live", B_LIVE}, {"__sym_concrete", B_CONCRETE}, {"__sym_islive", B_ISLIVE}, {"__sym_cost", B_COST},
      {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
      {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}};
  auto it = exact.find(n);
  if (it != exact.end()) return it->second;
  static const std::vector<std::pair<std::string, int>> pre = {
      {"llvm.memcpy.", B_MEMCPY}, {"llvm.memmove.", B_MEMMOVE}, {"llvm.memset.", B_MEMSET},
      {"llvm.lifetime.start", B_LSTART}, {"llvm.lifetime.end", B_LEND}, {"llvm.umax.", B_UMAX}, {"llvm.umin.", B_UMIN},
      {"llvm.smax.", B_SMAX}, {"llvm.smin.", B_SMIN}, {"llvm.abs.", B_ABS}, {"llvm.uadd.with", B_UADDO},
      {"llvm.usub.with", B_USUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.sadd.with", B_SADDO}, {"llvm.ssub.with", B_SSUBO},
      {"llvm.smul.with", B_SMULO}, {"llvm.assume", B_NOP}, {"llvm.expect", B_EXPECT}, {"llvm.eh.typeid.for", B_TYPEID},
      {"llvm.ctpop", B_CTPOP}, {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.bswap", B_BSWAP}, {"llvm.fshl", B_FSHL},
      {"llvm.fshr", B_FSHR}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.is.constant", B_ISCONST},
      {"llvm.objectsize", B_OBJSIZE}, {"llvm.launder", B_IDENT}, {"llvm.strip.inv", B_IDENT}, {"llvm.ptrmask", B_NONE},
      {"llvm.invariant.start", B_STACKSAVE}, {"llvm.invariant.end", B_NOP}, {"llvm.dbg.", B_NOP}, {"llvm.stacksave", B_STACKSAVE},
      {"llvm.stackrestore", B_NOP}, {"llvm.prefetch", B_NOP}, {"llvm.fabs", B_FABS}, {"llvm.ceil", B_CEIL}, {"llvm.floor", B_FLOOR},
      {"llvm.fmuladd", B_FMULADD}, {"llvm.threadlocal.address", B_IDENT}, {"llvm.usub.sat", B_USUBSAT}, {"llvm.uadd.sat", B_UADDSAT},
      {"llvm.experimental.noalias", B_NOP}, {"llvm.donothing", B_NOP}, {"llvm.var.annotation", B_NOP}, {"llvm.pseudoprobe", B_NOP}};
  for (auto& [p, b] : pre) if (n.compare(0, p.size(), p) == 0) return b;
  return B_NONE;
}

struct Engine {
  std::vector<State*> work;     // LIFO
  std::deque<State*> bfs;
  bool bfsMode = false;
  State* S = nullptr;
  bool forked = false;
  std::vector<std::string> samples;
  u64 rng;
  u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

  // ---- errors
  std::string where() {
    std::string r;
    int k = 0;
    for (auto i = S->stack.rbegin(); i != S->stack.rend() && k < 14; ++i, ++k) {
      auto& f = **i;
      u32 pc = f.call ? (u32)(f.call - f.f->code.data()) : f.pc;
      u32 ln = pc < f.f->code.size() ? f.f->code[pc].line : 0;
      auto& L = prog.lines[ln];
      std::string file = L.first;
      if (auto p = file.rfind("/include/"); p != std::string::npos) file = file.substr(p + 9);
      else if (auto q = file.rfind('/'); q != std::string::npos) file = file.substr(q + 1);
      r += (k ? " < " : "") + file + ":" + std::to_string(L.second);
    }
    return r;
  }
  [[noreturn]] void violation(const std::string& kind, const std::string& msg) {
    std::string j = "{\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where()) + values() + "}";
    fprintf(outf, "V %s\n", j.c_str());
    fflush(outf);
    shared->violations++;
    throw PathEnd();
  }
  std::string values() {
    std::string v = ",\"values\":[", n = ",\"names\":[";
    bool first = true;
    for (auto& r : S->syms) {
      u64 x = r.kind ? r.val : (r.var < S->model->size() ? (*S->model)[r.var] : 0) & wmask(r.width);
      v += (first ? "" : ",") + std::to_string(x);
      n += (first ? "" : ",") + jstr(names[r.name]);
      first = false;
    }
    return v + "]" + n + "]" + ",\"run\":" + jstr(curEntry);
  }
  std::string curEntry;

  void error(const std::string& m) {
    st.errors++;
    errorMsgs.insert(m + " at " + where());
    throw PathEnd();
  }

  // ---- values
  E ex(const Value& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
  Value undefValue(unsigned w) { return Value(P.var(UNDEF_BASE + (S->nundef++ & 0xFFFFFF), w)); }
  inline Value get(const Opnd& o) {
    if (o.reg >= 0) return S->stack.back()->regs[o.reg];
    if (o.reg == -1) return o.cv;
    return undefValue(o.w);
  }
  State* clone() {
    auto* n = new State(*S);
    st.forks++;
    n->depth++;
    n->steps--;  // the clone repeats the instruction
    return n;
  }
  void push(State* n) {
    if (bfsMode) bfs.push_back(n); else work.push_back(n);
    forked = true;
  }
  bool known(E c, bool& val) {
    E n = P.not_(c);
    for (E p : S->pc) {
      if (p == c) { val = true; return true; }
      if (p == n) { val = false; return true; }
    }
    return false;
  }
  // Undefined data must not influence e.
  E defined(E e, const char* what) {
    if (!e->undef) return e;
    std::unordered_map<E, E> m1, m2;
    E z = P.subst(e, false, m1), t = P.subst(e, true, m2);
    E diff = P.not_(P.mk(E_EQ, 1, e, t));
    std::shared_ptr<const std::vector<u64>> m;
    Res r = solver.query(*S, diff, &m);
    if (r == SAT) { S->model = m; violation("uninitialised", std::string(what) + " depends on uninitialised data"); }
    return z;
  }
  void addPc(E c) {
    if (c->op == E_AND && c->width == 1) { addPc(c->a[0]); addPc(c->a[1]); return; }
    if (P.isNot(c) && c->a[1]->op == E_OR) { addPc(P.not_(c->a[1]->a[0])); addPc(P.not_(c->a[1]->a[1])); return; }
    if (c->op == E_CONST) return;
    S->pc.push_back(c);
  }
  // Decide a Boolean; forks when both outcomes are feasible.
  bool decide(const Value& v, const char* what) {
    if (!v.e) return v.c & 1;
    E c = defined(v.e, what);
    if (c->op == E_CONST) return c->cval;
    bool val;
    if (known(c, val)) return val;
    st.branchesSym++;
    bool mv = P.eval(c, *S->model);
    E other = mv ? P.not_(c) : c;
    std::shared_ptr<const std::vector<u64>> m;
    Res r = solver.query(*S, other, &m);
    if (r == UNSAT) return mv;
    if (r == UNKNOWN) return mv;
    State* n = clone();
    { State* cur = S; S = n; addPc(other); S = cur; }
    n->model = m;
    push(n);
    addPc(P.not_(other));
    return mv;
  }
  // One concrete value of v; the other feasible values are explored by forks.
  u64 concrete(const Value& v, const char* what) {
    if (!v.e) return v.c;
    E e = defined(v.e, what);
    if (e->op == E_CONST) return e->cval;
    // already pinned?
    for (E p : S->pc) if (p->op == E_EQ && p->a[1] == e && p->a[0]->op == E_CONST && !Z3Side::isNotE(p)) return p->a[0]->cval;
    u64 x = P.eval(e, *S->model);
    E eq = P.mk(E_EQ, 1, P.cst(x, e->width), e);
    if (eq->op == E_CONST) return x;
    E ne = P.not_(eq);
    std::shared_ptr<const std::vector<u64>> m;
    Res r = solver.query(*S, ne, &m);
    if (r == SAT) {
      if (S->enums > 2100) { st.enumCut++; }
      else {
        State* n = clone();
        { State* cur = S; S = n; addPc(ne); S = cur; }
        n->model = m;
        n->enums++;
        push(n);
      }
      addPc(eq);
    }
    S->enums = 0;
    return x;
  }

  // ---- memory
  std::string objDesc(u64 addr) {
    u64 id = addr >> OFFBITS;
    char b[200];
    snprintf(b, sizeof b, "address object %llu offset %lld", (unsigned long long)id, (long long)(addr & OFFMASK));
    return b;
  }
  Obj* check(u64 addr, u64 n, bool wr, const char* what) {
    st.memChecks++;
    u64 id = addr >> OFFBITS, off = addr & OFFMASK;
    Obj* o = S->mem.peek(id);
    if (!o) {
      if (addr < (16ull << OFFBITS)) violation("memory", std::string(what) + " through a null or invalid pointer");
      u32 site = 0;
      Tomb t = S->mem.tomb(id, &site);
      std::string fr = site ? " (released at " + prog.lines[site].first.substr(prog.lines[site].first.rfind('/') + 1) + ":" + std::to_string(prog.lines[site].second) + ")" : "";
      if (t == T_FREED) violation("memory", std::string(what) + " of freed memory" + fr);
      if (t == T_DEADSTACK) violation("memory", std::string(what) + " of a dead stack object");
      violation("memory", std::string(what) + " through an invalid pointer");
    }
    if (off + n > o->size) violation("memory", std::string(what) + " out of bounds (offset " + std::to_string((i64)(off << 40) >> 40) + ", size " + std::to_string(o->size) + ")");
    if (o->scopeDead) violation("memory", std::string(what) + " of an object out of scope");
    if (wr) {
      if (o->readonly) violation("memory", std::string(what) + " to constant memory");
      return S->mem.write(id);
    }
    return o;
  }
  Value loadLeaf(u64 addr, const Leaf& L) { return loadBytes(addr + L.off, L.bytes, L.w, "read"); }
  Value loadBytes(u64 addr, unsigned n, unsigned w, const char* what) {
    Obj* o = check(addr, n, false, what);
    u64 off = addr & OFFMASK;
    bool conc = true;
    for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; }
    if (conc) {
      u64 v = 0;
      memcpy(&v, &o->d[off], n);
      return Value(v & wmask(w));
    }
    // whole symbolic value?
    if (o->st[off] == 2) {
      auto [e, k] = o->s[off];
      bool whole = k == 0 && (e->width + 7) / 8 == (int)n;
      for (unsigned i = 1; i < n && whole; i++)
        if (o->st[off + i] != 2 || o->s[off + i].first != e || o->s[off + i].second != i) whole = false;
      if (whole) return e->width == w ? Value(e) : e->width > w ? Value(P.mk(E_EXTRACT, w, e, nullptr, nullptr, 0)) : Value(P.mk(E_ZEXT, w, e));
    }
    bool allUndef = true, anyUndef = false;
    for (unsigned i = 0; i < n; i++) { if (o->st[off + i] == 1) anyUndef = true; else allUndef = false; }
    if (anyUndef) {
      o = S->mem.write(addr >> OFFBITS);
      if (o->s.empty()) o->s.resize(o->size);
      if (allUndef) {
        Value u = undefValue(n * 8);
        for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->s[off + i] = {u.e, (u8)i}; }
      } else
        for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 1) { o->st[off + i] = 2; o->s[off + i] = {undefValue(8).e, 0}; }
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; i++) {
      E b;
      if (o->st[off + i] == 0) b = P.cst(o->d[off + i], 8);
      else {
        auto [e, k] = o->s[off + i];
        unsigned lo = k * 8;
        if (e->width >= lo + 8) b = P.mk(E_EXTRACT, 8, e, nullptr, nullptr, lo);
        else b = P.mk(E_ZEXT, 8, lo ? P.mk(E_EXTRACT, e->width - lo, e, nullptr, nullptr, lo) : e);
      }
      r = r ? P.mk(E_CONCAT, 8 * (i + 1), b, r) : b;
    }
    if (r->width > w) r = P.mk(E_EXTRACT, w, r, nullptr, nullptr, 0);
    return Value(r);
  }
  void storeBytes(u64 addr, const Value& v, unsigned n, const char* what) {
    Obj* o = check(addr, n, true, what);
    u64 off = addr & OFFMASK;
    if (!v.e) {
      memcpy(&o->d[off], &v.c, n);
      memset(&o->st[off], 0, n);
    } else {
      if (o->s.empty()) o->s.resize(o->size);
      for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->s[off + i] = {v.e, (u8)i}; }
    }
  }
  void copyBytes(u64 d, u64 s, u64 n) {
    if (!n) return;
    Obj* so = check(s, n, false, "read");
    Obj* dob = check(d, n, true, "write");
    so = S->mem.peek(s >> OFFBITS);
    u64 so_ = s & OFFMASK, do_ = d & OFFMASK;
    bool sym = false;
    for (u64 i = 0; i < n; i++) if (so->st[so_ + i] == 2) { sym = true; break; }
    std::vector<u8> db(so->d.begin() + so_, so->d.begin() + so_ + n), sb(so->st.begin() + so_, so->st.begin() + so_ + n);
    if (sym) {
      std::vector<std::pair<E, u8>> ss(so->s.begin() + so_, so->s.begin() + so_ + n);
      if (dob->s.empty()) dob->s.resize(dob->size);
      std::copy(ss.begin(), ss.end(), dob->s.begin() + do_);
    }
    std::copy(db.begin(), db.end(), dob->d.begin() + do_);
    std::copy(sb.begin(), sb.end(), dob->st.begin() + do_);
  }
  u32 curLine() {
    auto& f = *S->stack.back();
    return f.f->code[f.pc].line;
  }
  u64 allocObj(u64 size, ObjKind k) {
    u64 id = S->mem.next;
    Obj* o = S->mem.place(id, size, k, true);
    o->site = curLine();
    return id << OFFBITS;
  }
  std::string cstr(u64 addr) {
    std::string r;
    for (int i = 0; i < 300; i++) {
      u64 id = addr >> OFFBITS;
      Obj* o = S->mem.peek(id);
      if (!o || (addr & OFFMASK) >= o->size || o->st[addr & OFFMASK]) break;
      char c = o->d[addr & OFFMASK];
      if (!c) break;
      r += c;
      addr++;
    }
    return r;
  }

  // ---- control
  void takeEdge(Frame& f, const Edge& e) {
    if (!e.phis.empty()) {
      Value tmp[64];
      std::vector<Value> big;
      Value* t = tmp;
      if (e.phis.size() > 64) { big.resize(e.phis.size()); t = big.data(); }
      for (size_t i = 0; i < e.phis.size(); i++) t[i] = get(e.phis[i].second);
      for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].first] = t[i];
    }
    f.pc = e.pc;
  }
  Frame& top() {
    auto& p = S->stack.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
  }
  void popFrame() {
    auto& f = *S->stack.back();
    for (u64 id : f.allocas) S->mem.kill(id, T_DEADSTACK, 0);
    S->stack.pop_back();
  }
  void enter(DFunc* d, const std::vector<Value>& args) {
    if (!d->decoded) {
      try { prog.decode(d); } catch (Unsupported& u) { error(std::string("unsupported: ") + u.what() + " in " + llvm::demangle(d->name)); }
    }
    d->executed = true;
    if (S->stack.size() > 600) violation("nontermination", "unbounded recursion");
    auto f = std::make_shared<Frame>();
    f->f = d;
    f->regs.resize(d->nregs);
    size_t k = 0;
    for (auto& [r, n] : d->argRegs)
      for (u32 i = 0; i < n; i++) { if (k >= args.size()) error("too few arguments for " + d->name); f->regs[r + i] = args[k++]; }
    S->stack.push_back(f);
  }
  void doReturn(const DInst& n) {
    Value rv[8];
    std::vector<Value> big;
    Value* r = rv;
    if (n.ops.size() > 8) { big.resize(n.ops.size()); r = big.data(); }
    for (size_t i = 0; i < n.ops.size(); i++) r[i] = get(n.ops[i]);
    popFrame();
    if (S->stack.empty()) return;
    Frame& f = top();
    const DInst& c = *f.call;
    f.call = nullptr;
    if (c.dst >= 0) {
      for (u32 i = 0; i < c.nleaf && i < n.ops.size(); i++) f.regs[c.dst + i] = r[i];
    }
    if (c.op == I_INVOKE) takeEdge(f, c.edges[0]); else f.pc++;
  }

  // ---- exceptions
  u64 word(u64 addr) { Value v = loadBytes(addr, 8, 64, "read"); return v.c; }
  std::string symName(u64 addr) {
    for (auto& [g, a] : prog.gaddr) if (a == (addr & ~OFFMASK)) return g->getName().str();
    return "";
  }
  bool derives(u64 t, u64 base, int depth = 0) {
    if (t == base) return true;
    if (depth > 20 || !t) return false;
    Obj* o = S->mem.peek(t >> OFFBITS);
    if (!o || o->size < 16) return false;
    std::string vt = symName(word(t));
    if (vt.find("__si_class_type_info") != std::string::npos) return derives(word(t + 16), base, depth + 1);
    if (vt.find("__vmi_class_type_info") != std::string::npos) {
      u64 cnt = word(t + 16) >> 32;
      for (u64 i = 0; i < cnt; i++) if (derives(word(t + 24 + 16 * i), base, depth + 1)) return true;
    }
    return false;
  }
  u32 selectorOf(u64 t) { return (u32)(t >> OFFBITS) + 1; }
  // 0: nothing, 1: cleanup only, 2: handler; sel = selector
  int landing(const DInst& lp, u64 tinfo, u32& sel) {
    auto* L = llvm::cast<llvm::LandingPadInst>(lp.I);
    for (unsigned i = 0; i < L->getNumClauses(); i++) {
      if (L->isCatch(i)) {
        u64 c = prog.constVal(L->getClause(i));
        if (c == 0 || derives(tinfo, c)) { sel = c == 0 ? 1 : selectorOf(c); return 2; }
      } else {
        std::vector<Opnd> l;
        auto* arr = L->getClause(i);
        bool in = false;
        if (arr->getType()->getArrayNumElements()) {
          prog.constLeaves(arr, l);
          for (auto& o : l) if (derives(tinfo, o.cv.c)) in = true;
        }
        if (!in) { sel = (u32)-1; return 2; }
      }
    }
    sel = 0;
    return L->isCleanup() ? 1 : 0;
  }
  void unwind(u64 exn, u64 tinfo) {
    // phase 1: is there a handler at all?
    bool found = false;
    for (size_t i = S->stack.size(); i-- > 0 && !found;) {
      auto& f = *S->stack[i];
      const DInst* c = f.call;
      if (c && c->op == I_INVOKE) {
        const DInst& lp = landingPad(f, *c);
        u32 sel;
        if (landing(lp, tinfo, sel) == 2) found = true;
      }
    }
    if (!found) violation("terminate", "uncaught exception " + llvm::demangle(symName(tinfo).size() > 4 ? "_ZTS" + symName(tinfo).substr(4) : ""));
    while (true) {
      auto& f0 = *S->stack.back();
      const DInst* c = f0.call;
      if (c && c->op == I_INVOKE) {
        const DInst& lp = landingPad(f0, *c);
        u32 sel;
        int k = landing(lp, tinfo, sel);
        if (k) {
          Frame& f = top();
          f.call = nullptr;
          takeEdge(f, c->edges[1]);
          S->landExn = exn;
          S->landSel = sel;
          return;
        }
      }
      popFrame();
    }
  }
  const DInst& landingPad(Frame& f, const DInst& inv) { 
    u32 pc = inv.edges[1].pc;
    while (f.f->code[pc].op != I_LANDINGPAD) pc++;
    return f.f->code[pc];
  }

  // ---- calls
  void builtin(const DInst& n);
  void step();
  void run(State* s);
  void finish(bool ok);
  void initGlobals(State& s);
  State* start(const std::string& entry);
  void leakCheck();
  void main();
};

Value binop(Op op, const Value& a, const Value& b, unsigned w, unsigned rw) {
  if (!a.e && !b.e) return Value(evalOp(op, w, rw, 0, a.c, b.c, 0, w));
  E x = a.e ? a.e : P.cst(a.c, w), y = b.e ? b.e : P.cst(b.c, w);
  return Value(P.mk(op, rw, x, y));
}
Value vnot(const Value& a) { return a.e ? Value(P.not_(a.e)) : Value((u64)!(a.c & 1)); }

void Engine::builtin(const DInst& n) {
  Frame* f = &top();
  const Opnd* a = n.ops.data();
  auto ret = [&](Value v) { if (n.dst >= 0) f->regs[n.dst] = v; };
  unsigned w = n.w;
  unsigned w0 = n.ops.empty() ? 0 : n.ops[0].w;
  switch (n.builtin) {
    case B_VAR: {
      unsigned bits = concrete(get(a[0]), "size");
      u32 v = S->nvars++;
      E e = P.var(v, bits);
      S->syms.push_back({0, (u8)bits, v, 0, nameId(cstr(get(a[1]).c))});
      ret(Value(P.mk(E_ZEXT, 64, e)));
      break;
    }
    case B_CHOICE: {
      u64 k = concrete(get(a[0]), "size");
      u32 nm = nameId(cstr(get(a[1]).c));
      // one fork per value
      for (u64 i = k; i-- > 1;) {
        State* c = clone();
        State* cur = S;
        S = c;
        Frame& g = top();
        c->syms.push_back({1, 32, 0, i, nm});
        if (n.dst >= 0) g.regs[n.dst] = Value(i);
        if (n.op == I_INVOKE) { g.call = nullptr; takeEdge(g, n.edges[0]); } else g.pc++;
        S = cur;
        push(c);
      }
      f = &top();
      S->syms.push_back({1, 32, 0, 0, nm});
      ret(Value((u64)0));
      break;
    }
    case B_ASSUME: {
      Value v = get(a[0]);
      if (!v.e) { if (!(v.c & 1)) { st.infeasible++; throw PathEnd(); } break; }
      E c = defined(v.e, "assumption");
      if (c->width > 1) c = P.mk(E_EXTRACT, 1, c, nullptr, nullptr, 0);
      if (c->op == E_CONST) { if (!c->cval) { st.infeasible++; throw PathEnd(); } break; }
      if (!P.eval(c, *S->model)) {
        std::shared_ptr<const std::vector<u64>> m;
        Res r = solver.query(*S, c, &m);
        if (r != SAT) { st.infeasible++; throw PathEnd(); }
        S->model = m;
      }
      addPc(c);
      break;
    }
    case B_ASSERT: {
      Value v = get(a[0]);
      st.asserts++;
      if (!v.e) { st.assertsConst++; if (!(v.c & 1)) violation("assert", cstr(get(a[1]).c)); break; }
      E c = defined(v.e, "checked value");
      if (c->width > 1) c = P.mk(E_EXTRACT, 1, c, nullptr, nullptr, 0);
      if (c->op == E_CONST) { st.assertsConst++; if (!c->cval) violation("assert", cstr(get(a[1]).c)); break; }
      bool val;
      if (known(c, val)) { st.assertsConst++; if (!val) violation("assert", cstr(get(a[1]).c)); break; }
      st.assertsSym++;
      std::shared_ptr<const std::vector<u64>> m = S->model;
      if (P.eval(c, *S->model)) {
        Res r = solver.query(*S, P.not_(c), &m);
        if (r == UNSAT) break;
        if (r == UNKNOWN) break;  // counted in st.unknown: the run is then not exhaustive
      }
      S->model = m;
      violation("assert", cstr(get(a[1]).c));
    }
    case B_OBSERVE: {
      Value v = get(a[0]);
      if (v.e) v = Value(defined(v.e, "observed value"));
      S->trace.push_back(v);
      break;
    }
    case B_REACH: S->reach.push_back(nameId(cstr(get(a[0]).c))); break;
    case B_FAIL: violation("assert", cstr(get(a[0]).c));
    case B_TERMINATE: violation("terminate", cstr(get(a[0]).c));
    case B_EXIT: finish(true); throw PathEnd();
    case B_MALLOC: {
      u64 sz = concrete(get(a[0]), "allocation size");
      f = &top();
      u64 k = get(a[1]).c;
      if (sz > (1u << 22)) { ret(Value((u64)0)); break; }
      u64 p = allocObj(sz, (ObjKind)k);
      // attribute the allocation to the caller of the runtime function
      if (S->stack.size() >= 2) { auto& g = *S->stack[S->stack.size() - 2]; if (g.call) S->mem.peek(p >> OFFBITS)->site = g.call->line; }
      ret(Value(p));
      break;
    }
    case B_FREE: {
      u64 p = concrete(get(a[0]), "freed pointer");
      f = &top();
      u64 k = get(a[1]).c;
      if (!p) break;
      Obj* o = S->mem.peek(p >> OFFBITS);
      if (!o) {
        Tomb t = S->mem.tomb(p >> OFFBITS);
        violation("memory", t == T_FREED ? "double free" : "free of an invalid pointer");
      }
      if (o->kind < K_MALLOC || (p & OFFMASK)) violation("memory", "free of a pointer that was not allocated");
      if (o->kind != (ObjKind)k) violation("memory", "mismatched allocation and deallocation");
      u32 site = 0;
      for (size_t i = S->stack.size(); i-- > 0;) {  // innermost frame with a line in the checked headers
        auto& g = *S->stack[i];
        if (g.call && prog.lines[g.call->line].first.find("/lru/") != std::string::npos) { site = g.call->line; break; }
      }
      S->mem.kill(p >> OFFBITS, T_FREED, site);
      break;
    }
    case B_UNWIND: {
      u64 exn = get(a[0]).c, ti = get(a[1]).c;
      bool have = false;
      for (auto& x : S->exn) if (x.first == exn) { x.second = ti; have = true; }
      if (!have) S->exn.push_back({exn, ti});
      unwind(exn, ti);
      return;
    }
    case B_LEAKS: leakCheck(); break;
    case B_COST: ret(Value(S->steps)); break;
    case B_LIVE: {
      u64 c = 0;
      for (auto* ch : S->mem.chunks) if (ch) for (auto* o : ch->o) if (o && (o->kind == K_NEW || o->kind == K_NEWARR || o->kind == K_MALLOC)) c++;
      ret(Value(c));
      break;
    }
    case B_CONCRETE: { u64 v = concrete(get(a[0]), "value"); f = &top(); ret(Value(v)); break; }
    case B_ISLIVE: {
      u64 p = concrete(get(a[0]), "pointer"); f = &top();
      Obj* o = S->mem.peek(p >> OFFBITS);
      ret(Value((u64)(o && !o->scopeDead && (p & OFFMASK) < o->size)));
      break;
    }
    case B_MEMCPY: case B_MEMMOVE: {
      u64 d = concrete(get(a[0]), "pointer"), s = concrete(get(a[1]), "pointer"), k = concrete(get(a[2]), "length");
      if (k > OFFMASK) violation("memory", "copy of " + std::to_string(k) + " bytes");
      copyBytes(d, s, k);
      f = &top();
      ret(Value(d));
      break;
    }
    case B_MEMSET: {
      u64 d = concrete(get(a[0]), "pointer"), k = concrete(get(a[2]), "length");
      Value v = get(a[1]);
      if (v.e && v.e->width > 8) v = Value(P.mk(E_EXTRACT, 8, v.e, nullptr, nullptr, 0));
      if (k > OFFMASK) violation("memory", "fill of " + std::to_string(k) + " bytes");
      if (!v.e && k) {
        Obj* o = check(d, k, true, "write");
        memset(&o->d[d & OFFMASK], v.c, k);
        memset(&o->st[d & OFFMASK], 0, k);
      } else
        for (u64 i = 0; i < k; i++) storeBytes(d + i, v, 1, "write");
      f = &top();
      ret(Value(d));
      break;
    }
    case B_LSTART: case B_LEND: {
      Value v = get(a[1]);
      u64 p = v.c;
      Obj* o = S->mem.peek(p >> OFFBITS);
      if (!o || o->kind != K_STACK) break;
      o = S->mem.write(p >> OFFBITS);
      if (n.builtin == B_LSTART) { o->scopeDead = false; std::fill(o->st.begin(), o->st.end(), 1); }
      else o->scopeDead = true;
      break;
    }
    case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: {
      Value x = get(a[0]), y = get(a[1]);
      Value c = binop(n.builtin == B_UMAX || n.builtin == B_UMIN ? E_ULT : E_SLT, x, y, w, 1);
      bool max = n.builtin == B_UMAX || n.builtin == B_SMAX;
      if (!c.e) ret((c.c != 0) == max ? y : x);
      else ret(Value(P.mk(E_ITE, w, c.e, max ? ex(y, w) : ex(x, w), max ? ex(x, w) : ex(y, w))));
      break;
    }
    case B_ABS: {
      Value x = get(a[0]);
      Value neg = binop(E_SUB, Value((u64)0), x, w, w), c = binop(E_SLT, x, Value((u64)0), w, 1);
      if (!c.e) ret(c.c ? neg : x); else ret(Value(P.mk(E_ITE, w, c.e, ex(neg, w), ex(x, w))));
      break;
    }
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
      Value x = get(a[0]), y = get(a[1]), r, o;
      unsigned bw = n.ops[0].w;
      u64 top1 = 1ull << (bw - 1);
      switch (n.builtin) {
        case B_UADDO: r = binop(E_ADD, x, y, bw, bw); o = binop(E_ULT, r, x, bw, 1); break;
        case B_USUBO: r = binop(E_SUB, x, y, bw, bw); o = binop(E_ULT, x, y, bw, 1); break;
        case B_SADDO: case B_SSUBO: {
          r = binop(n.builtin == B_SADDO ? E_ADD : E_SUB, x, y, bw, bw);
          Value p = binop(E_XOR, x, r, bw, bw), q = binop(E_XOR, n.builtin == B_SADDO ? y : x, n.builtin == B_SADDO ? r : y, bw, bw);
          o = vnot(binop(E_EQ, Value((u64)0), binop(E_AND, binop(E_AND, p, q, bw, bw), Value(top1), bw, bw), bw, 1));
          break;
        }
        case B_UMULO: {
          r = binop(E_MUL, x, y, bw, bw);
          Value nz = vnot(binop(E_EQ, y, Value((u64)0), bw, 1));
          Value back = vnot(binop(E_EQ, binop(E_UDIV, r, y, bw, bw), x, bw, 1));
          o = binop(E_AND, nz, back, 1, 1);
          break;
        }
        default: {
          r = binop(E_MUL, x, y, bw, bw);
          if (!x.e && !y.e) {
            __int128 p = (__int128)sext64(x.c, bw) * sext64(y.c, bw);
            o = Value((u64)(p != sext64((u64)p, bw)));
          } else {
            Value nz = vnot(binop(E_EQ, y, Value((u64)0), bw, 1));
            Value back = vnot(binop(E_EQ, binop(E_SDIV, r, y, bw, bw), x, bw, 1));
            o = binop(E_AND, nz, back, 1, 1);
          }
        }
      }
      f->regs[n.dst] = r;
      f->regs[n.dst + 1] = o;
      break;
    }
    case B_NOP: break;
    case B_EXPECT: case B_IDENT: ret(get(a[0])); break;
    case B_TYPEID: ret(Value((u64)selectorOf(get(a[0]).c))); break;
    case B_CTPOP: case B_CTLZ: case B_CTTZ: case B_BSWAP: {
      u64 x = concrete(get(a[0]), "value");
      f = &top();
      x &= wmask(w);
      u64 r = 0;
      if (n.builtin == B_CTPOP) r = std::popcount(x);
      else if (n.builtin == B_CTLZ) r = x ? std::countl_zero(x) - (64 - w) : w;
      else if (n.builtin == B_CTTZ) r = x ? std::countr_zero(x) : w;
      else r = __builtin_bswap64(x) >> (64 - w);
      ret(Value(r));
      break;
    }
    case B_FSHL: case B_FSHR: {
      Value x = get(a[0]), y = get(a[1]);
      u64 k = concrete(get(a[2]), "shift") % w;
      f = &top();
      if (n.builtin == B_FSHR) k = (w - k) % w, (k == 0 ? (void)(x = y) : (void)0);
      if (k == 0) { ret(x); break; }
      ret(binop(E_OR, binop(E_SHL, x, Value(k), w, w), binop(E_LSHR, y, Value((u64)(w - k)), w, w), w, w));
      break;
    }
    case B_TRAP: violation("terminate", "trap");
    case B_ISCONST: ret(Value((u64)0)); break;
    case B_OBJSIZE: ret(Value(wmask(w))); break;
    case B_STACKSAVE: ret(Value((u64)0)); break;
    case B_FABS: case B_CEIL: case B_FLOOR: {
      Value x = get(a[0]);
      Op op = n.builtin == B_FABS ? E_FABS : n.builtin == B_CEIL ? E_FCEIL : E_FFLOOR;
      ret(x.e ? Value(P.mk(op, w, x.e)) : Value(evalOp(op, w, w, 0, x.c, 0, 0, 0)));
      break;
    }
    case B_FMULADD: ret(binop(E_FADD, binop(E_FMUL, get(a[0]), get(a[1]), w, w), get(a[2]), w, w)); break;
    case B_USUBSAT: case B_UADDSAT: {
      Value x = get(a[0]), y = get(a[1]);
      bool sub = n.builtin == B_USUBSAT;
      Value r = binop(sub ? E_SUB : E_ADD, x, y, w, w);
      Value o = sub ? binop(E_ULT, x, y, w, 1) : binop(E_ULT, r, x, w, 1);
      Value sat = sub ? Value((u64)0) : Value(wmask(w));
      if (!o.e) ret(o.c ? sat : r); else ret(Value(P.mk(E_ITE, w, o.e, ex(sat, w), ex(r, w))));
      break;
    }
    default: error("external function " + llvm::demangle(n.callee->getName().str()));
  }
  (void)w0;
  f = &top();
  if (n.op == I_INVOKE) { f->call = nullptr; takeEdge(*f, n.edges[0]); } else f->pc++;
}

void Engine::leakCheck() {
  // Heap objects that no live object, global or register-held pointer reaches.
  std::unordered_set<u64> seen;
  std::vector<u64> todo;
  auto visitAddr = [&](u64 v) {
    u64 id = v >> OFFBITS;
    if (id >= 16 && S->mem.peek(id) && seen.insert(id).second) todo.push_back(id);
  };
  for (u64 k = 0; k < S->mem.chunks.size(); k++) if (S->mem.chunks[k])
    for (u32 i = 0; i < Memory::CH; i++) {
      Obj* o = S->mem.chunks[k]->o[i];
      if (o && (o->kind == K_GLOBAL || o->kind == K_STACK) && seen.insert(k * Memory::CH + i).second) todo.push_back(k * Memory::CH + i);
    }
  while (!todo.empty()) {
    Obj* o = S->mem.peek(todo.back());
    todo.pop_back();
    for (u64 off = 0; off + 8 <= o->size; off += 8) {
      bool c = true;
      for (int i = 0; i < 8; i++) c &= o->st[off + i] == 0;
      u64 v;
      memcpy(&v, &o->d[off], 8);
      if (c) visitAddr(v);
      else if (o->st[off] == 2 && o->s[off].second == 0) {
        E e = o->s[off].first;
        if (e->op == E_ITE) { if (e->a[1]->op == E_CONST) visitAddr(e->a[1]->cval); if (e->a[2]->op == E_CONST) visitAddr(e->a[2]->cval); }
      }
    }
  }
  for (u64 k = 0; k < S->mem.chunks.size(); k++) if (S->mem.chunks[k])
    for (u32 i = 0; i < Memory::CH; i++) {
      Obj* o = S->mem.chunks[k]->o[i];
      if (o && o->kind >= K_MALLOC && o->kind != K_EXC && !seen.count(k * Memory::CH + i)) {
        auto& L = prog.lines[o->site];
        violation("leak", "memory of " + std::to_string(o->size) + " bytes never released (allocated at " + L.first.substr(L.first.rfind('/') + 1) + ":" + std::to_string(L.second) + ")");
      }
    }
}

void Engine::step() {
  Frame& f = top();
  const DInst& n = f.f->code[f.pc];
  S->steps++;
  if (n.line) {
    if (prog.lineHit.size() <= n.line) prog.lineHit.resize(n.line + 256);
    prog.lineHit[n.line] = 1;
  }
  auto ret = [&](const Value& v) { f.regs[n.dst] = v; };
  switch (n.op) {
    case I_BIN: {
      Value a = get(n.ops[0]), b = get(n.ops[1]);
      Op op = (Op)n.sub;
      if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
        if (!b.e ? b.c == 0 : decide(Value(P.mk(E_EQ, 1, P.cst(0, n.w), b.e)), "divisor")) violation("arithmetic", "division by zero");
        Frame& g = top();
        g.regs[n.dst] = binop(op, a, b, n.w, n.w);
        g.pc++;
        return;
      }
      ret(binop(op, a, b, n.w, n.w));
      break;
    }
    case I_FNEG: {
      Value a = get(n.ops[0]);
      ret(a.e ? Value(P.mk(E_FNEG, n.w, a.e)) : Value(evalOp(E_FNEG, n.w, n.w, 0, a.c, 0, 0, 0)));
      break;
    }
    case I_ICMP: {
      Value a = get(n.ops[0]), b = get(n.ops[1]);
      using P_ = llvm::CmpInst;
      unsigned w = n.w2;
      switch (n.sub) {
        case P_::ICMP_EQ: ret(binop(E_EQ, a, b, w, 1)); break;
        case P_::ICMP_NE: ret(vnot(binop(E_EQ, a, b, w, 1))); break;
        case P_::ICMP_ULT: ret(binop(E_ULT, a, b, w, 1)); break;
        case P_::ICMP_UGT: ret(binop(E_ULT, b, a, w, 1)); break;
        case P_::ICMP_ULE: ret(binop(E_ULE, a, b, w, 1)); break;
        case P_::ICMP_UGE: ret(binop(E_ULE, b, a, w, 1)); break;
        case P_::ICMP_SLT: ret(binop(E_SLT, a, b, w, 1)); break;
        case P_::ICMP_SGT: ret(binop(E_SLT, b, a, w, 1)); break;
        case P_::ICMP_SLE: ret(binop(E_SLE, a, b, w, 1)); break;
        case P_::ICMP_SGE: ret(binop(E_SLE, b, a, w, 1)); break;
      }
      break;
    }
    case I_FCMP: {
      Value a = get(n.ops[0]), b = get(n.ops[1]);
      using P_ = llvm::CmpInst;
      unsigned w = n.w2;
      auto uno = [&] { return binop(E_FUNO, a, b, w, 1); };
      auto orv = [&](Value x, Value y) { return binop(E_OR, x, y, 1, 1); };
      switch (n.sub) {
        case P_::FCMP_FALSE: ret(Value((u64)0)); break;
        case P_::FCMP_TRUE: ret(Value((u64)1)); break;
        case P_::FCMP_OEQ: ret(binop(E_FOEQ, a, b, w, 1)); break;
        case P_::FCMP_OLT: ret(binop(E_FOLT, a, b, w, 1)); break;
        case P_::FCMP_OLE: ret(binop(E_FOLE, a, b, w, 1)); break;
        case P_::FCMP_OGT: ret(binop(E_FOLT, b, a, w, 1)); break;
        case P_::FCMP_OGE: ret(binop(E_FOLE, b, a, w, 1)); break;
        case P_::FCMP_ONE: ret(vnot(orv(uno(), binop(E_FOEQ, a, b, w, 1)))); break;
        case P_::FCMP_ORD: ret(vnot(uno())); break;
        case P_::FCMP_UNO: ret(uno()); break;
        case P_::FCMP_UEQ: ret(orv(uno(), binop(E_FOEQ, a, b, w, 1))); break;
        case P_::FCMP_ULT: ret(orv(uno(), binop(E_FOLT, a, b, w, 1))); break;
        case P_::FCMP_ULE: ret(orv(uno(), binop(E_FOLE, a, b, w, 1))); break;
        case P_::FCMP_UGT: ret(orv(uno(), binop(E_FOLT, b, a, w, 1))); break;
        case P_::FCMP_UGE: ret(orv(uno(), binop(E_FOLE, b, a, w, 1))); break;
        case P_::FCMP_UNE: ret(vnot(binop(E_FOEQ, a, b, w, 1))); break;
      }
      break;
    }
    case I_CAST: {
      Value a = get(n.ops[0]);
      using I_ = llvm::Instruction;
      Op op;
      switch (n.sub) {
        case I_::Trunc: op = E_EXTRACT; break;
        case I_::ZExt: op = E_ZEXT; break;
        case I_::SExt: op = E_SEXT; break;
        case I_::UIToFP: op = E_UITOFP; break;
        case I_::SIToFP: op = E_SITOFP; break;
        case I_::FPToUI: op = E_FPTOUI; break;
        case I_::FPToSI: op = E_FPTOSI; break;
        case I_::FPExt: op = E_FPEXT; break;
        case I_::FPTrunc: op = E_FPTRUNC; break;
        default:  // same-size casts; ptrtoint/inttoptr may change width
          if (n.w == n.w2) { ret(a); f.pc++; return; }
          op = n.w < n.w2 ? E_EXTRACT : E_ZEXT;
      }
      if (!a.e) ret(Value(evalOp(op, n.w2, n.w, 0, a.c, 0, 0, 0)));
      else ret(Value(P.mk(op, n.w, a.e)));
      break;
    }
    case I_SELECT: {
      Value c = get(n.ops[0]);
      u32 k = n.nleaf;
      for (u32 i = 0; i < k; i++) {
        Value x = get(n.ops[1 + i]), y = get(n.ops[1 + k + i]);
        if (!c.e) f.regs[n.dst + i] = (c.c & 1) ? x : y;
        else { unsigned w = n.ops[1 + i].w; f.regs[n.dst + i] = Value(P.mk(E_ITE, w, c.e, ex(x, w), ex(y, w))); }
      }
      break;
    }
    case I_ALLOCA: {
      u64 cnt = concrete(get(n.ops[0]), "array size");
      Frame& g = top();
      u64 p = allocObj(cnt * n.size, K_STACK);
      g.allocas.push_back(p >> OFFBITS);
      g.regs[n.dst] = Value(p);
      g.pc++;
      return;
    }
    case I_LOAD: {
      u64 p = concrete(get(n.ops[0]), "address");
      Frame& g = top();
      for (u32 i = 0; i < n.nleaf; i++) g.regs[n.dst + i] = loadLeaf(p, n.leaves[i]);
      g.pc++;
      return;
    }
    case I_STORE: {
      u64 p = concrete(get(n.ops[0]), "address");
      for (u32 i = 0; i < n.leaves.size(); i++) {
        Value v = get(n.ops[1 + i]);
        const Leaf& L = n.leaves[i];
        if (v.e && v.e->width < L.bytes * 8) v = Value(P.mk(E_ZEXT, L.bytes * 8, v.e));
        storeBytes(p + L.off, v, L.bytes, "write");
      }
      top().pc++;
      return;
    }
    case I_GEP: {
      Value p = get(n.ops[0]);
      if (n.size) p = binop(E_ADD, p, Value(n.size), 64, 64);
      for (size_t i = 0; i < n.imm.size(); i++) {
        Value x = get(n.ops[1 + i]);
        unsigned w = n.ops[1 + i].w;
        if (w < 64) x = x.e ? Value(P.mk(E_SEXT, 64, x.e)) : Value((u64)sext64(x.c, w));
        p = binop(E_ADD, p, binop(E_MUL, x, Value(n.imm[i]), 64, 64), 64, 64);
      }
      ret(p);
      break;
    }
    case I_BR: takeEdge(f, n.edges[0]); return;
    case I_CBR: {
      bool b = decide(get(n.ops[0]), "branch condition");
      takeEdge(top(), n.edges[b ? 0 : 1]);
      return;
    }
    case I_SWITCH: {
      u64 v = 0;
      Value x = get(n.ops[0]);
      unsigned w = n.ops[0].w;
      if (x.e) {
        bool hit = false;
        for (size_t i = 0; i < n.imm.size(); i++)
          if (decide(Value(P.mk(E_EQ, 1, x.e, P.cst(n.imm[i], w))), "switch value")) { takeEdge(top(), n.edges[1 + i]); hit = true; break; }
        if (!hit) takeEdge(top(), n.edges[0]);
        return;
      }
      v = x.c;
      for (size_t i = 0; i < n.imm.size(); i++) if (n.imm[i] == v) { takeEdge(f, n.edges[1 + i]); return; }
      takeEdge(f, n.edges[0]);
      return;
    }
    case I_RET: doReturn(n); return;
    case I_CALL: case I_INVOKE: {
      DFunc* d = n.dcallee;
      size_t a0 = 0;
      if (!n.callee) {
        u64 p = concrete(get(n.ops[0]), "called address");
        a0 = 1;
        if ((p & FUNC_TAG) != FUNC_TAG || ((p & ~FUNC_TAG) >> 4) >= prog.funcList.size()) violation("memory", "call through an invalid function pointer");
        d = prog.funcList[(p & ~FUNC_TAG) >> 4];
      }
      if (d->F->isDeclaration()) {
        Frame& g = top();
        g.call = &n;
        if (!n.callee) error("indirect call of external " + d->name);
        if (n.builtin == B_NONE) error("external function " + llvm::demangle(d->name));
        if (n.builtin != B_UNWIND) g.call = nullptr;
        builtin(n);
        return;
      }
      std::vector<Value> args;
      args.reserve(n.ops.size());
      size_t k = a0;
      std::vector<std::pair<size_t, u64>> byval;
      for (auto& [cnt, bv] : n.args) {
        for (u32 i = 0; i < cnt; i++) {
          if (bv) byval.push_back({args.size(), bv});
          args.push_back(get(n.ops[k++]));
        }
      }
      std::vector<u64> copies;
      for (auto& [i, sz] : byval) {
        u64 src = concrete(args[i], "address");
        u64 c = allocObj(sz, K_STACK);
        copyBytes(c, src, sz);
        args[i] = Value(c);
        copies.push_back(c >> OFFBITS);
      }
      Frame& g = top();
      g.call = &n;
      enter(d, args);
      for (u64 c : copies) S->stack.back()->allocas.push_back(c);
      return;
    }
    case I_UNREACHABLE: violation("undefined", "control reaches unreachable code (undefined behaviour)");
    case I_RESUME: {
      u64 exn = get(n.ops[0]).c;
      u64 ti = 0;
      for (auto& x : S->exn) if (x.first == exn) ti = x.second;
      popFrame();
      unwind(exn, ti);
      return;
    }
    case I_LANDINGPAD:
      f.regs[n.dst] = Value(S->landExn);
      f.regs[n.dst + 1] = Value((u64)S->landSel);
      break;
    case I_EXTRACT: {
      if (n.nleaf == 1) { ret(get(n.ops[0])); break; }
      std::vector<Value> t;
      for (auto& o : n.ops) t.push_back(get(o));
      for (u32 i = 0; i < n.nleaf; i++) f.regs[n.dst + i] = t[i];
      break;
    }
    case I_CMPXCHG: {
      u64 p = concrete(get(n.ops[0]), "address");
      unsigned w = n.w2, b = (w + 7) / 8;
      Value old = loadBytes(p, b, w, "read");
      bool eq = decide(binop(E_EQ, old, get(n.ops[1]), w, 1), "compare-exchange");
      if (eq) storeBytes(p, get(n.ops[2]), b, "write");
      Frame& g = top();
      g.regs[n.dst] = old;
      g.regs[n.dst + 1] = Value((u64)eq);
      g.pc++;
      return;
    }
    case I_RMW: {
      u64 p = concrete(get(n.ops[0]), "address");
      unsigned w = n.w2, b = (w + 7) / 8;
      Value old = loadBytes(p, b, w, "read"), x = get(n.ops[1]), r;
      using R = llvm::AtomicRMWInst;
      switch (n.sub) {
        case R::Xchg: r = x; break;
        case R::Add: r = binop(E_ADD, old, x, w, w); break;
        case R::Sub: r = binop(E_SUB, old, x, w, w); break;
        case R::And: r = binop(E_AND, old, x, w, w); break;
        case R::Or: r = binop(E_OR, old, x, w, w); break;
        case R::Xor: r = binop(E_XOR, old, x, w, w); break;
        default: error("atomic operation");
      }
      storeBytes(p, r, b, "write");
      Frame& g = top();
      g.regs[n.dst] = old;
      g.pc++;
      return;
    }
    case I_NOP: break;
    case I_UNSUPPORTED: {
      std::string s;
      llvm::raw_string_ostream os(s);
      n.I->print(os);
      error("unsupported instruction " + s.substr(0, 120));
    }
    default: error("opcode");
  }
  f.pc++;
}

void Engine::finish(bool ok) {
  st.paths++;
  for (u32 r : S->reach) reachMarks.insert(names[r]);
  // reservoir of sampled paths, with the observable trace the model predicts
  size_t idx = samples.size();
  if (samples.size() < (size_t)opt.samples) samples.emplace_back();
  else { idx = rnd() % st.paths; if (idx >= samples.size()) return; }
  std::string t = "{\"trace\":[";
  for (size_t i = 0; i < S->trace.size(); i++) {
    Value& v = S->trace[i];
    t += (i ? "," : "") + std::to_string(v.e ? P.eval(v.e, *S->model) : v.c);
  }
  for (E p : S->pc) if (!P.eval(p, *S->model)) { errorMsgs.insert("internal: model does not satisfy the path condition"); st.errors++; }
  samples[idx] = t + "],\"pc\":" + std::to_string(S->pc.size()) + values() + "}";
}

void Engine::run(State* s) {
  S = s;
  curEntry = s->stack[0]->f->name;
  forked = false;
  try {
    while (true) {
      u64 lim = S->steps + 4096;
      while (S->steps < lim) {
        step();
        if (S->stack.empty()) { finish(true); throw PathEnd(); }
        if (forked) {
          if (bfsMode) { bfs.push_back(S); S = nullptr; return; }
          forked = false;
        }
      }
      if (S->steps > opt.maxSteps) violation("nontermination", "more than " + std::to_string(opt.maxSteps) + " instructions");
      if (now() - t0 > opt.deadline) { st.killed++; throw PathEnd(); }
    }
  } catch (PathEnd&) {
    st.steps += S->steps;
    delete S;
    S = nullptr;
  } catch (Unsupported& u) {
    st.errors++;
    errorMsgs.insert(std::string("unsupported: ") + u.what());
    delete S;
    S = nullptr;
  }
}

void Engine::initGlobals(State& s) {
  for (auto* g : prog.gvars) {
    u64 id = prog.gaddr[g] >> OFFBITS;
    u64 size = g->getValueType()->isSized() ? (u64)prog.DL->getTypeAllocSize(g->getValueType()) : 0;
    if (g->isDeclaration()) size = std::max<u64>(size, 64);
    Obj* o = s.mem.place(id, size, K_GLOBAL, false);
    if (g->hasInitializer()) {
      try { prog.initBytes(g->getInitializer(), o->d, 0); }
      catch (Unsupported&) { std::fill(o->st.begin(), o->st.end(), 1); }
    }
    o->readonly = g->isConstant() && !g->isDeclaration();
  }
  s.mem.next = std::max<u64>(s.mem.next, 1ull << 12);
}

State* Engine::start(const std::string& entry) {
  auto* s = new State;
  initGlobals(*s);
  S = s;
  curEntry = entry;
  // static constructors (of the harness; those of the standard streams do nothing)
  try {
    if (auto* g = prog.M->getNamedGlobal("llvm.global_ctors")) {
      if (auto* arr = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer()))
        for (auto& op : arr->operands()) {
          auto* f = llvm::dyn_cast<llvm::Function>(llvm::cast<llvm::ConstantStruct>(op)->getOperand(1));
          if (!f) continue;
          enter(prog.funcs[f], {});
          while (!S->stack.empty()) step();
        }
    }
    DFunc* d = prog.byName(entry);
    if (!d || d->F->isDeclaration()) { errorMsgs.insert("no entry " + entry); st.errors++; delete s; return nullptr; }
    enter(d, {});
  } catch (PathEnd&) { delete s; return nullptr; }
  S->steps = 0;
  return s;
}

static void emitStats() {
  fprintf(outf, "S paths %llu\nS steps %llu\nS forks %llu\nS queries %llu\nS sat %llu\nS unsat %llu\nS unknown %llu\nS cache_hits %llu\n"
          "S asserts %llu\nS asserts_solved %llu\nS infeasible %llu\nS killed %llu\nS enum_cut %llu\nS mem_checks %llu\nS branches_sym %llu\nS errors %llu\nS solver_s %.3f\n",
          (unsigned long long)st.paths, (unsigned long long)st.steps, (unsigned long long)st.forks, (unsigned long long)st.queries,
          (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits,
          (unsigned long long)st.asserts, (unsigned long long)st.assertsSym, (unsigned long long)st.infeasible,
          (unsigned long long)st.killed, (unsigned long long)st.enumCut, (unsigned long long)st.memChecks,
          (unsigned long long)st.branchesSym, (unsigned long long)st.errors, st.solver);
  for (auto& r : reachMarks) fprintf(outf, "R %s\n", r.c_str());
  for (auto& e : errorMsgs) fprintf(outf, "E %s\n", e.c_str());
  for (auto* d : prog.funcList) if (d->executed) fprintf(outf, "F %s\n", d->name.c_str());
  for (u32 i = 0; i < prog.lineHit.size(); i++)
    if (prog.lineHit[i] && prog.lines[i].first.find("/lru/") != std::string::npos) fprintf(outf, "L %s:%u\n", prog.lines[i].first.c_str(), prog.lines[i].second);
  fflush(outf);
}

void Engine::main() {
  rng = opt.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  bfsMode = true;
  for (auto& e : opt.entries) if (auto* s = start(e)) bfs.push_back(s);
  size_t target = opt.jobs > 1 ? opt.jobs * 100 : 1;
  size_t runs = 0;
  while (!bfs.empty() && bfs.size() < target && !(runs++ > 2 * target && bfs.size() >= 2u * opt.jobs)) {
    State* s = bfs.front();
    bfs.pop_front();
    run(s);
    if (now() - t0 > opt.deadline) break;
  }
  bfsMode = false;
  std::vector<State*> items(bfs.begin(), bfs.end());
  bfs.clear();
  emitStats();
  for (auto& s : samples) fprintf(outf, "T %s\n", s.c_str());
  fclose(outf);
  std::vector<pid_t> kids;
  int jobs = std::min<size_t>(opt.jobs, items.size());
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      outf = fopen((opt.out + "/w" + std::to_string(j)).c_str(), "w");
      st = Stats();
      samples.clear();
      rng += j * 7919 + 1;
      reachMarks.clear();
      errorMsgs.clear();
      while (true) {
        u32 i = shared->nextItem++;
        if (i >= items.size()) break;
        work.push_back(items[i]);
        while (!work.empty()) {
          State* s = work.back();
          work.pop_back();
          if (now() - t0 > opt.deadline || shared->violations >= opt.maxViol) { st.killed++; delete s; continue; }
          run(s);
        }
      }
      for (auto& s : samples) fprintf(outf, "T %s\n", s.c_str());
      emitStats();
      fclose(outf);
      _exit(0);
    }
    kids.push_back(p);
  }
  bool bad = false;
  for (pid_t p : kids) {
    int s;
    waitpid(p, &s, 0);
    if (!WIFEXITED(s) || WEXITSTATUS(s)) bad = true;
  }
  if (bad) { fprintf(stderr, "a worker died\n"); _exit(3); }
}

int main(int argc, char** argv) {
  t0 = now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { if (++i >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return std::string(argv[i]); };
    if (a == "--out") opt.out = next();
    else if (a == "--entries") { std::stringstream ss(next()); std::string e; while (std::getline(ss, e, ',')) opt.entries.push_back(e); }
    else if (a == "--jobs") opt.jobs = stoi(next());
    else if (a == "--deadline") opt.deadline = stod(next());
    else if (a == "--samples") opt.samples = stoi(next());
    else if (a == "--seed") opt.seed = stoull(next());
    else if (a == "--max-steps") opt.maxSteps = stoull(next());
    else if (a == "--max-violations") opt.maxViol = stoul(next());
    else if (a == "--query-timeout") opt.qtimeout = stoull(next());
    else opt.file = a;
  }
  shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (shared) Shared{};
  Z.init();
  solver.init();
  prog.load(opt.file);
  outf = fopen((opt.out + "/main").c_str(), "w");
  if (!outf) { perror("out"); return 3; }
  Engine e;
  e.main();
  return 0;
}
