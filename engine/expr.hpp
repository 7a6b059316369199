// Hash-consed bit-vector expressions (width 1..64; width 1 = Boolean),
// evaluation under a concrete model, translation to Z3.
#pragma once
#include <z3.h>

#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  // floating point; operands/results are IEEE bit patterns of width 32/64
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FOEQ, E_FOLT, E_FOLE, E_FUNO,
  E_UITOFP, E_SITOFP, E_FPTOUI, E_FPTOSI, E_FPEXT, E_FPTRUNC, E_FNEG, E_FABS,
  E_FCEIL, E_FFLOOR,
};

constexpr u32 UNDEF_BASE = 1u << 20;  // variable indices from here on: undefined data

struct Mask {
  u64 lo = 0, hi = 0;
  bool meets(const Mask& o) const { return (lo & o.lo) | (hi & o.hi); }
  void add(const Mask& o) { lo |= o.lo; hi |= o.hi; }
  bool within(const Mask& o) const { return !(lo & ~o.lo) && !(hi & ~o.hi); }
};

struct Expr {
  Op op;
  u8 width;
  bool undef;   // depends on undefined data
  u8 nargs;
  u32 id;
  u32 extra;    // extract offset / variable index
  u64 cval;     // constant value
  u64 umax;     // unsigned upper bound
  const Expr* a[3];
  Mask mask;
  mutable Z3_ast z3 = nullptr;
  mutable u64 stamp = 0, ev = 0;
};
typedef const Expr* E;

inline u64 wmask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext64(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= wmask(w);
  return (i64)((v ^ m) - m);
}
inline double bits2d(u64 v) { return std::bit_cast<double>(v); }
inline float bits2f(u64 v) { return std::bit_cast<float>((u32)v); }
inline u64 d2bits(double d) { return std::bit_cast<u64>(d); }
inline u64 f2bits(float f) { return std::bit_cast<u32>(f); }

// Concrete semantics of every operator; w = operand width, rw = result width.
inline u64 evalOp(Op op, unsigned w, unsigned rw, u32 extra, u64 a, u64 b, u64 c, unsigned wb) {
  u64 m = wmask(rw);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: {
      i64 x = sext64(a, w), y = sext64(b, w);
      if (y == 0) return (x >= 0 ? ~0ull : 1ull) & m;
      if (y == -1) return (u64)(-(u64)x) & m;
      return (u64)(x / y) & m;
    }
    case E_SREM: {
      i64 x = sext64(a, w), y = sext64(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u64)(x % y) & m;
    }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> b) & m;
    case E_ASHR: return (u64)(sext64(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sext64(a, w) < sext64(b, w);
    case E_SLE: return sext64(a, w) <= sext64(b, w);
    case E_ITE: return a ? b : c;
    case E_ZEXT: return a;
    case E_SEXT: return (u64)sext64(a, w) & m;
    case E_EXTRACT: return (a >> extra) & m;
    case E_CONCAT: return ((a << wb) | b) & m;
    case E_FADD: return w == 64 ? d2bits(bits2d(a) + bits2d(b)) : f2bits(bits2f(a) + bits2f(b));
    case E_FSUB: return w == 64 ? d2bits(bits2d(a) - bits2d(b)) : f2bits(bits2f(a) - bits2f(b));
    case E_FMUL: return w == 64 ? d2bits(bits2d(a) * bits2d(b)) : f2bits(bits2f(a) * bits2f(b));
    case E_FDIV: return w == 64 ? d2bits(bits2d(a) / bits2d(b)) : f2bits(bits2f(a) / bits2f(b));
    case E_FOEQ: return w == 64 ? bits2d(a) == bits2d(b) : bits2f(a) == bits2f(b);
    case E_FOLT: return w == 64 ? bits2d(a) < bits2d(b) : bits2f(a) < bits2f(b);
    case E_FOLE: return w == 64 ? bits2d(a) <= bits2d(b) : bits2f(a) <= bits2f(b);
    case E_FUNO: return w == 64 ? (std::isnan(bits2d(a)) || std::isnan(bits2d(b)))
                                : (std::isnan(bits2f(a)) || std::isnan(bits2f(b)));
    case E_UITOFP: return rw == 64 ? d2bits((double)a) : f2bits((float)a);
    case E_SITOFP: return rw == 64 ? d2bits((double)sext64(a, w)) : f2bits((float)sext64(a, w));
    case E_FPTOUI: {
      double d = w == 64 ? bits2d(a) : bits2f(a);
      return (d < 0 || !(d < 18446744073709551616.0)) ? 0 : ((u64)d & m);
    }
    case E_FPTOSI: {
      double d = w == 64 ? bits2d(a) : bits2f(a);
      return !(d > -9.3e18 && d < 9.2e18) ? 0 : ((u64)(i64)d & m);
    }
    case E_FPEXT: return d2bits((double)bits2f(a));
    case E_FPTRUNC: return f2bits((float)bits2d(a));
    case E_FNEG: return a ^ (1ull << (w - 1));
    case E_FABS: return a & ~(1ull << (w - 1));
    case E_FCEIL: return w == 64 ? d2bits(std::ceil(bits2d(a))) : f2bits(std::ceil(bits2f(a)));
    case E_FFLOOR: return w == 64 ? d2bits(std::floor(bits2d(a))) : f2bits(std::floor(bits2f(a)));
    default: abort();
  }
}

struct ExprPool {
  std::vector<std::vector<Expr>> chunks;
  std::unordered_multimap<u64, E> table;
  u32 next = 0;
  u64 epoch = 0;
  Expr* alloc() {
    if (chunks.empty() || chunks.back().size() == chunks.back().capacity()) {
      chunks.emplace_back();
      chunks.back().reserve(8192);
    }
    chunks.back().emplace_back();
    return &chunks.back().back();
  }
  static u64 h(Op op, u8 w, u32 extra, u64 c, E a, E b, E d) {
    u64 x = op * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](u64 v) { x ^= v + 0x9E3779B97F4A7C15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; };
    mix(extra); mix(c);
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    return x;
  }
  E intern(Op op, u8 w, u32 extra, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
    u64 k = h(op, w, extra, c, a, b, d);
    auto r = table.equal_range(k);
    for (auto i = r.first; i != r.second; ++i) {
      E e = i->second;
      if (e->op == op && e->width == w && e->extra == extra && e->cval == c && e->a[0] == a && e->a[1] == b && e->a[2] == d) return e;
    }
    Expr* e = alloc();
    e->op = op; e->width = w; e->extra = extra; e->cval = c;
    e->a[0] = a; e->a[1] = b; e->a[2] = d;
    e->nargs = a ? b ? d ? 3 : 2 : 1 : 0;
    e->id = next++;
    e->undef = op == E_VAR && extra >= UNDEF_BASE;
    e->umax = op == E_CONST ? c : wmask(w);
    for (int i = 0; i < e->nargs; i++) { e->mask.add(e->a[i]->mask); e->undef |= e->a[i]->undef; }
    if (op == E_VAR) {
      u32 v = extra >= UNDEF_BASE ? 127 : extra > 126 ? 126 : extra;
      if (v < 64) e->mask.lo = 1ull << v; else e->mask.hi = 1ull << (v - 64);
    }
    switch (op) {
      case E_ZEXT: e->umax = a->umax; break;
      case E_ITE: e->umax = std::max(b->umax, d->umax); break;
      case E_AND: e->umax = std::min(a->umax, b->umax); break;
      case E_UREM: if (b->op == E_CONST && b->cval) e->umax = std::min(a->umax, b->cval - 1); break;
      case E_UDIV: if (b->op == E_CONST && b->cval) e->umax = a->umax / b->cval; break;
      case E_LSHR: if (b->op == E_CONST) e->umax = b->cval >= w ? 0 : a->umax >> b->cval; break;
      case E_OR: case E_XOR: {
        u64 m = a->umax | b->umax; unsigned bw = 64 - std::countl_zero(m | 1);
        e->umax = wmask(bw); break;
      }
      case E_ADD: { u64 s = a->umax + b->umax; if (s >= a->umax && s <= wmask(w)) e->umax = s; break; }
      case E_EXTRACT: if (extra == 0) e->umax = std::min(a->umax, wmask(w)); break;
      default: break;
    }
    table.emplace(k, e);
    return e;
  }
  E cst(u64 v, unsigned w) { return intern(E_CONST, w, 0, v & wmask(w)); }
  E var(u32 idx, unsigned w) { return intern(E_VAR, w, idx, 0); }
  E tru() { return cst(1, 1); }
  E fls() { return cst(0, 1); }
  bool isC(E e) { return e->op == E_CONST; }
  bool isC(E e, u64 v) { return e->op == E_CONST && e->cval == v; }
  E not_(E a) {
    if (isC(a)) return cst(!a->cval, 1);
    if (a->op == E_EQ && a->a[0]->op == E_CONST && a->a[0]->width == 1 && a->a[0]->cval == 0) return a->a[1];
    return intern(E_EQ, 1, 0, 0, cst(0, 1), a);  // canonical negation: (0 == a)
  }
  bool isNot(E a) { return a->op == E_EQ && a->a[0]->op == E_CONST && a->a[0]->width == 1; }

  E mk(Op op, unsigned rw, E a, E b = nullptr, E c = nullptr, u32 extra = 0) {
    unsigned w = a->width;
    if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
      return cst(evalOp(op, w, rw, extra, a->cval, b ? b->cval : 0, c ? c->cval : 0, b ? b->width : 0), rw);
    switch (op) {
      case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ:
        if (isC(b) || (!isC(a) && a->id > b->id)) std::swap(a, b);  // constant first
        break;
      default: break;
    }
    switch (op) {
      case E_ADD:
        if (isC(a, 0)) return b;
        if (isC(a) && b->op == E_ADD && isC(b->a[0])) return mk(E_ADD, rw, cst(a->cval + b->a[0]->cval, w), b->a[1]);
        if (w == 1) return mk(E_XOR, 1, a, b);
        break;
      case E_SUB:
        if (a == b) return cst(0, w);
        if (isC(b)) return mk(E_ADD, rw, cst(-b->cval, w), a);
        if (w == 1) return mk(E_XOR, 1, a, b);
        break;
      case E_MUL:
        if (isC(a, 0)) return a;
        if (isC(a, 1)) return b;
        if (isC(a) && std::has_single_bit(a->cval)) return mk(E_SHL, rw, b, cst(std::countr_zero(a->cval), w));
        break;
      case E_UDIV:
        if (isC(b, 1)) return a;
        if (isC(b) && std::has_single_bit(b->cval)) return mk(E_LSHR, rw, a, cst(std::countr_zero(b->cval), w));
        if (isC(b) && a->umax < b->cval) return cst(0, w);
        break;
      case E_UREM:
        if (isC(b, 1)) return cst(0, w);
        if (isC(b) && a->umax < b->cval) return a;
        if (isC(b) && std::has_single_bit(b->cval)) return mk(E_AND, rw, cst(b->cval - 1, w), a);
        break;
      case E_AND:
        if (a == b) return a;
        if (isC(a, 0)) return a;
        if (isC(a, wmask(w))) return b;
        if (isC(a) && std::has_single_bit(a->cval + 1) && b->umax <= a->cval) return b;
        if (w == 1 && (a == not_(b))) return fls();
        break;
      case E_OR:
        if (a == b) return a;
        if (isC(a, 0)) return b;
        if (isC(a, wmask(w))) return a;
        if (w == 1 && (a == not_(b))) return tru();
        break;
      case E_XOR:
        if (a == b) return cst(0, w);
        if (isC(a, 0)) return b;
        if (w == 1 && isC(a, 1)) return not_(b);
        break;
      case E_SHL: case E_LSHR: case E_ASHR:
        if (isC(b, 0)) return a;
        if (op != E_ASHR && isC(b) && b->cval >= w) return cst(0, w);
        if (op == E_LSHR && isC(b) && b->cval < w && a->umax < (1ull << b->cval)) return cst(0, w);
        break;
      case E_EQ:
        if (a == b) return tru();
        if (w == 1 && isC(a)) return a->cval ? b : not_(b);
        if (a->umax < (isC(b) ? b->cval : 0)) return fls();
        if (isC(a)) {
          if (a->cval > b->umax) return fls();
          if (b->op == E_ZEXT) return mk(E_EQ, 1, cst(a->cval, b->a[0]->width), b->a[0]);
          if (b->op == E_SEXT) {
            u64 t = a->cval & wmask(b->a[0]->width);
            if (((u64)sext64(t, b->a[0]->width) & wmask(w)) != a->cval) return fls();
            return mk(E_EQ, 1, cst(t, b->a[0]->width), b->a[0]);
          }
          if (b->op == E_ADD && isC(b->a[0])) return mk(E_EQ, 1, cst(a->cval - b->a[0]->cval, w), b->a[1]);
          if (b->op == E_ITE && isC(b->a[1]) && isC(b->a[2])) {
            bool p = b->a[1]->cval == a->cval, q = b->a[2]->cval == a->cval;
            if (p && q) return tru();
            if (!p && !q) return fls();
            return p ? b->a[0] : not_(b->a[0]);
          }
          if (b->op == E_ITE && (isC(b->a[1]) || isC(b->a[2])))
            return mk(E_ITE, 1, b->a[0], mk(E_EQ, 1, a, b->a[1]), mk(E_EQ, 1, a, b->a[2]));
        } else if ((a->op == E_ZEXT && b->op == E_ZEXT && a->a[0]->width == b->a[0]->width) ||
                   (a->op == E_SEXT && b->op == E_SEXT && a->a[0]->width == b->a[0]->width)) {
          return mk(E_EQ, 1, a->a[0], b->a[0]);
        }
        break;
      case E_ULT:
        if (a == b || isC(b, 0) || isC(a, wmask(w))) return fls();
        if (isC(b) && a->umax < b->cval) return tru();
        if (isC(a) && b->umax <= a->cval) return fls();
        if (isC(b, 1)) return mk(E_EQ, 1, cst(0, w), a);
        if (isC(a, 0)) return not_(mk(E_EQ, 1, a, b));
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a[0]->width == b->a[0]->width) return mk(E_ULT, 1, a->a[0], b->a[0]);
        if (a->op == E_ZEXT && isC(b) && b->cval <= wmask(a->a[0]->width)) return mk(E_ULT, 1, a->a[0], cst(b->cval, a->a[0]->width));
        if (b->op == E_ZEXT && isC(a) && a->cval <= wmask(b->a[0]->width)) return mk(E_ULT, 1, cst(a->cval, b->a[0]->width), b->a[0]);
        break;
      case E_ULE: return not_(mk(E_ULT, 1, b, a));
      case E_SLT:
        if (a == b) return fls();
        if (a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mk(E_ULT, 1, a, b);
        break;
      case E_SLE: return not_(mk(E_SLT, 1, b, a));
      case E_ITE:
        if (isC(a)) return a->cval ? b : c;
        if (b == c) return b;
        if (isNot(a)) return mk(E_ITE, rw, a->a[1], c, b);
        if (rw == 1) {
          if (isC(b)) return b->cval ? mk(E_OR, 1, a, c) : mk(E_AND, 1, not_(a), c);
          if (isC(c)) return c->cval ? mk(E_OR, 1, not_(a), b) : mk(E_AND, 1, a, b);
        }
        break;
      case E_ZEXT:
        if (rw == w) return a;
        if (a->op == E_ZEXT) return mk(E_ZEXT, rw, a->a[0]);
        if (a->op == E_ITE && isC(a->a[1]) && isC(a->a[2]))
          return mk(E_ITE, rw, a->a[0], cst(a->a[1]->cval, rw), cst(a->a[2]->cval, rw));
        break;
      case E_SEXT:
        if (rw == w) return a;
        if (w == 1) return mk(E_ITE, rw, a, cst(~0ull, rw), cst(0, rw));
        if (a->umax < (1ull << (w - 1))) return mk(E_ZEXT, rw, a);
        break;
      case E_EXTRACT:
        if (rw == w) return a;
        if (a->op == E_EXTRACT) return mk(E_EXTRACT, rw, a->a[0], nullptr, nullptr, extra + a->extra);
        if (a->op == E_ZEXT || a->op == E_SEXT) {
          unsigned iw = a->a[0]->width;
          if (extra + rw <= iw) return mk(E_EXTRACT, rw, a->a[0], nullptr, nullptr, extra);
          if (a->op == E_ZEXT && extra >= iw) return cst(0, rw);
          if (extra == 0) return mk(a->op, rw, a->a[0]);
        }
        if (a->op == E_CONCAT) {
          unsigned lw = a->a[1]->width;
          if (extra + rw <= lw) return mk(E_EXTRACT, rw, a->a[1], nullptr, nullptr, extra);
          if (extra >= lw) return mk(E_EXTRACT, rw, a->a[0], nullptr, nullptr, extra - lw);
        }
        if (a->op == E_ITE && (isC(a->a[1]) || isC(a->a[2])))
          return mk(E_ITE, rw, a->a[0], mk(E_EXTRACT, rw, a->a[1], nullptr, nullptr, extra), mk(E_EXTRACT, rw, a->a[2], nullptr, nullptr, extra));
        break;
      case E_CONCAT:
        if (isC(a, 0)) return mk(E_ZEXT, rw, b);
        if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a[0] == b->a[0] && a->extra == b->extra + b->width)
          return mk(E_EXTRACT, rw, a->a[0], nullptr, nullptr, b->extra);
        break;
      default: break;
    }
    return intern(op, rw, extra, 0, a, b, c);
  }

  // Value of e under the model (variables beyond it are 0; undefined data is 0).
  u64 eval(E e, const std::vector<u64>& model) {
    ++epoch;
    return ev(e, model);
  }
  u64 ev(E e, const std::vector<u64>& m) {
    if (e->op == E_CONST) return e->cval;
    if (e->op == E_VAR) return (e->extra < m.size() ? m[e->extra] : 0) & wmask(e->width);
    if (e->stamp == epoch) return e->ev;
    u64 r;
    if (e->op == E_ITE) {
      r = ev(e->a[0], m) ? ev(e->a[1], m) : ev(e->a[2], m);
    } else {
      u64 x = ev(e->a[0], m), y = e->a[1] ? ev(e->a[1], m) : 0, z = e->a[2] ? ev(e->a[2], m) : 0;
      r = evalOp(e->op, e->a[0]->width, e->width, e->extra, x, y, z, e->a[1] ? e->a[1]->width : 0);
    }
    e->stamp = epoch;
    e->ev = r;
    return r;
  }
  // Rebuild e with undefined variables replaced: by 0, or by fresh twins.
  E subst(E e, bool twins, std::unordered_map<E, E>& memo) {
    if (!e->undef) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E r;
    if (e->op == E_VAR) r = twins ? var(e->extra + (1u << 25), e->width) : cst(0, e->width);
    else {
      E x = subst(e->a[0], twins, memo), y = e->a[1] ? subst(e->a[1], twins, memo) : nullptr,
        z = e->a[2] ? subst(e->a[2], twins, memo) : nullptr;
      r = mk(e->op, e->width, x, y, z, e->extra);
    }
    memo[e] = r;
    return r;
  }
  std::string str(E e, int depth = 6) {
    static const char* names[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","uitofp","sitofp","fptoui","fptosi","fpext","fptrunc","fneg","fabs","fceil","ffloor"};
    if (e->op == E_CONST) return std::to_string(e->cval);
    if (e->op == E_VAR) return (e->extra >= UNDEF_BASE ? "u" : "v") + std::to_string(e->extra >= UNDEF_BASE ? e->extra - UNDEF_BASE : e->extra);
    if (!depth) return "...";
    std::string s = std::string("(") + names[e->op];
    for (int i = 0; i < e->nargs; i++) s += " " + str(e->a[i], depth - 1);
    return s + ")";
  }
};

extern ExprPool P;

// ---------------------------------------------------------------- Z3 side
struct Z3Side {
  Z3_context c = nullptr;
  Z3_sort bv[65];
  void init() {
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg);  // reference counting is automatic in this mode
    Z3_del_config(cfg);
    for (int i = 1; i <= 64; i++) bv[i] = Z3_mk_bv_sort(c, i);
  }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c); }
  Z3_ast fp(Z3_ast b, unsigned w) { return Z3_mk_fpa_to_fp_bv(c, b, fps(w)); }
  Z3_ast rne() { return Z3_mk_fpa_rne(c); }
  // Width-1 expressions translate to Bool.
  Z3_ast bvOf(E e) {
    Z3_ast t = tr(e);
    if (e->width == 1) return Z3_mk_ite(c, t, Z3_mk_unsigned_int64(c, 1, bv[1]), Z3_mk_unsigned_int64(c, 0, bv[1]));
    return t;
  }
  Z3_ast tr(E e) {
    if (e->z3) return e->z3;
    Z3_ast r = tr1(e);
    e->z3 = r;
    return r;
  }
  Z3_ast tr1(E e) {
    unsigned w = e->nargs ? e->a[0]->width : e->width;
    auto A = [&](int i) { return tr(e->a[i]); };
    switch (e->op) {
      case E_CONST:
        if (e->width == 1) return e->cval ? Z3_mk_true(c) : Z3_mk_false(c);
        return Z3_mk_unsigned_int64(c, e->cval, bv[e->width]);
      case E_VAR: {
        std::string n = "v" + std::to_string(e->extra) + "_" + std::to_string(e->width);
        return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), e->width == 1 ? Z3_mk_bool_sort(c) : bv[e->width]);
      }
      case E_ADD: return Z3_mk_bvadd(c, A(0), A(1));
      case E_SUB: return Z3_mk_bvsub(c, A(0), A(1));
      case E_MUL: return w == 1 ? ({ Z3_ast x[2] = {A(0), A(1)}; Z3_mk_and(c, 2, x); }) : Z3_mk_bvmul(c, A(0), A(1));
      case E_UDIV: return Z3_mk_bvudiv(c, A(0), A(1));
      case E_SDIV: return Z3_mk_bvsdiv(c, A(0), A(1));
      case E_UREM: return Z3_mk_bvurem(c, A(0), A(1));
      case E_SREM: return Z3_mk_bvsrem(c, A(0), A(1));
      case E_AND: { Z3_ast x[2] = {A(0), A(1)}; return w == 1 ? Z3_mk_and(c, 2, x) : Z3_mk_bvand(c, x[0], x[1]); }
      case E_OR: { Z3_ast x[2] = {A(0), A(1)}; return w == 1 ? Z3_mk_or(c, 2, x) : Z3_mk_bvor(c, x[0], x[1]); }
      case E_XOR: return w == 1 ? Z3_mk_xor(c, A(0), A(1)) : Z3_mk_bvxor(c, A(0), A(1));
      case E_SHL: return Z3_mk_bvshl(c, A(0), A(1));
      case E_LSHR: return Z3_mk_bvlshr(c, A(0), A(1));
      case E_ASHR: return Z3_mk_bvashr(c, A(0), A(1));
      case E_EQ:
        if (isNotE(e)) return Z3_mk_not(c, A(1));
        return Z3_mk_eq(c, A(0), A(1));
      case E_ULT: return w == 1 ? Z3_mk_bvult(c, bvOf(e->a[0]), bvOf(e->a[1])) : Z3_mk_bvult(c, A(0), A(1));
      case E_ULE: return w == 1 ? Z3_mk_bvule(c, bvOf(e->a[0]), bvOf(e->a[1])) : Z3_mk_bvule(c, A(0), A(1));
      case E_SLT: return w == 1 ? Z3_mk_bvslt(c, bvOf(e->a[0]), bvOf(e->a[1])) : Z3_mk_bvslt(c, A(0), A(1));
      case E_SLE: return w == 1 ? Z3_mk_bvsle(c, bvOf(e->a[0]), bvOf(e->a[1])) : Z3_mk_bvsle(c, A(0), A(1));
      case E_ITE: return Z3_mk_ite(c, A(0), A(1), A(2));
      case E_ZEXT: return Z3_mk_zero_ext(c, e->width - w, bvOf(e->a[0]));
      case E_SEXT: return Z3_mk_sign_ext(c, e->width - w, bvOf(e->a[0]));
      case E_EXTRACT: {
        Z3_ast x = Z3_mk_extract(c, e->extra + e->width - 1, e->extra, A(0));
        return e->width == 1 ? Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, bv[1])) : x;
      }
      case E_CONCAT: return Z3_mk_concat(c, bvOf(e->a[0]), bvOf(e->a[1]));
      case E_FADD: return ieee(Z3_mk_fpa_add(c, rne(), fp(A(0), w), fp(A(1), w)));
      case E_FSUB: return ieee(Z3_mk_fpa_sub(c, rne(), fp(A(0), w), fp(A(1), w)));
      case E_FMUL: return ieee(Z3_mk_fpa_mul(c, rne(), fp(A(0), w), fp(A(1), w)));
      case E_FDIV: return ieee(Z3_mk_fpa_div(c, rne(), fp(A(0), w), fp(A(1), w)));
      case E_FOEQ: return Z3_mk_fpa_eq(c, fp(A(0), w), fp(A(1), w));
      case E_FOLT: return Z3_mk_fpa_lt(c, fp(A(0), w), fp(A(1), w));
      case E_FOLE: return Z3_mk_fpa_leq(c, fp(A(0), w), fp(A(1), w));
      case E_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, fp(A(0), w)), Z3_mk_fpa_is_nan(c, fp(A(1), w))}; return Z3_mk_or(c, 2, x); }
      case E_UITOFP: return ieee(Z3_mk_fpa_to_fp_unsigned(c, rne(), bvOf(e->a[0]), fps(e->width)));
      case E_SITOFP: return ieee(Z3_mk_fpa_to_fp_signed(c, rne(), bvOf(e->a[0]), fps(e->width)));
      case E_FPTOUI: return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(A(0), w), e->width);
      case E_FPTOSI: return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(A(0), w), e->width);
      case E_FPEXT: return ieee(Z3_mk_fpa_to_fp_float(c, rne(), fp(A(0), 32), fps(64)));
      case E_FPTRUNC: return ieee(Z3_mk_fpa_to_fp_float(c, rne(), fp(A(0), 64), fps(32)));
      case E_FNEG: return Z3_mk_bvxor(c, A(0), Z3_mk_unsigned_int64(c, 1ull << (w - 1), bv[w]));
      case E_FABS: return Z3_mk_bvand(c, A(0), Z3_mk_unsigned_int64(c, ~(1ull << (w - 1)) & wmask(w), bv[w]));
      case E_FCEIL: return ieee(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fp(A(0), w)));
      case E_FFLOOR: return ieee(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fp(A(0), w)));
    }
    abort();
  }
  static bool isNotE(E a) { return a->op == E_EQ && a->a[0]->op == E_CONST && a->a[0]->width == 1 && a->a[0]->cval == 0; }
  Z3_ast ieee(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(c, f); }
};
extern Z3Side Z;
