// Hash-consed bit-vector expression DAG (widths 1..128) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <array>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  ZExt, SExt, Extract, Concat, Eq, Ult, Ule, Slt, Sle, Ite
};

struct Expr {
  Op op;
  uint8_t w;       // width in bits
  uint32_t id;
  uint32_t off;    // Extract: low bit; Sym: symbol index
  u128 val;        // Const
  Expr* a; Expr* b; Expr* c;
  std::array<uint64_t, 4> syms; // symbols (mod 256) occurring
  uint64_t epoch = 0; u128 ev = 0; // evaluation cache
  void* z3 = nullptr;
};

struct Symbol { std::string name; unsigned w; };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

inline bool evalBin(Op op, unsigned w, u128 x, u128 y, u128& r) {
  switch (op) {
  case Op::Add: r = x + y; break;
  case Op::Sub: r = x - y; break;
  case Op::Mul: r = x * y; break;
  // SMT-LIB semantics for division by zero
  case Op::UDiv: r = y ? x / y : ~(u128)0; break;
  case Op::URem: r = y ? x % y : x; break;
  case Op::SDiv: { i128 a = sextw(x, w), b = sextw(y, w); if (!b) r = a < 0 ? 1 : ~(u128)0; else if (b == -1) r = (u128)0 - (u128)a; else r = (u128)(a / b); break; }
  case Op::SRem: { i128 a = sextw(x, w), b = sextw(y, w); if (!b) r = x; else if (b == -1) r = 0; else r = (u128)(a % b); break; }
  case Op::And: r = x & y; break;
  case Op::Or: r = x | y; break;
  case Op::Xor: r = x ^ y; break;
  case Op::Shl: r = y >= w ? 0 : x << (unsigned)y; break;
  case Op::LShr: r = y >= w ? 0 : x >> (unsigned)y; break;
  case Op::AShr: { i128 a = sextw(x, w); r = y >= w ? (a < 0 ? ~(u128)0 : 0) : (u128)(a >> (unsigned)y); break; }
  case Op::Eq: r = x == y; return true;
  case Op::Ult: r = x < y; return true;
  case Op::Ule: r = x <= y; return true;
  case Op::Slt: r = sextw(x, w) < sextw(y, w); return true;
  case Op::Sle: r = sextw(x, w) <= sextw(y, w); return true;
  default: return false;
  }
  r &= maskw(w);
  return true;
}

class ExprPool {
  struct H { size_t operator()(const Expr* e) const {
    size_t h = (size_t)e->op * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(e->off); mix((uint64_t)e->val); mix((uint64_t)(e->val >> 64));
    mix((uint64_t)(uintptr_t)e->a); mix((uint64_t)(uintptr_t)e->b); mix((uint64_t)(uintptr_t)e->c);
    return h; } };
  struct E { bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->w == y->w && x->off == y->off && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };
  std::unordered_set<Expr*, H, E> set;
  std::deque<Expr> arena;
  Expr* intern(Expr t) {
    auto it = set.find(&t);
    if (it != set.end()) return *it;
    t.id = arena.size();
    t.syms = {0, 0, 0, 0};
    if (t.op == Op::Sym) t.syms[(t.off >> 6) & 3] |= 1ull << (t.off & 63);
    for (Expr* k : {t.a, t.b, t.c}) if (k) for (int i = 0; i < 4; i++) t.syms[i] |= k->syms[i];
    arena.push_back(t);
    Expr* r = &arena.back();
    set.insert(r);
    return r;
  }
  static Expr blank(Op op, unsigned w) { Expr e{}; e.op = op; e.w = (uint8_t)w; return e; }
public:
  std::vector<Symbol> symbols;
  std::vector<Expr*> symExprs;
  uint64_t curEpoch = 0;
  size_t size() const { return arena.size(); }

  Expr* cst(unsigned w, u128 v) { Expr e = blank(Op::Const, w); e.val = v & maskw(w); return intern(e); }
  Expr* tru() { return cst(1, 1); }
  Expr* fls() { return cst(1, 0); }
  Expr* sym(unsigned idx) { return symExprs[idx]; }
  unsigned newSym(const std::string& name, unsigned w) {
    unsigned i = symbols.size();
    symbols.push_back({name, w});
    Expr e = blank(Op::Sym, w); e.off = i;
    symExprs.push_back(intern(e));
    return i;
  }
  static bool isC(Expr* e) { return e->op == Op::Const; }
  static bool isC(Expr* e, u128 v) { return e->op == Op::Const && e->val == v; }

  Expr* notb(Expr* e) { // boolean/bitwise not
    if (isC(e)) return cst(e->w, ~e->val);
    if (e->op == Op::Xor && isC(e->b, maskw(e->w))) return e->a;
    if (e->w == 1) {
      if (e->op == Op::Ult) return bin(Op::Ule, e->b, e->a);
      if (e->op == Op::Ule) return bin(Op::Ult, e->b, e->a);
      if (e->op == Op::Slt) return bin(Op::Sle, e->b, e->a);
      if (e->op == Op::Sle) return bin(Op::Slt, e->b, e->a);
    }
    return bin(Op::Xor, e, cst(e->w, maskw(e->w)));
  }
  Expr* bin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
    if (isC(a) && isC(b)) { u128 r; evalBin(op, w, a->val, b->val, r); return cst(cmp ? 1 : w, r); }
    bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // constants right
    u128 m = maskw(w);
    switch (op) {
    case Op::Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == Op::Add && isC(a->b)) return bin(Op::Add, a->a, cst(w, a->b->val + b->val));
      break;
    case Op::Sub:
      if (isC(b, 0)) return a;
      if (a == b) return cst(w, 0);
      if (isC(b)) return bin(Op::Add, a, cst(w, (u128)0 - b->val));
      break;
    case Op::Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (((b->val >> k) & 1) == 0) k++; return bin(Op::Shl, a, cst(w, k)); }
      break;
    case Op::UDiv: case Op::SDiv: if (isC(b, 1) && w > 1) return a; break;
    case Op::URem: if (isC(b, 1)) return cst(w, 0); break;
    case Op::And:
      if (isC(b, 0)) return b;
      if (isC(b, m) || a == b) return a;
      if (w == 1) { if (a == notb_cached(b)) return cst(1, 0); }
      if (isC(b) && a->op == Op::ZExt && (b->val & maskw(a->a->w)) == maskw(a->a->w)) return a;
      if (isC(b)) { // low mask -> zext(extract)
        u128 v = b->val; unsigned k = 0; while (k < w && ((v >> k) & 1)) k++;
        if (v == maskw(k) && k > 0 && k < w) return zext(extract(a, 0, k), w);
      }
      break;
    case Op::Or:
      if (isC(b, 0) || a == b) return a;
      if (isC(b, m)) return b;
      if (w == 1) { if (a == notb_cached(b)) return cst(1, 1); }
      { // or of disjoint shifted zext -> concat
        Expr* r = orConcat(a, b); if (r) return r; r = orConcat(b, a); if (r) return r; }
      break;
    case Op::Xor:
      if (isC(b, 0)) return a;
      if (a == b) return cst(w, 0);
      if (isC(b) && a->op == Op::Xor && isC(a->b)) return bin(Op::Xor, a->a, cst(w, a->b->val ^ b->val));
      if (w == 1 && isC(b, 1)) {
        if (a->op == Op::Ult) return bin(Op::Ule, a->b, a->a);
        if (a->op == Op::Ule) return bin(Op::Ult, a->b, a->a);
        if (a->op == Op::Slt) return bin(Op::Sle, a->b, a->a);
        if (a->op == Op::Sle) return bin(Op::Slt, a->b, a->a);
      }
      break;
    case Op::Shl:
      if (isC(b, 0)) return a;
      if (isC(b)) { if (b->val >= w) return cst(w, 0); return concat(extract(a, 0, w - (unsigned)b->val), cst((unsigned)b->val, 0)); }
      break;
    case Op::LShr:
      if (isC(b, 0)) return a;
      if (isC(b)) { if (b->val >= w) return cst(w, 0); return zext(extract(a, (unsigned)b->val, w - (unsigned)b->val), w); }
      break;
    case Op::AShr:
      if (isC(b, 0)) return a;
      if (isC(b)) { unsigned k = b->val >= w ? w - 1 : (unsigned)b->val; return sext(extract(a, k, w - k), w); }
      break;
    case Op::Eq:
      if (a == b) return tru();
      if (w == 1) {
        if (isC(b, 1)) return a;
        if (isC(b, 0)) return notb(a);
      }
      if (isC(b)) {
        if (a->op == Op::ZExt) { if (b->val >> a->a->w) return fls(); return bin(Op::Eq, a->a, cst(a->a->w, b->val)); }
        if (a->op == Op::SExt) { u128 t = b->val & maskw(a->a->w); if (((u128)sextw(t, a->a->w) & m) != b->val) return fls(); return bin(Op::Eq, a->a, cst(a->a->w, t)); }
        if (a->op == Op::Add && isC(a->b)) return bin(Op::Eq, a->a, cst(w, b->val - a->b->val));
        if (a->op == Op::Xor && isC(a->b)) return bin(Op::Eq, a->a, cst(w, b->val ^ a->b->val));
        if (a->op == Op::Ite && isC(a->b) && isC(a->c)) {
          bool t = a->b->val == b->val, f = a->c->val == b->val;
          if (t && f) return tru(); if (t) return a->a; if (f) return notb(a->a); return fls();
        }
        if (a->op == Op::Ite && isC(a->b)) { // nested chains
          if (a->b->val != b->val) return bin(Op::And, notb(a->a), bin(Op::Eq, a->c, b));
          return bin(Op::Or, a->a, bin(Op::Eq, a->c, b));
        }
        if (a->op == Op::Concat) {
          unsigned lw = a->b->w;
          return bin(Op::And, bin(Op::Eq, a->a, cst(a->a->w, b->val >> lw)), bin(Op::Eq, a->b, cst(lw, b->val)));
        }
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return bin(Op::Eq, a->a, b->a);
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return bin(Op::Eq, a->a, b->a);
      }
      break;
    case Op::Ult:
      if (a == b) return fls();
      if (isC(b, 0)) return fls();
      if (isC(a, m)) return fls();
      if (isC(b, 1)) return bin(Op::Eq, a, cst(w, 0));
      if (a->op == Op::ZExt && isC(b)) { if (b->val >> a->a->w) return tru(); return bin(Op::Ult, a->a, cst(a->a->w, b->val)); }
      if (b->op == Op::ZExt && isC(a)) { if (a->val >> b->a->w) return fls(); return bin(Op::Ult, cst(b->a->w, a->val), b->a); }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return bin(Op::Ult, a->a, b->a);
      break;
    case Op::Ule:
      if (a == b) return tru();
      if (isC(a, 0)) return tru();
      if (isC(b, m)) return tru();
      if (isC(b, 0)) return bin(Op::Eq, a, b);
      if (a->op == Op::ZExt && isC(b)) { if (b->val >> a->a->w) return tru(); return bin(Op::Ule, a->a, cst(a->a->w, b->val)); }
      if (b->op == Op::ZExt && isC(a)) { if (a->val >> b->a->w) return fls(); return bin(Op::Ule, cst(b->a->w, a->val), b->a); }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return bin(Op::Ule, a->a, b->a);
      break;
    case Op::Slt: case Op::Sle:
      if (a == b) return cst(1, op == Op::Sle);
      // zero-extended operands are non-negative
      if (a->op == Op::ZExt && b->op == Op::ZExt) return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (a->op == Op::ZExt && isC(b)) { if (sextw(b->val, w) < 0) return fls(); return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b); }
      if (b->op == Op::ZExt && isC(a)) { if (sextw(a->val, w) < 0) return tru(); return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b); }
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return bin(op, a->a, b->a);
      break;
    default: break;
    }
    Expr e = blank(op, cmp ? 1 : w); e.a = a; e.b = b;
    return intern(e);
  }
  Expr* notb_cached(Expr* e) {
    if (e->op == Op::Xor && isC(e->b, maskw(e->w))) return e->a;
    if (e->op == Op::Ult) return bin(Op::Ule, e->b, e->a);
    if (e->op == Op::Ule) return bin(Op::Ult, e->b, e->a);
    if (e->op == Op::Slt) return bin(Op::Sle, e->b, e->a);
    if (e->op == Op::Sle) return bin(Op::Slt, e->b, e->a);
    return nullptr;
  }
  Expr* orConcat(Expr* a, Expr* b) {
    // a = concat(x, 0[k]) , b = zext(y) with |y| <= k
    if (a->op == Op::Concat && isC(a->b, 0) && b->op == Op::ZExt && b->a->w <= a->b->w)
      return concat(a->a, zext(b->a, a->b->w));
    if (a->op == Op::ZExt && a->a->op == Op::Concat && isC(a->a->b, 0) && b->op == Op::ZExt && b->a->w <= a->a->b->w)
      return zext(concat(a->a->a, zext(b->a, a->a->b->w)), a->w);
    return nullptr;
  }
  Expr* zext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(w, a->val);
    if (a->op == Op::ZExt) a = a->a;
    if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return ite(a->a, cst(w, a->b->val), cst(w, a->c->val));
    Expr e = blank(Op::ZExt, w); e.a = a; return intern(e);
  }
  Expr* sext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(w, (u128)sextw(a->val, a->w));
    if (a->op == Op::SExt) a = a->a;
    if (a->op == Op::ZExt) return zext(a, w);
    Expr e = blank(Op::SExt, w); e.a = a; return intern(e);
  }
  Expr* extract(Expr* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->op) {
    case Op::Const: return cst(w, a->val >> off);
    case Op::Extract: return extract(a->a, a->off + off, w);
    case Op::Concat: {
      unsigned lw = a->b->w;
      if (off >= lw) return extract(a->a, off - lw, w);
      if (off + w <= lw) return extract(a->b, off, w);
      return concat(extract(a->a, 0, off + w - lw), extract(a->b, off, lw - off));
    }
    case Op::ZExt:
      if (off >= a->a->w) return cst(w, 0);
      if (off + w <= a->a->w) return extract(a->a, off, w);
      return zext(extract(a->a, off, a->a->w - off), w);
    case Op::SExt:
      if (off + w <= a->a->w) return extract(a->a, off, w);
      if (off < a->a->w) return sext(extract(a->a, off, a->a->w - off), w);
      break;
    case Op::Ite:
      if ((isC(a->b) && (isC(a->c) || a->c->op == Op::Ite)) || isC(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
      break;
    case Op::And: case Op::Or: case Op::Xor:
      return bin(a->op, extract(a->a, off, w), extract(a->b, off, w));
    case Op::Add: case Op::Sub: case Op::Mul:
      if (off == 0 && (isC(a->b) || isC(a->a) || a->op != Op::Mul)) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
      break;
    default: break;
    }
    Expr e = blank(Op::Extract, w); e.a = a; e.off = off; return intern(e);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst(w, (hi->val << lo->w) | lo->val);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->off == lo->off + lo->w)
      return extract(hi->a, lo->off, w);
    if (hi->op == Op::Extract && hi->a == lo && hi->off == lo->w) return lo; // unreachable widths guard
    if (hi->op == Op::ZExt) return zext(concat(hi->a, lo), w);
    // concat(x, concat(y,z)) with x,y mergeable
    if (lo->op == Op::Concat) {
      Expr* y = lo->a;
      if (hi->op == Op::Extract && y->op == Op::Extract && hi->a == y->a && hi->off == y->off + y->w)
        return concat(extract(hi->a, y->off, hi->w + y->w), lo->b);
      if (isC(hi) && isC(y)) return concat(cst(hi->w + y->w, (hi->val << y->w) | y->val), lo->b);
    }
    Expr e = blank(Op::Concat, w); e.a = hi; e.b = lo; return intern(e);
  }
  Expr* ite(Expr* c, Expr* t, Expr* f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
      if (isC(t, 1) && isC(f, 0)) return c;
      if (isC(t, 0) && isC(f, 1)) return notb(c);
      if (isC(t, 1)) return bin(Op::Or, c, f);
      if (isC(t, 0)) return bin(Op::And, notb(c), f);
      if (isC(f, 0)) return bin(Op::And, c, t);
      if (isC(f, 1)) return bin(Op::Or, notb(c), t);
    }
    if (c->op == Op::Xor && isC(c->b, 1)) return ite(c->a, f, t);
    Expr e = blank(Op::Ite, t->w); e.a = c; e.b = t; e.c = f; return intern(e);
  }

  // evaluation under an assignment (symbol index -> value); unknown symbols are 0
  u128 eval(Expr* root, const std::vector<uint64_t>& m) {
    curEpoch++;
    return evalRec(root, m);
  }
  u128 evalRec(Expr* e, const std::vector<uint64_t>& m) {
    if (e->op == Op::Const) return e->val;
    if (e->epoch == curEpoch) return e->ev;
    u128 r = 0;
    switch (e->op) {
    case Op::Sym: r = e->off < m.size() ? (m[e->off] & maskw(e->w)) : 0; break;
    case Op::ZExt: r = evalRec(e->a, m); break;
    case Op::SExt: r = (u128)sextw(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case Op::Extract: r = (evalRec(e->a, m) >> e->off) & maskw(e->w); break;
    case Op::Concat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case Op::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    default: evalBin(e->op, e->a->w, evalRec(e->a, m), evalRec(e->b, m), r);
    }
    e->epoch = curEpoch; e->ev = r;
    return r;
  }
};
