// Symbolic executor for LLVM IR (KLEE class): concrete fast path, bit-vector expressions for
// symbolic data, path forking decided by z3, byte precise object memory, C++ exceptions,
// optional threads with schedule exploration and happens-before race detection.
#include "solver.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <charconv>
#include <cmath>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <map>
#include <list>
#include <cassert>

using namespace llvm;
using std::string; using std::vector;

static ExprPool P;
static std::unique_ptr<Solver> S;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static LLVMContext Ctx;

// ------------------------------------------------------------------ options
struct Options {
  string bc, entry, out;
  uint64_t maxInst = 40000000;    // per path
  double maxTime = 600;
  int workers = 8;
  uint64_t maxViol = 6;
  uint64_t seed = 1;
  int samples = 4;
  string dump;
  bool fixedInputs = false; string inputsFile; // concrete replay in the engine
  bool trace = false;
  bool stats = false;
} opt;

// ------------------------------------------------------------------ values
struct Val { uint64_t v = 0; Expr* e = nullptr; };
static inline Val C(uint64_t v) { return Val{v, nullptr}; }
static inline Val mk(Expr* e) { if (e->op == Op::Const && e->w <= 64) return Val{(uint64_t)e->val, nullptr}; return Val{0, e}; }
static inline Expr* ex(const Val& x, unsigned w) { return x.e ? x.e : P.cst(w, x.v); }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= m64(w); return (int64_t)((v ^ m) - m); }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OGlobal, OHeap, OStack, OFunc };
struct Obj {
  uint32_t ref = 1; uint32_t size = 0; uint64_t base = 0;
  ObjKind kind = OGlobal; bool ro = false; bool alive = true; uint8_t allocKind = 0; // 1 malloc, 2 new, 3 new[]
  uint8_t* b = nullptr; Expr** s = nullptr;
  const Instruction* site = nullptr;
  ~Obj() { free(b); free(s); }
  Obj* clone() const {
    Obj* o = new Obj; o->size = size; o->base = base; o->kind = kind; o->ro = ro; o->alive = alive; o->allocKind = allocKind; o->site = site;
    if (b) { o->b = (uint8_t*)malloc(size ? size : 1); memcpy(o->b, b, size); }
    if (s) { o->s = (Expr**)malloc(sizeof(Expr*) * size); memcpy(o->s, s, sizeof(Expr*) * size); }
    return o;
  }
};
static inline void objRelease(Obj* o) { if (o && --o->ref == 0) delete o; }
struct Chunk { uint32_t ref = 1; Obj* o[256] = {}; 
  ~Chunk() { for (auto* x : o) objRelease(x); }
  Chunk* clone() { Chunk* c = new Chunk; for (int i = 0; i < 256; i++) { c->o[i] = o[i]; if (o[i]) o[i]->ref++; } return c; } };
static const unsigned GRAN = 20;
static const uint64_t HIGHTOP = 1ull << 26;
struct Mem {
  vector<Chunk*> lo, hi;
  uint64_t nlo = 1, nhi = 1;
  Mem() {}
  Mem(const Mem& m) : lo(m.lo), hi(m.hi), nlo(m.nlo), nhi(m.nhi) { for (auto* c : lo) c->ref++; for (auto* c : hi) c->ref++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* c : lo) if (--c->ref == 0) delete c; for (auto* c : hi) if (--c->ref == 0) delete c; }
  Obj* find(uint64_t addr) const {
    uint64_t idx = addr >> GRAN;
    const vector<Chunk*>* v = &lo;
    if (idx > (HIGHTOP >> 1)) { if (idx > HIGHTOP) return nullptr; v = &hi; idx = HIGHTOP - idx; }
    if ((idx >> 8) >= v->size()) return nullptr;
    return (*v)[idx >> 8]->o[idx & 255];
  }
  Obj*& slotW(vector<Chunk*>& v, uint64_t idx) {
    while ((idx >> 8) >= v.size()) v.push_back(new Chunk);
    Chunk*& c = v[idx >> 8];
    if (c->ref > 1) { c->ref--; c = c->clone(); }
    return c->o[idx & 255];
  }
  Obj* writable(Obj* o) {
    uint64_t idx = o->base >> GRAN;
    vector<Chunk*>& v = idx > (HIGHTOP >> 1) ? hi : lo;
    if (idx > (HIGHTOP >> 1)) idx = HIGHTOP - idx;
    Obj*& s = slotW(v, idx);
    if (s->ref > 1) { s->ref--; s = s->clone(); }
    return s;
  }
  Obj* alloc(uint32_t size, ObjKind k, bool down, int fill) {
    Obj* o = new Obj; o->size = size; o->kind = k;
    o->b = (uint8_t*)malloc(size ? size : 1); memset(o->b, fill, size);
    if (down) { uint64_t i = nhi++; o->base = (HIGHTOP - i) << GRAN; slotW(hi, i) = o; }
    else { uint64_t i = nlo++; o->base = i << GRAN; slotW(lo, i) = o; }
    return o;
  }
};

// ------------------------------------------------------------------ decoded code
enum K : uint8_t { K_BIN, K_ICMP, K_SELECT, K_LOAD, K_STORE, K_GEP, K_ZEXT, K_SEXT, K_TRUNC, K_BITCAST, K_ALLOCA, K_BR, K_CONDBR, K_SWITCH, K_RET,
  K_CALL, K_EXTRACTV, K_INSERTV, K_PHI, K_UNREACH, K_RESUME, K_LPAD, K_RMW, K_CMPXCHG, K_NOP, K_COPY, K_FBIN, K_FCMP, K_FCAST, K_FNEG,
  K_XELT, K_IELT, K_SHUF, K_BAD };
struct Leaf { uint32_t off; uint16_t w; uint16_t bytes; };
struct Edge { uint32_t target; vector<std::array<int, 2>> moves; };
struct DFunc;
struct DInst {
  K k; uint8_t sub = 0; uint16_t lanes = 1; uint16_t w = 0, w2 = 0; int dst = -1;
  vector<int> ops;          // operand codes (first slot / const pool index)
  const Instruction* I = nullptr;
  vector<Leaf> leafs;
  vector<Edge> edges;       // successors
  vector<uint64_t> cases; vector<int> caseEdge;
  vector<uint64_t> scale; uint64_t coff = 0;
  vector<int> mask;
  bool isInvoke = false; bool volat = false;
  Function* callee = nullptr; int intrin = 0; int builtin = -1;
  vector<uint16_t> argLanes; vector<uint32_t> byval;
  bool hit = false;
};
struct DFunc {
  Function* F = nullptr; vector<DInst> code; vector<Val> pool; int nslots = 0;
  vector<int> argSlot; vector<uint16_t> argLanes; string name;
  bool nounwind = false;
};
static std::unordered_map<const Function*, std::unique_ptr<DFunc>> dfuncs;
static vector<Function*> funcAt; // by object index
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;

// ------------------------------------------------------------------ state
struct Frame { DFunc* f; uint32_t pc; uint32_t base; vector<uint64_t> allocas; };
struct VC { vector<uint32_t> c; 
  uint32_t get(unsigned i) const { return i < c.size() ? c[i] : 0; }
  void set(unsigned i, uint32_t v) { if (c.size() <= i) c.resize(i + 1, 0); c[i] = v; }
  void join(const VC& o) { if (c.size() < o.c.size()) c.resize(o.c.size(), 0); for (size_t i = 0; i < o.c.size(); i++) c[i] = std::max(c[i], o.c[i]); } };
enum TStat : uint8_t { T_RUN, T_BLOCKED, T_DONE };
struct Thread { vector<Frame> fr; vector<Val> regs; uint64_t lpObj = 0; int lpSel = 0; TStat st = T_RUN; uint64_t waitMutex = 0; bool waitShared = false; int waitJoin = -1; VC vc; bool yielded = false; 
  vector<Function*> boot; };
struct Mutex { int owner = -1; int count = 0; int readers = 0; VC vc; };
struct Shadow { int wt = -1; uint32_t wc = 0; const Instruction* wi = nullptr; vector<std::pair<int, uint32_t>> rd; const Instruction* ri = nullptr; };
struct Obs { const char* name; Val v; unsigned w; };
struct Inp { unsigned sym; };
struct State {
  Mem mem; vector<Thread> th; int cur = 0;
  vector<Expr*> pc; vector<uint64_t> model;
  vector<Obs> obs; vector<Inp> inputs;
  std::map<string, int> symCount;
  uint64_t insts = 0, totalInsts = 0; uint32_t heapLive = 0; bool heapDown = false; uint32_t depth = 0;
  std::map<uint64_t, Mutex> mtx; std::map<uint64_t, Shadow> shadow; std::map<uint64_t, VC> atomVC; bool mt = false; int switches = 0;
  vector<int> sched;
  std::map<std::pair<int, const GlobalVariable*>, uint64_t> tls;
  std::set<string> reached;
  bool incomplete = false;
};

// path terminations inside the executor
struct EndPath { enum T { Ok, Assume, Violation, Unsupported, Limit } t; string kind, msg; };
[[noreturn]] static void unsupported(const string& m) { throw EndPath{EndPath::Unsupported, "unsupported", m}; }
[[noreturn]] static void violate(const string& k, const string& m) { throw EndPath{EndPath::Violation, k, m}; }

// ------------------------------------------------------------------ shared control
struct Shared {
  std::atomic<int> active; std::atomic<int> stop; std::atomic<uint64_t> viol, paths; std::atomic<uint64_t> timeouts;
};
static Shared* sh;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// process local results
struct Violation { string kind, msg, stack; string inputs; string obs; string sched; };
static vector<Violation> viols;
static std::map<string, uint64_t> unsup;
static std::map<string, uint64_t> reachedAll;
static uint64_t nPaths, nForks, nInsts, nAssumeKilled, nLimit, nUnknown, nChecks, nChecksSym, nChecksConcrete, nMaxPC, nSched;
static vector<string> samples;
static vector<State*> work;
static State* cs; // currently executing state

static string jesc(const string& s) {
  string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static string locOf(const Instruction* I) {
  if (!I) return "?";
  const DILocation* d = I->getDebugLoc();
  if (!d) return "?";
  string r;
  for (int n = 0; d && n < 3; n++, d = d->getInlinedAt()) { if (n) r += " <- "; r += d->getFilename().str() + ":" + std::to_string(d->getLine()); }
  return r;
}
static string stackOf(State& s) {
  string r;
  Thread& t = s.th[s.cur];
  int n = 0;
  for (auto it = t.fr.rbegin(); it != t.fr.rend() && n < 14; ++it, ++n) {
    string dn = demangle(it->f->name); if (dn.size() > 110) dn = dn.substr(0, 110) + "...";
    r += "#" + std::to_string(n) + " " + dn + " @ " + locOf(it->f->code[it->pc].I) + "\n";
  }
  return r;
}
static string inputsOf(State& s, const vector<uint64_t>& m) {
  string r = "[";
  for (size_t i = 0; i < s.inputs.size(); i++) {
    auto& sy = P.symbols[s.inputs[i].sym];
    uint64_t v = s.inputs[i].sym < m.size() ? m[s.inputs[i].sym] : 0;
    if (i) r += ",";
    string nm = sy.name; auto h = nm.rfind('#'); if (h != string::npos) nm = nm.substr(0, h);
    r += "[\"" + jesc(nm) + "\"," + std::to_string(sy.w) + "," + std::to_string(v & m64(sy.w)) + "]";
  }
  return r + "]";
}
static string obsOf(State& s, const vector<uint64_t>& m) {
  string r = "[";
  for (size_t i = 0; i < s.obs.size(); i++) {
    uint64_t v = s.obs[i].v.e ? (uint64_t)P.eval(s.obs[i].v.e, m) : s.obs[i].v.v;
    if (i) r += ",";
    r += "[\"" + jesc(s.obs[i].name) + "\"," + std::to_string(v) + "]";
  }
  return r + "]";
}
static string schedOf(State& s) { string r = "["; for (size_t i = 0; i < s.sched.size(); i++) { if (i) r += ","; r += std::to_string(s.sched[i]); } return r + "]"; }

// ------------------------------------------------------------------ constraints
static bool overlap(Expr* a, const std::array<uint64_t, 4>& m) { for (int i = 0; i < 4; i++) if (a->syms[i] & m[i]) return true; return false; }
static vector<Expr*> slice(State& s, Expr* c) {
  vector<Expr*> r; std::array<uint64_t, 4> m = c->syms;
  vector<char> in(s.pc.size(), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!in[i] && overlap(s.pc[i], m)) { in[i] = 1; ch = true; for (int k = 0; k < 4; k++) m[k] |= s.pc[i]->syms[k]; } }
  for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) r.push_back(s.pc[i]);
  r.push_back(c);
  return r;
}
static void addPC(State& s, Expr* c) {
  if (c->op == Op::Const) return;
  if (c->op == Op::And && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) if (*it == c) return;
  s.pc.push_back(c);
  nMaxPC = std::max<uint64_t>(nMaxPC, s.pc.size());
}
static bool inPC(State& s, Expr* c) { for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) if (*it == c) return true; return false; }
static State* fork(State& s) { nForks++; State* n = new State(s); n->depth++; return n; }

// Feasibility of c in s. On Sat *mod receives a model of pc && c.
static Res feasible(State& s, Expr* c, vector<uint64_t>* mod) {
  if (c->op == Op::Const) { if (c->val) { if (mod) *mod = s.model; return Res::Sat; } return Res::Unsat; }
  vector<uint64_t> m2 = s.model;
  Res r = S->check(slice(s, c), &m2);
  if (r == Res::Sat && mod) *mod = std::move(m2);
  return r;
}
// Truth of c on the current path; forks when both are possible (the other path re-executes the instruction).
static bool decide(State& s, Expr* c) {
  if (c->op == Op::Const) return c->val != 0;
  if (inPC(s, c)) return true;
  Expr* n = P.notb(c);
  if (inPC(s, n)) return false;
  bool v = P.eval(c, s.model) != 0;
  Expr* other = v ? n : c;
  vector<uint64_t> m2;
  Res r = feasible(s, other, &m2);
  if (r == Res::Sat) {
    State* o = fork(s);
    o->model = std::move(m2);
    addPC(*o, other);
    work.push_back(o);
    addPC(s, v ? c : n);
  } else if (r == Res::Unknown) { nUnknown++; s.incomplete = true; addPC(s, v ? c : n); }
  return v;
}
static uint64_t concretize(State& s, const Val& x, unsigned w) {
  if (!x.e) return x.v;
  for (;;) {
    uint64_t v = (uint64_t)P.eval(x.e, s.model);
    if (decide(s, P.bin(Op::Eq, x.e, P.cst(w, v)))) return v;
  }
}
static void assumeC(State& s, Expr* c) {
  if (c->op == Op::Const) { if (!c->val) throw EndPath{EndPath::Assume, "", ""}; return; }
  if (P.eval(c, s.model)) { addPC(s, c); return; }
  vector<uint64_t> m2; Res r = feasible(s, c, &m2);
  if (r == Res::Sat) { s.model = std::move(m2); addPC(s, c); return; }
  if (r == Res::Unknown) { nUnknown++; }
  throw EndPath{EndPath::Assume, "", ""};
}
static void recordViolation(State& s, const string& kind, const string& msg, const vector<uint64_t>& m) {
  sh->viol++;
  viols.push_back({kind, msg, stackOf(s), inputsOf(s, m), obsOf(s, m), schedOf(s)});
  if (sh->viol >= opt.maxViol) sh->stop = 1;
}

// ------------------------------------------------------------------ races
static void raceCheck(State& s, uint64_t addr, unsigned n, bool write, const Instruction* I) {
  int t = s.cur; VC& vc = s.th[t].vc;
  for (unsigned i = 0; i < n; i++) {
    Shadow& h = s.shadow[addr + i];
    if (h.wt >= 0 && h.wt != t && h.wc > vc.get(h.wt))
      violate("data-race", string(write ? "write" : "read") + " races with a write of another thread at " + locOf(h.wi));
    if (write) for (auto& r : h.rd) if (r.first != t && r.second > vc.get(r.first))
      violate("data-race", "write races with a read of another thread at " + locOf(h.ri));
    if (write) { h.wt = t; h.wc = vc.get(t); h.wi = I; h.rd.clear(); }
    else { bool f = false; for (auto& r : h.rd) if (r.first == t) { r.second = vc.get(t); f = true; } if (!f) h.rd.push_back({t, vc.get(t)}); h.ri = I; }
  }
}
static void atomicSync(State& s, uint64_t addr) { VC& a = s.atomVC[addr]; VC& t = s.th[s.cur].vc; t.join(a); a.join(t); t.set(s.cur, t.get(s.cur) + 1); }

// ------------------------------------------------------------------ memory access
static Val readBytes(Obj* o, uint32_t off, unsigned w, unsigned bytes) {
  bool sym = false;
  if (o->s) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (bytes <= 8) { uint64_t v = 0; memcpy(&v, o->b + off, bytes); return C(v & m64(w)); }
    u128 v = 0; memcpy(&v, o->b + off, std::min(bytes, 16u)); return Val{0, P.cst(w, v)};
  }
  Expr* e = nullptr;
  for (unsigned i = 0; i < bytes; i++) { Expr* x = o->s[off + i] ? o->s[off + i] : P.cst(8, o->b[off + i]); e = e ? P.concat(x, e) : x; }
  if (e->w > w) e = P.extract(e, 0, w);
  return mk(e);
}
static void writeBytes(Obj* o, uint32_t off, const Val& v, unsigned w, unsigned bytes) {
  if (!v.e) {
    uint64_t x = v.v & m64(w); memcpy(o->b + off, &x, std::min(bytes, 8u)); if (bytes > 8) memset(o->b + off + 8, 0, bytes - 8);
    if (o->s) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr;
    return;
  }
  Expr* e = v.e; if (e->w < bytes * 8) e = P.zext(e, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) {
    Expr* x = P.extract(e, i * 8, 8);
    if (x->op == Op::Const) { o->b[off + i] = (uint8_t)x->val; if (o->s) o->s[off + i] = nullptr; }
    else { if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*)); o->s[off + i] = x; }
  }
}
static string describeAddr(State& s, uint64_t a) {
  Obj* o = s.mem.find(a);
  char b[160];
  if (a < 4096) { snprintf(b, sizeof b, "null pointer (0x%llx)", (unsigned long long)a); return b; }
  if (!o) { snprintf(b, sizeof b, "wild address 0x%llx", (unsigned long long)a); return b; }
  static const char* kn[] = {"global", "heap", "stack", "function"};
  snprintf(b, sizeof b, "%s%s object of %u bytes, offset %lld", o->alive ? "" : (o->kind == OHeap ? "freed " : "dead "), kn[o->kind], o->size, (long long)(a - o->base));
  return string(b) + (o->site ? " (allocated at " + locOf(o->site) + ")" : "");
}
static Obj* access(State& s, uint64_t a, uint64_t n, bool write) {
  Obj* o = s.mem.find(a);
  if (!o || !o->alive || o->kind == OFunc || a - o->base + n > o->size)
    violate(o && !o->alive ? "use-after-free" : a < 4096 ? "null-dereference" : "out-of-bounds", string(write ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at " + describeAddr(s, a));
  if (write) { if (o->ro) violate("write-to-constant", describeAddr(s, a)); o = s.mem.writable(o); }
  return o;
}
static unsigned trailZ(Expr* e) {
  switch (e->op) {
  case Op::Const: { if (e->val == 0) return e->w; unsigned k = 0; while (!((e->val >> k) & 1)) k++; return k; }
  case Op::Concat: { unsigned k = trailZ(e->b); return k == e->b->w ? k + trailZ(e->a) : k; }
  case Op::ZExt: case Op::SExt: { unsigned k = trailZ(e->a); return k == e->a->w ? e->w : k; }
  case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: return std::min(trailZ(e->a), trailZ(e->b));
  case Op::Mul: return std::min<unsigned>(e->w, trailZ(e->a) + trailZ(e->b));
  case Op::Ite: return std::min(trailZ(e->b), trailZ(e->c));
  default: return 0;
  }
}
// loads `leafs` relative to pointer p into out
static void memLoad(State& s, const Val& p, const vector<Leaf>& leafs, Val* out, const Instruction* I) {
  uint64_t a;
  if (p.e) {
    uint64_t v = (uint64_t)P.eval(p.e, s.model);
    Obj* o = s.mem.find(v);
    unsigned total = leafs.empty() ? 0 : leafs.back().off + leafs.back().bytes;
    if (o && o->alive && o->kind != OFunc && o->size <= 2048 && total <= o->size && leafs.size() == 1) {
      Expr* off = P.bin(Op::Sub, p.e, P.cst(64, o->base));
      Expr* inb = P.bin(Op::Ule, off, P.cst(64, o->size - total));
      // in-bounds for this object?  the other case is explored separately
      if (decide(s, inb)) {
        o = s.mem.find(v);
        vector<uint64_t> m2;
        Res r = feasible(s, P.notb(P.bin(Op::Eq, p.e, P.cst(64, v))), &m2);
        if (r == Res::Unsat) { a = v; goto conc; }
        uint64_t st = 1; unsigned tz = trailZ(off); st = 1ull << std::min(tz, 10u);
        const Leaf& L = leafs[0];
        Expr* e = nullptr;
        for (uint64_t k = (v - o->base) % st; k + total <= o->size; k += st) {
          Expr* x = ex(readBytes(o, k + L.off, L.w, L.bytes), L.w);
          e = e ? P.ite(P.bin(Op::Eq, off, P.cst(64, k)), x, e) : x;
        }
        *out = mk(e);
        return;
      }
    }
    a = concretize(s, p, 64);
  } else a = p.v;
conc:
  {
    if (leafs.empty()) return;
    unsigned total = leafs.back().off + leafs.back().bytes;
    Obj* o = access(s, a, total, false);
    if (s.mt && o->kind != OStack) raceCheck(s, a, total, false, I);
    uint32_t off = a - o->base;
    for (size_t i = 0; i < leafs.size(); i++) out[i] = readBytes(o, off + leafs[i].off, leafs[i].w, leafs[i].bytes);
  }
}
static void memStore(State& s, const Val& p, const vector<Leaf>& leafs, const Val* in, const Instruction* I) {
  uint64_t a = concretize(s, p, 64);
  if (leafs.empty()) return;
  unsigned total = leafs.back().off + leafs.back().bytes;
  Obj* o = access(s, a, total, true);
  if (s.mt && o->kind != OStack) raceCheck(s, a, total, true, I);
  uint32_t off = a - o->base;
  for (size_t i = 0; i < leafs.size(); i++) writeBytes(o, off + leafs[i].off, in[i], leafs[i].w, leafs[i].bytes);
}
static uint64_t load64(State& s, uint64_t a) { Obj* o = access(s, a, 8, false); return concretize(s, readBytes(o, a - o->base, 64, 8), 64); }
static double asF(uint64_t v, unsigned w) { if (w == 32) { float x; uint32_t u = v; memcpy(&x, &u, 4); return x; } double x; memcpy(&x, &v, 8); return x; }
static string cstr(State& s, uint64_t a) {
  string r;
  for (;; a++) { Obj* o = access(s, a, 1, false); uint8_t c = (uint8_t)concretize(s, readBytes(o, a - o->base, 8, 1), 8); if (!c) break; r += (char)c; if (r.size() > 4000) break; }
  return r;
}

// ------------------------------------------------------------------ decoding
static unsigned lanesOf(Type* T) {
  if (auto* ST = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto* E : ST->elements()) n += lanesOf(E); return n; }
  if (auto* AT = dyn_cast<ArrayType>(T)) return AT->getNumElements() * lanesOf(AT->getElementType());
  if (auto* VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements();
  if (T->isVoidTy()) return 0;
  return 1;
}
static unsigned widthOf(Type* T) {
  T = T->getScalarType();
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  if (T->isHalfTy()) return 16;
  if (T->isFP128Ty()) return 128;
  return 0;
}
static void leafsOf(Type* T, uint32_t off, vector<Leaf>& out) {
  if (auto* ST = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) leafsOf(ST->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* AT = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements(); i++) leafsOf(AT->getElementType(), off + i * s, out); return; }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) { unsigned w = widthOf(VT); unsigned b = w / 8; if (w % 8) { // bit vectors
      out.push_back({off, 0, 0}); return; }
    for (unsigned i = 0; i < VT->getNumElements(); i++) out.push_back({off + i * b, (uint16_t)w, (uint16_t)b}); return; }
  unsigned w = widthOf(T);
  out.push_back({off, (uint16_t)w, (uint16_t)((w + 7) / 8)});
}
static unsigned laneIndex(Type* T, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) r += lanesOf(ST->getElementType(k)); T = ST->getElementType(i); }
    else if (auto* AT = dyn_cast<ArrayType>(T)) { r += i * lanesOf(AT->getElementType()); T = AT->getElementType(); }
  }
  return r;
}

static uint64_t constAddr(const Constant* Cn);
static void evalConst(const Constant* Cn, vector<Val>& out) {
  Type* T = Cn->getType();
  if (auto* CI = dyn_cast<ConstantInt>(Cn)) {
    unsigned w = CI->getBitWidth();
    if (w <= 64) out.push_back(C(CI->getZExtValue()));
    else { u128 v = CI->getValue().getRawData()[0]; if (CI->getValue().getNumWords() > 1) v |= (u128)CI->getValue().getRawData()[1] << 64; if (w > 128) unsupported("int constant wider than 128"); out.push_back(Val{0, P.cst(w, v)}); }
    return;
  }
  if (auto* CF = dyn_cast<ConstantFP>(Cn)) {
    APInt b = CF->getValueAPF().bitcastToAPInt();
    unsigned w = b.getBitWidth();
    if (w <= 64) out.push_back(C(b.getZExtValue())); else { u128 v = b.getRawData()[0] | (u128)b.getRawData()[1] << 64; out.push_back(Val{0, P.cst(w, v)}); }
    return;
  }
  if (isa<ConstantPointerNull>(Cn)) { out.push_back(C(0)); return; }
  if (isa<UndefValue>(Cn) || isa<ConstantAggregateZero>(Cn)) {
    vector<Leaf> l; leafsOf(T, 0, l); unsigned n = lanesOf(T);
    if (l.size() != n) { for (unsigned i = 0; i < n; i++) out.push_back(C(0)); return; }
    for (unsigned i = 0; i < n; i++) out.push_back(l[i].w > 64 ? Val{0, P.cst(l[i].w, 0)} : C(0));
    return;
  }
  if (isa<ConstantTokenNone>(Cn)) { out.push_back(C(0)); return; }
  if (isa<ConstantStruct>(Cn) || isa<ConstantArray>(Cn) || isa<ConstantVector>(Cn)) { for (auto& O : Cn->operands()) evalConst(cast<Constant>(O), out); return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(Cn)) { for (unsigned i = 0; i < CD->getNumElements(); i++) evalConst(CD->getElementAsConstant(i), out); return; }
  out.push_back(C(constAddr(Cn)));
}
static uint64_t constAddr(const Constant* Cn) {
  if (auto* GA = dyn_cast<GlobalAlias>(Cn)) return constAddr(GA->getAliasee());
  if (auto* GV = dyn_cast<GlobalValue>(Cn)) { auto it = gaddr.find(GV); if (it == gaddr.end()) unsupported("global without address " + GV->getName().str()); return it->second; }
  if (auto* CE = dyn_cast<ConstantExpr>(Cn)) {
    auto op = [&](unsigned i) { vector<Val> v; evalConst(CE->getOperand(i), v); return v[0].v; };
    unsigned w = widthOf(CE->getType());
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) unsupported("const gep");
      return op(0) + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0) & m64(w);
    case Instruction::Trunc: return op(0) & m64(w);
    case Instruction::Sub: return (op(0) - op(1)) & m64(w);
    case Instruction::Add: return (op(0) + op(1)) & m64(w);
    case Instruction::Xor: return (op(0) ^ op(1)) & m64(w);
    case Instruction::ICmp: { uint64_t x = op(0), y = op(1); switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_UGT: return x > y; default: break; } unsupported("const icmp"); }
    default: break;
    }
  }
  string t; raw_string_ostream os(t); Cn->print(os);
  unsupported("constant " + t);
}

static int builtinId(StringRef n);
static DFunc* decode(Function* F) {
  auto it = dfuncs.find(F);
  if (it != dfuncs.end()) return it->second.get();
  auto up = std::make_unique<DFunc>(); DFunc* D = up.get();
  D->F = F; D->name = F->getName().str(); D->nounwind = F->doesNotThrow();
  std::unordered_map<const Value*, int> slot; int n = 0;
  for (auto& A : F->args()) { slot[&A] = n; D->argSlot.push_back(n); D->argLanes.push_back(lanesOf(A.getType())); n += lanesOf(A.getType()); }
  std::unordered_map<const BasicBlock*, uint32_t> bstart; uint32_t cnt = 0;
  auto skip = [](const Instruction& I) { return isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I); };
  for (auto& B : *F) { bstart[&B] = cnt; for (auto& I : B) { unsigned l = I.getType()->isVoidTy() ? 0 : lanesOf(I.getType()); if (l) { slot[&I] = n; n += l; } if (!skip(I)) cnt++; } }
  D->nslots = n;
  std::unordered_map<const Constant*, int> cmap;
  auto opnd = [&](const Value* V) -> int {
    if (auto* Cn = dyn_cast<Constant>(V)) {
      auto ci = cmap.find(Cn); if (ci != cmap.end()) return ci->second;
      int base = D->pool.size(); evalConst(Cn, D->pool); int code = -base - 1; cmap[Cn] = code; return code;
    }
    if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) return 0;
    return slot.at(V);
  };
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = bstart[to];
    for (auto& PN : to->phis()) { const Value* in = PN.getIncomingValueForBlock(from); unsigned l = lanesOf(PN.getType()); if (isa<UndefValue>(in)) { }
      int o = opnd(in); for (unsigned i = 0; i < l; i++) e.moves.push_back({slot[&PN] + (int)i, o >= 0 ? o + (int)i : o - (int)i}); }
    return e;
  };
  D->code.reserve(cnt);
  for (auto& B : *F) for (auto& I : B) {
    if (skip(I)) continue;
    D->code.emplace_back(); DInst& d = D->code.back(); d.I = &I;
    Type* T = I.getType();
    if (!T->isVoidTy() && lanesOf(T)) { d.dst = slot[&I]; d.lanes = lanesOf(T); d.w = widthOf(T); }
    auto std_ops = [&] { for (auto& O : I.operands()) d.ops.push_back(opnd(O)); };
    try {
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      static std::map<unsigned, Op> m{{Instruction::Add, Op::Add}, {Instruction::Sub, Op::Sub}, {Instruction::Mul, Op::Mul}, {Instruction::UDiv, Op::UDiv}, {Instruction::SDiv, Op::SDiv}, {Instruction::URem, Op::URem}, {Instruction::SRem, Op::SRem}, {Instruction::And, Op::And}, {Instruction::Or, Op::Or}, {Instruction::Xor, Op::Xor}, {Instruction::Shl, Op::Shl}, {Instruction::LShr, Op::LShr}, {Instruction::AShr, Op::AShr}};
      d.k = K_BIN; d.sub = (uint8_t)m[I.getOpcode()]; std_ops(); break; }
    case Instruction::ICmp: d.k = K_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::Select: d.k = K_SELECT; d.w2 = lanesOf(I.getOperand(0)->getType()); std_ops(); if (!T->isAggregateType()) {} leafsOf(T, 0, d.leafs); break;
    case Instruction::Load: d.k = K_LOAD; leafsOf(T, 0, d.leafs); std_ops(); d.volat = cast<LoadInst>(I).isAtomic(); break;
    case Instruction::Store: d.k = K_STORE; leafsOf(I.getOperand(0)->getType(), 0, d.leafs); std_ops(); d.volat = cast<StoreInst>(I).isAtomic(); break;
    case Instruction::GetElementPtr: {
      d.k = K_GEP; if (T->isVectorTy()) { d.k = K_BAD; break; }
      d.ops.push_back(opnd(I.getOperand(0)));
      int64_t off = 0;
      for (gep_type_iterator G = gep_type_begin(cast<GEPOperator>(&I)), E = gep_type_end(cast<GEPOperator>(&I)); G != E; ++G) {
        Value* V = G.getOperand();
        if (auto* ST = G.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(V)->getZExtValue()); continue; }
        uint64_t sz = DL->getTypeAllocSize(G.getIndexedType());
        if (auto* CI = dyn_cast<ConstantInt>(V)) { off += CI->getSExtValue() * (int64_t)sz; continue; }
        d.ops.push_back(opnd(V)); d.scale.push_back(sz); d.scale.push_back(widthOf(V->getType()));
      }
      d.coff = off; break; }
    case Instruction::ZExt: d.k = K_ZEXT; d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::SExt: d.k = K_SEXT; d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::Trunc: d.k = K_TRUNC; d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: d.w2 = widthOf(I.getOperand(0)->getType()); d.k = d.w < d.w2 ? K_TRUNC : K_ZEXT; std_ops(); break;
    case Instruction::BitCast: d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); d.k = lanesOf(I.getOperand(0)->getType()) == d.lanes && d.w == d.w2 ? K_COPY : K_BITCAST; d.mask.push_back(lanesOf(I.getOperand(0)->getType())); break;
    case Instruction::AddrSpaceCast: d.k = K_COPY; std_ops(); break;
    case Instruction::Freeze: d.k = K_COPY; std_ops(); break;
    case Instruction::Alloca: d.k = K_ALLOCA; d.coff = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()); d.ops.push_back(opnd(cast<AllocaInst>(I).getArraySize())); break;
    case Instruction::Br: { auto& BI = cast<BranchInst>(I); if (BI.isConditional()) { d.k = K_CONDBR; d.ops.push_back(opnd(BI.getCondition())); d.edges.push_back(edge(&B, BI.getSuccessor(0))); d.edges.push_back(edge(&B, BI.getSuccessor(1))); } else { d.k = K_BR; d.edges.push_back(edge(&B, BI.getSuccessor(0))); } break; }
    case Instruction::Switch: { auto& SI = cast<SwitchInst>(I); d.k = K_SWITCH; d.w2 = widthOf(SI.getCondition()->getType()); d.ops.push_back(opnd(SI.getCondition())); d.edges.push_back(edge(&B, SI.getDefaultDest()));
      for (auto& c : SI.cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); d.caseEdge.push_back(d.edges.size()); d.edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
    case Instruction::Ret: d.k = K_RET; if (I.getNumOperands()) { std_ops(); d.lanes = lanesOf(I.getOperand(0)->getType()); } else d.lanes = 0; break;
    case Instruction::Unreachable: d.k = K_UNREACH; break;
    case Instruction::Resume: d.k = K_RESUME; std_ops(); break;
    case Instruction::LandingPad: d.k = K_LPAD; break;
    case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); d.k = K_COPY; int o = opnd(X.getAggregateOperand()); int li = laneIndex(X.getAggregateOperand()->getType(), X.getIndices()); d.ops.push_back(o >= 0 ? o + li : o - li); break; }
    case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); d.k = K_INSERTV; std_ops(); d.coff = laneIndex(X.getType(), X.getIndices()); d.w2 = lanesOf(X.getInsertedValueOperand()->getType()); break; }
    case Instruction::AtomicRMW: d.k = K_RMW; d.sub = cast<AtomicRMWInst>(I).getOperation(); leafsOf(I.getOperand(1)->getType(), 0, d.leafs); std_ops(); break;
    case Instruction::AtomicCmpXchg: d.k = K_CMPXCHG; leafsOf(I.getOperand(1)->getType(), 0, d.leafs); std_ops(); break;
    case Instruction::Fence: d.k = K_NOP; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: d.k = K_FBIN; d.sub = I.getOpcode() - Instruction::FAdd; d.coff = I.getOpcode(); std_ops(); break;
    case Instruction::FNeg: d.k = K_FNEG; std_ops(); break;
    case Instruction::FCmp: d.k = K_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: d.k = K_FCAST; d.coff = I.getOpcode(); d.w2 = widthOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::ExtractElement: d.k = K_XELT; d.w2 = lanesOf(I.getOperand(0)->getType()); std_ops(); break;
    case Instruction::InsertElement: d.k = K_IELT; std_ops(); break;
    case Instruction::ShuffleVector: { d.k = K_SHUF; std_ops(); for (int x : cast<ShuffleVectorInst>(I).getShuffleMask()) d.mask.push_back(x); d.w2 = lanesOf(I.getOperand(0)->getType()); break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto& CB = cast<CallBase>(I); d.k = K_CALL;
      Function* callee = CB.getCalledFunction();
      if (!callee) if (auto* GA = dyn_cast<GlobalAlias>(CB.getCalledOperand())) callee = dyn_cast<Function>(GA->getAliaseeObject());
      d.callee = callee;
      if (callee && callee->isIntrinsic()) d.intrin = callee->getIntrinsicID();
      if (CB.isInlineAsm()) { d.callee = nullptr; d.intrin = -1; }
      if (callee && !d.intrin) d.builtin = builtinId(callee->getName());
      d.ops.push_back(callee || CB.isInlineAsm() ? 0 : opnd(CB.getCalledOperand()));
      for (unsigned i = 0; i < CB.arg_size(); i++) { Value* A = CB.getArgOperand(i); if (A->getType()->isMetadataTy()) continue; d.ops.push_back(opnd(A)); d.argLanes.push_back(lanesOf(A->getType()));
        d.byval.push_back(CB.isByValArgument(i) ? DL->getTypeAllocSize(CB.getParamByValType(i)) : 0); }
      if (CB.arg_size()) d.w2 = widthOf(CB.getArgOperand(0)->getType());
      if (auto* II = dyn_cast<InvokeInst>(&I)) { d.isInvoke = true; d.edges.push_back(edge(&B, II->getNormalDest())); d.edges.push_back(edge(&B, II->getUnwindDest())); }
      break; }
    default: d.k = K_BAD;
    }
    } catch (EndPath& e) { d.k = K_BAD; }
  }
  dfuncs[F] = std::move(up);
  return D;
}

// ------------------------------------------------------------------ interpreter helpers
static inline const Val& rd(Thread& t, Frame& f, int code, int lane = 0) { return code >= 0 ? t.regs[f.base + code + lane] : f.f->pool[-code - 1 + lane]; }

static void takeEdge(State& s, Thread& t, Frame& f, const Edge& e) {
  size_t n = e.moves.size();
  if (n == 1) t.regs[f.base + e.moves[0][0]] = rd(t, f, e.moves[0][1]);
  else if (n) { static thread_local vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; i++) tmp[i] = rd(t, f, e.moves[i][1]); for (size_t i = 0; i < n; i++) t.regs[f.base + e.moves[i][0]] = tmp[i]; }
  f.pc = e.target;
}
static void popFrame(State& s, Thread& t) {
  Frame& f = t.fr.back();
  for (uint64_t a : f.allocas) { Obj* o = s.mem.find(a); if (o) { o = s.mem.writable(o); o->alive = false; free(o->b); o->b = nullptr; free(o->s); o->s = nullptr; } }
  t.regs.resize(f.base);
  t.fr.pop_back();
}
static void pushFrame(State& s, Thread& t, DFunc* D, const vector<Val>& args) {
  Frame f; f.f = D; f.pc = 0; f.base = t.regs.size();
  t.regs.resize(f.base + D->nslots);
  if (args.size() < D->argSlot.size()) unsupported("argument count mismatch calling " + D->name);
  for (size_t i = 0; i < args.size() && i < (size_t)D->nslots; i++) t.regs[f.base + i] = args[i];
  t.fr.push_back(std::move(f));
  if (t.fr.size() > 4000) violate("stack-overflow", "call depth exceeds 4000");
}

static Val evalBinV(State& s, Op op, unsigned w, const Val& x, const Val& y) {
  if (!x.e && !y.e && w <= 64) {
    uint64_t a = x.v, b = y.v, m = m64(w), r = 0;
    switch (op) {
    case Op::Add: r = a + b; break; case Op::Sub: r = a - b; break; case Op::Mul: r = a * b; break;
    case Op::And: r = a & b; break; case Op::Or: r = a | b; break; case Op::Xor: r = a ^ b; break;
    case Op::Shl: r = b >= w ? 0 : a << b; break; case Op::LShr: r = b >= w ? 0 : (a & m) >> b; break;
    case Op::AShr: r = b >= w ? (sx64(a, w) < 0 ? ~0ull : 0) : (uint64_t)(sx64(a, w) >> b); break;
    case Op::UDiv: if (!(b & m)) violate("division-by-zero", ""); r = (a & m) / (b & m); break;
    case Op::URem: if (!(b & m)) violate("division-by-zero", ""); r = (a & m) % (b & m); break;
    case Op::SDiv: { int64_t p = sx64(a, w), q = sx64(b, w); if (!q) violate("division-by-zero", ""); r = q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q); break; }
    case Op::SRem: { int64_t p = sx64(a, w), q = sx64(b, w); if (!q) violate("division-by-zero", ""); r = q == -1 ? 0 : (uint64_t)(p % q); break; }
    default: unsupported("bin");
    }
    return C(r & m);
  }
  Expr* b = ex(y, w);
  if (op == Op::UDiv || op == Op::URem || op == Op::SDiv || op == Op::SRem)
    if (decide(s, P.bin(Op::Eq, b, P.cst(w, 0)))) violate("division-by-zero", "");
  return mk(P.bin(op, ex(x, w), b));
}
static Val evalICmp(unsigned pred, unsigned w, const Val& x, const Val& y) {
  if (!x.e && !y.e) {
    uint64_t a = x.v & m64(w), b = y.v & m64(w); int64_t p = sx64(a, w), q = sx64(b, w); bool r = false;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
    case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break;
    case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break;
    }
    return C(r);
  }
  Expr* a = ex(x, w); Expr* b = ex(y, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return mk(P.bin(Op::Eq, a, b)); case CmpInst::ICMP_NE: return mk(P.notb(P.bin(Op::Eq, a, b)));
  case CmpInst::ICMP_ULT: return mk(P.bin(Op::Ult, a, b)); case CmpInst::ICMP_ULE: return mk(P.bin(Op::Ule, a, b));
  case CmpInst::ICMP_UGT: return mk(P.bin(Op::Ult, b, a)); case CmpInst::ICMP_UGE: return mk(P.bin(Op::Ule, b, a));
  case CmpInst::ICMP_SLT: return mk(P.bin(Op::Slt, a, b)); case CmpInst::ICMP_SLE: return mk(P.bin(Op::Sle, a, b));
  case CmpInst::ICMP_SGT: return mk(P.bin(Op::Slt, b, a)); case CmpInst::ICMP_SGE: return mk(P.bin(Op::Sle, b, a));
  }
  unsupported("icmp");
}

// ------------------------------------------------------------------ exceptions
// layout of the header in front of a thrown object (see rt/rt.cpp): [type][dtor][refs][adjusted]
static const int EXC_HDR = 32;
static uint64_t tiVT(const char* n) { auto* g = M->getNamedValue(n); if (!g) return 0; auto it = gaddr.find(g); return it == gaddr.end() ? 0 : it->second + 16; }
static bool baseMatch(State& s, uint64_t want, uint64_t have, uint64_t obj, uint64_t& adj) {
  if (want == have) { adj = obj; return true; }
  Obj* o = s.mem.find(have); if (!o || o->size < 16) return false;
  static uint64_t vSI = tiVT("_ZTVN10__cxxabiv120__si_class_type_infoE"), vVMI = tiVT("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  uint64_t vt = load64(s, have);
  if (vt && vt == vSI) return baseMatch(s, want, load64(s, have + 16), obj, adj);
  if (vt && vt == vVMI) {
    uint32_t n = load64(s, have + 16) >> 32;
    for (uint32_t i = 0; i < n; i++) {
      uint64_t b = load64(s, have + 24 + 16 * i), fl = load64(s, have + 32 + 16 * i);
      if (!(fl & 2)) continue;
      int64_t off = (int64_t)fl >> 8;
      if (fl & 1) { uint64_t vtab = load64(s, obj); off = (int64_t)load64(s, vtab + off); }
      if (baseMatch(s, want, b, obj + off, adj)) return true;
    }
  }
  return false;
}
static bool typeMatch(State& s, uint64_t want, uint64_t have, uint64_t obj, uint64_t& adj) {
  static uint64_t vP = tiVT("_ZTVN10__cxxabiv119__pointer_type_infoE");
  Obj* ho = s.mem.find(have);
  bool hp = vP && ho && ho->size >= 32 && load64(s, have) == vP;
  if (want == 0) { adj = hp ? load64(s, obj) : obj; return true; }
  if (hp) {
    adj = load64(s, obj);
    if (want == have) return true;
    Obj* wo = s.mem.find(want);
    if (wo && wo->size >= 32 && load64(s, want) == vP) { uint32_t wf = load64(s, want + 16), hf = load64(s, have + 16); return (hf & ~wf) == 0 && load64(s, want + 24) == load64(s, have + 24); }
    return false;
  }
  return baseMatch(s, want, have, obj, adj);
}
static std::unordered_map<uint64_t, int> typeIds;
static int typeId(uint64_t ti) { if (!ti) return 1; auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 2; typeIds[ti] = n; return n; }

// unwinds thread t with exception obj; the current frame's pc is at the throwing call / resume
static void unwind(State& s, uint64_t obj, bool fromResume) {
  Thread& t = s.th[s.cur];
  uint64_t ti = load64(s, obj - EXC_HDR);
  // phase 1: search
  int target = -1, sel = 0; uint64_t adj = 0;
  for (int i = (int)t.fr.size() - 1; i >= 0; i--) {
    Frame& f = t.fr[i]; DInst& d = f.f->code[f.pc];
    if (d.k == K_CALL && d.isInvoke) {
      auto* LP = cast<InvokeInst>(d.I)->getLandingPadInst();
      for (unsigned c = 0; c < LP->getNumClauses() && target < 0; c++) {
        if (LP->isCatch(c)) {
          vector<Val> v; evalConst(LP->getClause(c), v); uint64_t a;
          if (typeMatch(s, v[0].v, ti, obj, a)) { target = i; sel = typeId(v[0].v); adj = a; }
        } else unsupported("filter clause");
      }
      if (target >= 0) break;
    } else if (f.f->nounwind && !(i == (int)t.fr.size() - 1 && fromResume)) { violate("terminate", "exception leaves a non-throwing function: " + demangle(f.f->name)); }
  }
  if (target < 0) {
    Obj* o = s.mem.find(ti); string tn = "?";
    try { if (o) tn = demangle("_ZTS" + cstr(s, load64(s, ti + 8))); } catch (EndPath&) {}
    violate("terminate", "uncaught exception of type " + tn);
  }
  // phase 2: run the innermost cleanup or the handler
  for (;;) {
    Frame& f = t.fr.back(); DInst& d = f.f->code[f.pc];
    if (d.k == K_CALL && d.isInvoke) {
      bool here = (int)t.fr.size() - 1 == target;
      t.lpObj = obj; t.lpSel = here ? sel : 0;
      if (here) { Obj* o = access(s, obj - EXC_HDR, 32, true); writeBytes(o, obj - EXC_HDR - o->base + 24, C(adj), 64, 8); }
      takeEdge(s, t, f, d.edges[1]);
      return;
    }
    popFrame(s, t);
  }
}

// ------------------------------------------------------------------ builtins
typedef std::function<bool(State&, DInst&, vector<Val>&, Val&)> Builtin; // returns false: instruction not completed (frame changed / re-execute)
static vector<std::pair<string, Builtin>> builtins;
static std::unordered_map<string, int> builtinMap;
static int builtinId(StringRef n) { auto it = builtinMap.find(n.str()); return it == builtinMap.end() ? -1 : it->second; }
static void def(std::initializer_list<const char*> names, Builtin b) { for (auto* n : names) { builtinMap[n] = builtins.size(); builtins.push_back({n, b}); } }

static uint64_t heapAlloc(State& s, uint64_t n, uint8_t kind, int fill = 0xBE) {
  if (n > (1u << GRAN) - 4096) violate("huge-allocation", std::to_string(n) + " bytes");
  Obj* o = s.mem.alloc(n, OHeap, s.heapDown, fill); o->allocKind = kind; s.heapLive++;
  Thread& t = s.th[s.cur]; o->site = t.fr.back().f->code[t.fr.back().pc].I;
  return o->base;
}
static void heapFree(State& s, uint64_t a, uint8_t kind, const Instruction* I) {
  if (!a) return;
  Obj* o = s.mem.find(a);
  if (!o || o->kind != OHeap) violate("bad-free", describeAddr(s, a));
  if (!o->alive) violate("double-free", describeAddr(s, a));
  if (a != o->base) violate("bad-free", "not the start of a block: " + describeAddr(s, a));
  if (o->allocKind != kind) violate("alloc-dealloc-mismatch", describeAddr(s, a));
  if (s.mt) raceCheck(s, a, o->size, true, I);
  o = s.mem.writable(o); o->alive = false; free(o->b); o->b = nullptr; free(o->s); o->s = nullptr; s.heapLive--;
}
static void memcpyImpl(State& s, uint64_t d, uint64_t sr, uint64_t n, const Instruction* I) {
  if (!n || d == sr) return;
  Obj* so = access(s, sr, n, false);
  Obj* od = access(s, d, n, true);
  so = s.mem.find(sr);
  if (s.mt) { if (so->kind != OStack) raceCheck(s, sr, n, false, I); if (od->kind != OStack) raceCheck(s, d, n, true, I); }
  uint32_t a = sr - so->base, b = d - od->base;
  if (so->s && !od->s) { bool any = false; for (uint64_t i = 0; i < n; i++) if (so->s[a + i]) { any = true; break; } if (any) od->s = (Expr**)calloc(od->size, sizeof(Expr*)); }
  memmove(od->b + b, so->b + a, n);
  if (od->s) { if (so->s) memmove(od->s + b, so->s + a, n * sizeof(Expr*)); else memset(od->s + b, 0, n * sizeof(Expr*)); }
}
static bool runnable(State& s, int i) {
  Thread& t = s.th[i];
  if (t.st == T_DONE) return false;
  if (t.waitMutex) { auto it = s.mtx.find(t.waitMutex); return it == s.mtx.end() || (it->second.owner < 0 && (t.waitShared || it->second.readers == 0)); }
  if (t.waitJoin >= 0) return s.th[t.waitJoin].st == T_DONE;
  return true;
}
// Scheduling point: explores every choice of the next thread. Called before the visible operation of the
// current thread; the operation is executed when the thread is resumed (yielded flag).
static bool schedPoint(State& s) {
  if (s.th.size() < 2) return true;
  Thread& t = s.th[s.cur];
  if (t.yielded) { t.yielded = false; return true; }
  t.yielded = true;
  vector<int> en; for (size_t i = 0; i < s.th.size(); i++) if (runnable(s, i)) en.push_back(i);
  if (en.empty()) violate("deadlock", "no thread can run");
  nSched++;
  for (size_t k = 1; k < en.size(); k++) { State* o = fork(s); o->cur = en[k]; o->sched.push_back(en[k]); work.push_back(o); }
  s.cur = en[0]; s.sched.push_back(en[0]);
  return false;
}
static void blockAndSwitch(State& s) { // current thread cannot continue; choose another
  vector<int> en; for (size_t i = 0; i < s.th.size(); i++) if (runnable(s, i)) en.push_back(i);
  if (en.empty()) violate("deadlock", "all threads are blocked");
  for (size_t k = 1; k < en.size(); k++) { State* o = fork(s); o->cur = en[k]; o->sched.push_back(en[k]); work.push_back(o); }
  s.cur = en[0]; s.sched.push_back(en[0]);
}

static vector<std::tuple<string, unsigned, uint64_t>> fixedIn; 
static void initBuiltins() {
  auto curI = [](State& s) { Thread& t = s.th[s.cur]; return t.fr.back().f->code[t.fr.back().pc].I; };
  def({"__sym_make"}, [](State& s, DInst&, vector<Val>& a, Val& r) {
    string n = cstr(s, concretize(s, a[0], 64)); unsigned w = a[1].v; int k = s.symCount[n + "/" + std::to_string(w)]++;
    static std::unordered_map<string, unsigned> ids;
    string key = n + "#" + std::to_string(k);
    auto it = ids.find(key + "/" + std::to_string(w)); unsigned id;
    if (it != ids.end()) id = it->second; else { id = P.newSym(key, w); ids[key + "/" + std::to_string(w)] = id; }
    if (s.model.size() <= id) s.model.resize(id + 1, 0);
    s.inputs.push_back({id});
    if (opt.fixedInputs) { size_t i = s.inputs.size() - 1; uint64_t v = i < fixedIn.size() ? std::get<2>(fixedIn[i]) : 0; s.model[id] = v; r = C(v & m64(w)); return true; }
    r = mk(P.zext(P.sym(id), 64));
    return true; });
  def({"__sym_assume"}, [](State& s, DInst&, vector<Val>& a, Val&) { assumeC(s, ex(a[0], 1)); return true; });
  def({"__sym_check"}, [](State& s, DInst& d, vector<Val>& a, Val&) {
    a[1] = C(concretize(s, a[1], 64));
    nChecks++;
    Expr* c = ex(a[0], 1);
    if (c->op == Op::Const) { nChecksConcrete++; if (!c->val) violate("check", cstr(s, concretize(s, a[1], 64))); return true; }
    nChecksSym++;
    vector<uint64_t> m2; Res r = feasible(s, P.notb(c), &m2);
    if (r == Res::Unknown) { nUnknown++; s.incomplete = true; return true; }
    if (r == Res::Sat) { recordViolation(s, "check", cstr(s, concretize(s, a[1], 64)), m2); assumeC(s, c); }
    else {} // holds on this path for every value
    return true; });
  def({"__sym_observe"}, [](State& s, DInst&, vector<Val>& a, Val&) { static std::set<string> names; auto it = names.insert(cstr(s, concretize(s, a[0], 64))).first; s.obs.push_back({it->c_str(), a[1], 64}); return true; });
  def({"__sym_concretize"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(concretize(s, a[0], 64)); return true; });
  def({"__sym_reach"}, [](State& s, DInst&, vector<Val>& a, Val&) { s.reached.insert(cstr(s, concretize(s, a[0], 64))); return true; });
  def({"__sym_heap_live"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(s.heapLive); return true; });
  def({"__sym_heap_dir"}, [](State& s, DInst&, vector<Val>& a, Val& r) { s.heapDown = concretize(s, a[0], 32) != 0; return true; });
  def({"__sym_done"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { throw EndPath{EndPath::Ok, "", ""}; });
  def({"__sym_stop"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { throw EndPath{EndPath::Assume, "", ""}; });
  def({"__sym_fail"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("check", cstr(s, concretize(s, a[0], 64))); });
  def({"__sym_terminate"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("terminate", cstr(s, concretize(s, a[0], 64))); });
  def({"__sym_throw"}, [](State& s, DInst&, vector<Val>& a, Val& r) { unwind(s, a[0].v, false); return false; });
  def({"__assert_fail"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("assert", cstr(s, concretize(s, a[0], 64)) + " (" + cstr(s, concretize(s, a[1], 64)) + ":" + std::to_string(a[2].v) + ")"); });
  def({"_ZSt21__glibcxx_assert_failPKciS0_S0_"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("assert", "libstdc++ assertion: " + cstr(s, concretize(s, a[3], 64)) + " in " + cstr(s, concretize(s, a[2], 64))); });
  def({"abort", "_exit", "exit", "_ZSt4exiti"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("abort", "abort/exit called"); });
  def({"__stack_chk_fail"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("abort", "stack smashing"); });
  def({"__cxa_pure_virtual"}, [](State& s, DInst&, vector<Val>& a, Val& r) -> bool { violate("pure-virtual", "pure virtual function called"); });
  def({"malloc"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(heapAlloc(s, concretize(s, a[0], 64), 1)); return true; });
  def({"calloc"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(heapAlloc(s, concretize(s, a[0], 64) * concretize(s, a[1], 64), 1, 0)); return true; });
  def({"realloc"}, [curI](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); uint64_t q = heapAlloc(s, n, 1); if (p) { Obj* o = access(s, p, 0, false); memcpyImpl(s, q, p, std::min<uint64_t>(n, o->size), curI(s)); heapFree(s, p, 1, curI(s)); } r = C(q); return true; });
  def({"free"}, [curI](State& s, DInst&, vector<Val>& a, Val& r) { heapFree(s, concretize(s, a[0], 64), 1, curI(s)); return true; });
  def({"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(heapAlloc(s, concretize(s, a[0], 64), 2)); return true; });
  def({"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(heapAlloc(s, concretize(s, a[0], 64), 3)); return true; });
  def({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, [curI](State& s, DInst& d, vector<Val>& a, Val& r) { uint64_t p = concretize(s, a[0], 64);
    if (p && a.size() >= 2 && d.callee && (d.callee->getName() == "_ZdlPvm" || d.callee->getName() == "_ZdlPvmSt11align_val_t")) { Obj* o = s.mem.find(p); if (o && o->alive && o->kind == OHeap && o->base == p && o->size != concretize(s, a[1], 64)) violate("alloc-dealloc-mismatch", "sized delete with wrong size " + describeAddr(s, p)); }
    heapFree(s, p, 2, curI(s)); return true; });
  def({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}, [curI](State& s, DInst&, vector<Val>& a, Val& r) { heapFree(s, concretize(s, a[0], 64), 3, curI(s)); return true; });
  def({"memcpy", "memmove"}, [curI](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t d = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64); memcpyImpl(s, d, q, n, curI(s)); r = C(d); return true; });
  def({"memset"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t d = concretize(s, a[0], 64), n = concretize(s, a[2], 64); if (n) { Obj* o = access(s, d, n, true); Val b = a[1].e ? mk(P.extract(a[1].e, 0, 8)) : C(a[1].v & 255); for (uint64_t i = 0; i < n; i++) writeBytes(o, d - o->base + i, b, 8, 1); } r = C(d); return true; });
  def({"memcmp", "bcmp", "__builtin_memcmp"}, [](State& s, DInst&, vector<Val>& a, Val& r) {
    uint64_t p = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64);
    if (!n) { r = C(0); return true; }
    Obj* x = access(s, p, n, false); Obj* y = access(s, q, n, false);
    Expr* e = P.cst(32, 0); 
    for (uint64_t i = n; i-- > 0;) { Expr* u = ex(readBytes(x, p - x->base + i, 8, 1), 8); Expr* v = ex(readBytes(y, q - y->base + i, 8, 1), 8);
      e = P.ite(P.bin(Op::Eq, u, v), e, P.bin(Op::Sub, P.zext(u, 32), P.zext(v, 32))); }
    r = mk(e); return true; });
  def({"strlen"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t p = concretize(s, a[0], 64), n = 0; for (;; n++) { Obj* o = access(s, p + n, 1, false); Val b = readBytes(o, p + n - o->base, 8, 1); if (b.e ? decide(s, P.bin(Op::Eq, b.e, P.cst(8, 0))) : b.v == 0) break; } r = C(n); return true; });
  def({"__cxa_atexit", "__cxa_thread_atexit", "atexit"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(0); return true; });
  // mutexes; glibc keeps the kind of a pthread_mutex_t at offset 16, 1 is recursive
  static auto recursive = [](State& s, uint64_t m) { Obj* o = access(s, m, 40, true); return (concretize(s, readBytes(o, m + 16 - o->base, 32, 4), 32) & 3) == 1; };
  static auto mlock = [](State& s, uint64_t m, bool rec, bool shared, Val& r) {
    if (s.th.size() > 1 && !schedPoint(s)) return false;
    Mutex& x = s.mtx[m];
    if (x.owner == s.cur && rec) { x.count++; r = C(0); return true; }
    if (x.owner == s.cur) violate("deadlock", "mutex locked again by its owner");
    if (!shared && x.readers > 0 && s.th.size() < 2) violate("deadlock", "exclusive lock while a shared lock is held");
    if (x.owner >= 0 || (!shared && x.readers > 0)) { s.th[s.cur].waitMutex = m; s.th[s.cur].waitShared = shared; s.th[s.cur].yielded = true; blockAndSwitch(s); return false; }
    s.th[s.cur].waitMutex = 0;
    if (shared) x.readers++; else { x.owner = s.cur; x.count = 1; }
    s.th[s.cur].vc.join(x.vc); r = C(0); return true; };
  static auto mtry = [](State& s, uint64_t m, bool rec, bool shared, Val& r) {
    if (s.th.size() > 1 && !schedPoint(s)) return false;
    Mutex& x = s.mtx[m];
    if (x.owner == s.cur && rec) { x.count++; r = C(0); return true; }
    if (x.owner >= 0 || (!shared && x.readers > 0)) { r = C(16); return true; }
    if (shared) x.readers++; else { x.owner = s.cur; x.count = 1; }
    s.th[s.cur].vc.join(x.vc); r = C(0); return true; };
  static auto munlock = [](State& s, uint64_t m, Val& r) {
    Mutex& x = s.mtx[m]; Thread& t = s.th[s.cur]; r = C(0);
    if (x.owner == s.cur) { if (--x.count > 0) return true; x.owner = -1; x.vc = t.vc; }
    else if (x.readers > 0 && x.owner < 0) { x.readers--; x.vc.join(t.vc); }
    else violate("unlock-unowned", "mutex unlocked by a thread that does not own it");
    t.vc.set(s.cur, t.vc.get(s.cur) + 1); return true; };
  def({"pthread_mutex_lock", "pthread_mutex_clocklock", "pthread_mutex_timedlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); return mlock(s, m, recursive(s, m), false, r); });
  def({"pthread_mutex_trylock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); return mtry(s, m, recursive(s, m), false, r); });
  def({"pthread_mutex_unlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); access(s, m, 40, true); return munlock(s, m, r); });
  def({"pthread_rwlock_wrlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); access(s, m, 56, true); return mlock(s, m, false, false, r); });
  def({"pthread_rwlock_rdlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); access(s, m, 56, true); return mlock(s, m, false, true, r); });
  def({"pthread_rwlock_trywrlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); access(s, m, 56, true); return mtry(s, m, false, false, r); });
  def({"pthread_rwlock_tryrdlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); access(s, m, 56, true); return mtry(s, m, false, true, r); });
  def({"pthread_rwlock_unlock"}, [](State& s, DInst&, vector<Val>& a, Val& r) { uint64_t m = concretize(s, a[0], 64); access(s, m, 56, true); return munlock(s, m, r); });
  // shortest text of a concrete floating point number: length of what was written to the buffer (room for 400 characters), flags: 0 shortest, else std::chars_format + 256 * (precision + 1)
  def({"__sym_dtoa"}, [](State& s, DInst&, vector<Val>& a, Val& r) {
    uint64_t p = concretize(s, a[0], 64); if (a[1].e) unsupported("symbolic float");
    unsigned w = concretize(s, a[2], 32), fl = concretize(s, a[3], 32); char b[800]; double d = asF(a[1].v, 64);
    auto fmt = (std::chars_format)(fl & 255); int prec = (int)(fl >> 8) - 1; std::to_chars_result q;
    if (w == 32) { float x = d; q = !fl ? std::to_chars(b, b + 800, x) : prec < 0 ? std::to_chars(b, b + 800, x, fmt) : std::to_chars(b, b + 800, x, fmt, prec); }
    else q = !fl ? std::to_chars(b, b + 800, d) : prec < 0 ? std::to_chars(b, b + 800, d, fmt) : std::to_chars(b, b + 800, d, fmt, prec);
    uint64_t n = q.ptr - b; if (n > 400) unsupported("long floating point text");
    Obj* o = access(s, p, 400, true); for (uint64_t i = 0; i < n; i++) writeBytes(o, p - o->base + i, C((unsigned char)b[i]), 8, 1);
    r = C(n); return true; });
  // the printf family with concrete arguments
  static auto formatted = [](State& s, vector<Val>& a, size_t at) {
    string f = cstr(s, concretize(s, a[at++], 64)), out;
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { out += f[i]; continue; }
      size_t j = f.find_first_of("diouxXcspfFeEgGaA%n", i + 1); if (j == string::npos) unsupported("printf format " + f);
      string spec = f.substr(i, j - i + 1); char k = f[j]; i = j;
      if (k == '%') { out += '%'; continue; }
      if (k == 'n' || spec.find('L') != string::npos) unsupported("printf format " + f);
      char buf[1000]; int star[2], ns = 0; for (char c : spec) if (c == '*') { if (at >= a.size()) unsupported("printf arguments"); star[ns++ & 1] = (int)concretize(s, a[at++], 32); }
      if (at >= a.size()) unsupported("printf arguments");
      auto put = [&](auto v) { if (ns == 0) snprintf(buf, sizeof buf, spec.c_str(), v); else if (ns == 1) snprintf(buf, sizeof buf, spec.c_str(), star[0], v); else snprintf(buf, sizeof buf, spec.c_str(), star[0], star[1], v); out += buf; };
      bool wide = spec.find_first_of("lzjt") != string::npos;
      if (k == 's') { string x; uint64_t p = concretize(s, a[at++], 64); size_t dot = spec.find(".*"); if (dot != string::npos) { Obj* o; int n = star[(ns - 1) & 1]; for (int q = 0; q < n; q++) { o = access(s, p + q, 1, false); char c = concretize(s, readBytes(o, p + q - o->base, 8, 1), 8); if (!c) break; x += c; } } else x = cstr(s, p); put(x.c_str()); }
      else if (strchr("fFeEgGaA", k)) { if (a[at].e) unsupported("symbolic float"); put(asF(a[at++].v, 64)); }
      else if (k == 'p') put((void*)concretize(s, a[at++], 64));
      else if (wide) put((long)concretize(s, a[at++], 64));
      else put((int)concretize(s, a[at++], 32));
    }
    return out; };
  static auto store = [](State& s, uint64_t p, uint64_t n, const string& t) { if (n) for (uint64_t i = 0; i <= std::min<uint64_t>(n - 1, t.size()); i++) { Obj* o = access(s, p + i, 1, true); writeBytes(o, p + i - o->base, C(i < std::min<uint64_t>(n - 1, t.size()) ? (unsigned char)t[i] : 0), 8, 1); } };
  def({"snprintf"}, [](State& s, DInst&, vector<Val>& a, Val& r) { string t = formatted(s, a, 2); store(s, concretize(s, a[0], 64), concretize(s, a[1], 64), t); r = C(t.size()); return true; });
  def({"sprintf"}, [](State& s, DInst&, vector<Val>& a, Val& r) { string t = formatted(s, a, 1); store(s, concretize(s, a[0], 64), t.size() + 1, t); r = C(t.size()); return true; });
  // nothing of the terminal is observable
  def({"printf", "fprintf", "puts", "fputs", "fputc", "putchar", "putc", "fflush", "vprintf", "vfprintf", "perror"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(0); return true; });
  def({"fwrite"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = a[2]; return true; });
  def({"__sym_thread"}, [](State& s, DInst&, vector<Val>& a, Val& r) {
    Function* F = nullptr; uint64_t fa = a[0].v; if ((fa >> GRAN) < funcAt.size()) F = funcAt[fa >> GRAN];
    if (!F) unsupported("thread entry");
    s.mt = true;
    int id = s.th.size(); s.th.emplace_back();
    Thread& t = s.th.back(); Thread& me = s.th[s.cur];
    t.vc = me.vc; t.vc.set(id, 1); me.vc.set(s.cur, me.vc.get(s.cur) + 1);
    pushFrame(s, t, decode(F), {a[1]});
    t.yielded = true;
    r = C(id); return true; });
  def({"__sym_join"}, [](State& s, DInst&, vector<Val>& a, Val& r) {
    int id = a[0].v; Thread& t = s.th[s.cur];
    if (s.th[id].st != T_DONE) { t.waitJoin = id; t.yielded = true; blockAndSwitch(s); return false; }
    t.waitJoin = -1; t.yielded = false; t.vc.join(s.th[id].vc); r = C(0); return true; });
  def({"__sym_self"}, [](State& s, DInst&, vector<Val>& a, Val& r) { r = C(s.cur); return true; });
  def({"__sym_yield"}, [](State& s, DInst&, vector<Val>& a, Val& r) { return schedPoint(s); });
  def({"__sym_set_mt"}, [](State& s, DInst&, vector<Val>& a, Val& r) { s.mt = a[0].v != 0; if (!s.mt) s.shadow.clear(); return true; });
}

static Function* funcOf(uint64_t a) { uint64_t i = a >> GRAN; if ((a & ((1ull << GRAN) - 1)) || i >= funcAt.size()) return nullptr; return funcAt[i]; }

// completes a call-like instruction: stores result and advances
static inline void finishCall(State& s, Thread& t, Frame& f, DInst& d) { if (d.isInvoke) takeEdge(s, t, f, d.edges[0]); else f.pc++; }

static uint64_t frF(double x, unsigned w) { if (w == 32) { float y = x; uint32_t u; memcpy(&u, &y, 4); return u; } uint64_t u; memcpy(&u, &x, 8); return u; }

static bool doIntrinsic(State& s, Thread& t, Frame& f, DInst& d) {
  Val* out = d.dst >= 0 ? &t.regs[f.base + d.dst] : nullptr;
  auto A = [&](int i, int lane = 0) -> const Val& { return rd(t, f, d.ops[i + 1], lane); };
  unsigned w = d.w2;
  switch (d.intrin) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
    uint64_t a = A(1).v; Obj* o = s.mem.find(a); if (o && o->alive && o->kind == OStack && a == o->base) { o = s.mem.writable(o); memset(o->b, d.intrin == Intrinsic::lifetime_end ? 0xBD : 0xBE, o->size); free(o->s); o->s = nullptr; } return true; }
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    if (out) *out = C(0); return true;
  case Intrinsic::assume: return true; // facts given to the optimiser by the front end, e.g. alignment
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: *out = A(0); return true;
  case Intrinsic::is_constant: *out = C(0); return true;
  case Intrinsic::objectsize: *out = C(A(1).v ? 0 : m64(d.w)); return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: violate("trap", "trap executed");
  case Intrinsic::ubsantrap: {
    static std::map<int, const char*> names{{0, "add-overflow"}, {1, "builtin-unreachable"}, {2, "cfi"}, {3, "divrem-overflow"}, {8, "invalid-builtin"}, {10, "load-invalid-value"}, {11, "missing-return"}, {12, "mul-overflow"}, {13, "negate-overflow"}, {18, "nonnull-arg"}, {19, "nonnull-return"}, {21, "out-of-bounds index"}, {22, "pointer-overflow"}, {23, "shift-out-of-bounds"}, {24, "sub-overflow"}, {25, "type-mismatch"}};
    int k = A(0).v; violate("undefined-behaviour", names.count(k) ? names[k] : ("ubsan kind " + std::to_string(k))); }
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t dst = concretize(s, A(0), 64), src = concretize(s, A(1), 64), n = concretize(s, A(2), 64); memcpyImpl(s, dst, src, n, d.I); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t dst = concretize(s, A(0), 64), n = concretize(s, A(2), 64); if (!n) return true; Obj* o = access(s, dst, n, true); if (s.mt && o->kind != OStack) raceCheck(s, dst, n, true, d.I); for (uint64_t i = 0; i < n; i++) writeBytes(o, dst - o->base + i, A(1), 8, 1); return true; }
  case Intrinsic::load_relative: { uint64_t b = concretize(s, A(0), 64), o = concretize(s, A(1), 64); Obj* q = access(s, b + o, 4, false); out[0] = C(b + (uint64_t)(int64_t)(int32_t)concretize(s, readBytes(q, b + o - q->base, 32, 4), 32)); return true; }
  case Intrinsic::eh_typeid_for: { out[0] = C(typeId(A(0).v)); return true; }
  case Intrinsic::stacksave: *out = C(0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::threadlocal_address: {
    auto* G = dyn_cast<GlobalVariable>(cast<CallBase>(d.I)->getArgOperand(0)); if (!G) unsupported("tls");
    if (s.cur == 0) { *out = A(0); return true; }
    auto& e = s.tls[{s.cur, G}];
    if (!e) { Obj* src = s.mem.find(A(0).v); Obj* o = s.mem.alloc(src->size, OGlobal, false, 0); e = o->base; }
    *out = C(e); return true; }
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
    for (unsigned l = 0; l < d.lanes; l++) { Val a = A(0, l), b = A(1, l); unsigned p = d.intrin == Intrinsic::smax ? CmpInst::ICMP_SGT : d.intrin == Intrinsic::smin ? CmpInst::ICMP_SLT : d.intrin == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
      Val c = evalICmp(p, d.w, a, b); out[l] = c.e ? mk(P.ite(c.e, ex(a, d.w), ex(b, d.w))) : (c.v ? a : b); }
    return true;
  case Intrinsic::abs: { Val a = A(0); Expr* e = ex(a, d.w); out[0] = mk(P.ite(P.bin(Op::Slt, e, P.cst(d.w, 0)), P.bin(Op::Sub, P.cst(d.w, 0), e), e)); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Val x = A(0), y = A(1);
    bool sg = d.intrin == Intrinsic::sadd_with_overflow || d.intrin == Intrinsic::ssub_with_overflow || d.intrin == Intrinsic::smul_with_overflow;
    Op op = d.intrin == Intrinsic::uadd_with_overflow || d.intrin == Intrinsic::sadd_with_overflow ? Op::Add : d.intrin == Intrinsic::usub_with_overflow || d.intrin == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul;
    if (!x.e && !y.e && w <= 64) {
      i128 a = sg ? (i128)sx64(x.v, w) : (i128)(u128)(x.v & m64(w)), b = sg ? (i128)sx64(y.v, w) : (i128)(u128)(y.v & m64(w));
      u128 r = op == Op::Add ? (u128)a + (u128)b : op == Op::Sub ? (u128)a - (u128)b : (u128)a * (u128)b;
      uint64_t lo = (uint64_t)r & m64(w); i128 back = sg ? (i128)sx64(lo, w) : (i128)(u128)lo;
      out[0] = C(lo); out[1] = C((i128)r != back); return true;
    }
    if (w == 128 && op != Op::Mul) {
      Expr *a = ex(x, w), *b = ex(y, w), *r = P.bin(op, a, b), *zero = P.cst(w, 0), *ov;
      if (!sg) ov = op == Op::Add ? P.bin(Op::Ult, r, a) : P.bin(Op::Ult, a, b);
      else {
        Expr *na = P.bin(Op::Slt, a, zero), *nb = P.bin(Op::Slt, b, zero), *nr = P.bin(Op::Slt, r, zero), *same = P.bin(Op::Eq, na, nb), *turned = P.notb(P.bin(Op::Eq, nr, na));
        ov = P.bin(Op::And, op == Op::Add ? same : P.notb(same), turned);
      }
      out[0] = mk(r); out[1] = mk(ov); return true;
    }
    unsigned w2 = op == Op::Mul ? 2 * w : w + 1; if (w2 > 128) unsupported("wide overflow op");
    auto xt = [&](const Val& v) { return sg ? P.sext(ex(v, w), w2) : P.zext(ex(v, w), w2); };
    Expr* r = P.bin(op, xt(x), xt(y)); Expr* lo = P.bin(op, ex(x, w), ex(y, w));
    out[0] = mk(lo); out[1] = mk(P.notb(P.bin(Op::Eq, r, sg ? P.sext(lo, w2) : P.zext(lo, w2)))); return true; }
  case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Expr* a = ex(A(0), d.w); Expr* b = ex(A(1), d.w);
    if (d.intrin == Intrinsic::usub_sat) out[0] = mk(P.ite(P.bin(Op::Ult, a, b), P.cst(d.w, 0), P.bin(Op::Sub, a, b)));
    else { Expr* r = P.bin(Op::Add, a, b); out[0] = mk(P.ite(P.bin(Op::Ult, r, a), P.cst(d.w, maskw(d.w)), r)); } return true; }
  case Intrinsic::bswap: { Expr* a = ex(A(0), d.w); Expr* r = nullptr; for (unsigned i = 0; i < d.w / 8; i++) { Expr* b = P.extract(a, i * 8, 8); r = r ? P.concat(r, b) : b; } out[0] = mk(r); return true; }
  case Intrinsic::ctpop: { Val a = A(0); if (!a.e) { out[0] = C(__builtin_popcountll(a.v & m64(d.w))); return true; } Expr* r = P.cst(d.w, 0); for (unsigned i = 0; i < d.w; i++) r = P.bin(Op::Add, r, P.zext(P.extract(a.e, i, 1), d.w)); out[0] = mk(r); return true; }
  case Intrinsic::ctlz: { Val a = A(0); if (!a.e) { uint64_t v = a.v & m64(d.w); out[0] = C(v ? __builtin_clzll(v) - (64 - d.w) : d.w); return true; } Expr* r = P.cst(d.w, d.w); for (unsigned i = 0; i < d.w; i++) r = P.ite(P.extract(a.e, i, 1), P.cst(d.w, d.w - 1 - i), r); out[0] = mk(r); return true; }
  case Intrinsic::cttz: { Val a = A(0); if (!a.e) { uint64_t v = a.v & m64(d.w); out[0] = C(v ? __builtin_ctzll(v) : d.w); return true; } Expr* r = P.cst(d.w, d.w); for (unsigned i = d.w; i-- > 0;) r = P.ite(P.extract(a.e, i, 1), P.cst(d.w, i), r); out[0] = mk(r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { Val sh = A(2); uint64_t k = concretize(s, sh, d.w) % d.w; Expr* cc = P.concat(ex(A(0), d.w), ex(A(1), d.w)); if (d.w > 64) unsupported("fsh wide"); out[0] = mk(d.intrin == Intrinsic::fshl ? P.extract(cc, d.w - k, d.w) : P.extract(cc, k, d.w)); return true; }
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
    Op op = d.intrin == Intrinsic::vector_reduce_or ? Op::Or : d.intrin == Intrinsic::vector_reduce_and ? Op::And : d.intrin == Intrinsic::vector_reduce_add ? Op::Add : Op::Xor;
    Val r = A(0, 0); for (unsigned l = 1; l < d.argLanes[0]; l++) r = evalBinV(s, op, d.w, r, A(0, l)); out[0] = r; return true; }
  case Intrinsic::fabs: { if (A(0).e) unsupported("symbolic float"); out[0] = C(frF(std::fabs(asF(A(0).v, d.w)), d.w)); return true; }
  case Intrinsic::ceil: { if (A(0).e) unsupported("symbolic float"); out[0] = C(frF(std::ceil(asF(A(0).v, d.w)), d.w)); return true; }
  case Intrinsic::floor: { if (A(0).e) unsupported("symbolic float"); out[0] = C(frF(std::floor(asF(A(0).v, d.w)), d.w)); return true; }
  case Intrinsic::fmuladd: { if (A(0).e || A(1).e || A(2).e) unsupported("symbolic float"); out[0] = C(frF(asF(A(0).v, d.w) * asF(A(1).v, d.w) + asF(A(2).v, d.w), d.w)); return true; }
  default: unsupported("intrinsic " + Intrinsic::getBaseName(d.intrin).str());
  }
}

static Val selV(const Val& c, const Val& a, const Val& b, unsigned w) { if (!c.e) return c.v ? a : b; return mk(P.ite(c.e, ex(a, w), ex(b, w))); }

// executes one instruction of the current thread
static void step(State& s) {
  Thread& t = s.th[s.cur]; Frame& f = t.fr.back();
  DInst& d = f.f->code[f.pc];
  d.hit = true;
  Val* R = t.regs.data() + f.base;
  switch (d.k) {
  case K_BIN:
    for (unsigned l = 0; l < d.lanes; l++) { Val r = evalBinV(s, (Op)d.sub, d.w, rd(t, f, d.ops[0], l), rd(t, f, d.ops[1], l)); R[d.dst + l] = r; }
    f.pc++; return;
  case K_ICMP: for (unsigned l = 0; l < d.lanes; l++) R[d.dst + l] = evalICmp(d.sub, d.w2, rd(t, f, d.ops[0], l), rd(t, f, d.ops[1], l)); f.pc++; return;
  case K_SELECT: {
    for (unsigned l = 0; l < d.lanes; l++) { Val c = rd(t, f, d.ops[0], d.w2 > 1 ? l : 0); Val a = rd(t, f, d.ops[1], l), b = rd(t, f, d.ops[2], l); R[d.dst + l] = selV(c, a, b, l < d.leafs.size() ? d.leafs[l].w : d.w); }
    f.pc++; return; }
  case K_LOAD: {
    if (d.leafs.size() != d.lanes) unsupported("bit vector load");
    if (d.volat && s.mt) atomicSync(s, concretize(s, rd(t, f, d.ops[0]), 64));
    bool mt = s.mt; if (d.volat) s.mt = false;
    if (d.lanes == 1) { Val v; memLoad(s, rd(t, f, d.ops[0]), d.leafs, &v, d.I); R[d.dst] = v; }
    else { vector<Val> v(d.lanes); memLoad(s, rd(t, f, d.ops[0]), d.leafs, v.data(), d.I); for (unsigned l = 0; l < d.lanes; l++) R[d.dst + l] = v[l]; }
    s.mt = mt; f.pc++; return; }
  case K_STORE: {
    if (d.volat && s.mt) atomicSync(s, concretize(s, rd(t, f, d.ops[1]), 64));
    bool mt = s.mt; if (d.volat) s.mt = false;
    memStore(s, rd(t, f, d.ops[1]), d.leafs, &rd(t, f, d.ops[0]), d.I); s.mt = mt; f.pc++; return; }
  case K_GEP: {
    Val p = rd(t, f, d.ops[0]);
    if (!p.e) p.v += d.coff; else p = mk(P.bin(Op::Add, p.e, P.cst(64, d.coff)));
    for (size_t i = 1; i < d.ops.size(); i++) {
      const Val& x = rd(t, f, d.ops[i]); uint64_t sz = d.scale[2 * (i - 1)]; unsigned w = d.scale[2 * (i - 1) + 1];
      if (!x.e && !p.e) p.v += (uint64_t)sx64(x.v, w) * sz;
      else { Expr* e = w < 64 ? P.sext(ex(x, w), 64) : ex(x, 64); p = mk(P.bin(Op::Add, ex(p, 64), P.bin(Op::Mul, e, P.cst(64, sz)))); }
    }
    R[d.dst] = p; f.pc++; return; }
  case K_ZEXT: for (unsigned l = 0; l < d.lanes; l++) { Val x = rd(t, f, d.ops[0], l); R[d.dst + l] = x.e ? mk(P.zext(x.e, d.w)) : d.w > 64 ? Val{0, P.cst(d.w, x.v & m64(d.w2))} : C(x.v & m64(d.w2)); } f.pc++; return;
  case K_SEXT: for (unsigned l = 0; l < d.lanes; l++) { Val x = rd(t, f, d.ops[0], l); R[d.dst + l] = x.e ? mk(P.sext(x.e, d.w)) : d.w > 64 ? Val{0, P.cst(d.w, (u128)(i128)sx64(x.v, d.w2))} : C((uint64_t)sx64(x.v, d.w2) & m64(d.w)); } f.pc++; return;
  case K_TRUNC: for (unsigned l = 0; l < d.lanes; l++) { Val x = rd(t, f, d.ops[0], l); R[d.dst + l] = x.e ? mk(P.extract(x.e, 0, d.w)) : C(x.v & m64(d.w)); } f.pc++; return;
  case K_COPY: for (unsigned l = 0; l < d.lanes; l++) { Val x = rd(t, f, d.ops[0], l); R[d.dst + l] = x; } f.pc++; return;
  case K_BITCAST: { // reinterpret lanes
    Expr* e = nullptr; int n = d.mask[0]; if ((unsigned)n * d.w2 > 128) unsupported("wide bitcast");
    for (int l = 0; l < n; l++) { Expr* x = ex(rd(t, f, d.ops[0], l), d.w2); e = e ? P.concat(x, e) : x; }
    for (unsigned l = 0; l < d.lanes; l++) R[d.dst + l] = mk(P.extract(e, l * d.w, d.w)); f.pc++; return; }
  case K_ALLOCA: { uint64_t n = concretize(s, rd(t, f, d.ops[0]), 64) * d.coff; Obj* o = s.mem.alloc(n, OStack, false, 0xBE); o->site = d.I; f.allocas.push_back(o->base); R[d.dst] = C(o->base); f.pc++; return; }
  case K_BR: takeEdge(s, t, f, d.edges[0]); return;
  case K_CONDBR: { const Val& c = rd(t, f, d.ops[0]); bool b = c.e ? decide(s, c.e) : (c.v & 1); takeEdge(s, t, f, d.edges[b ? 0 : 1]); return; }
  case K_SWITCH: {
    Val c = rd(t, f, d.ops[0]); int e = 0;
    if (!c.e) { for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c.v) { e = d.caseEdge[i]; break; } }
    else for (size_t i = 0; i < d.cases.size(); i++) if (decide(s, P.bin(Op::Eq, c.e, P.cst(d.w2, d.cases[i])))) { e = d.caseEdge[i]; break; }
    takeEdge(s, t, f, d.edges[e]); return; }
  case K_RET: {
    Val v[8]; vector<Val> big; Val* r = v; if (d.lanes > 8) { big.resize(d.lanes); r = big.data(); }
    for (unsigned l = 0; l < d.lanes; l++) r[l] = rd(t, f, d.ops[0], l);
    popFrame(s, t);
    if (t.fr.empty()) return;
    Frame& c = t.fr.back(); DInst& ci = c.f->code[c.pc];
    if (ci.dst >= 0) for (unsigned l = 0; l < d.lanes && l < ci.lanes; l++) t.regs[c.base + ci.dst + l] = r[l];
    finishCall(s, t, c, ci); return; }
  case K_CALL: {
    if (d.intrin == -1) { // inline asm: only empty barriers
      f.pc++; return; }
    if (d.intrin) { if (doIntrinsic(s, t, f, d)) finishCall(s, s.th[s.cur], s.th[s.cur].fr.back(), d); return; }
    Function* F = d.callee; int b = d.builtin;
    if (!F) {
      uint64_t a = concretize(s, rd(t, f, d.ops[0]), 64);
      F = funcOf(a);
      if (!F) violate("bad-call", "call through invalid function pointer: " + describeAddr(s, a));
      b = builtinId(F->getName());
    }
    static thread_local vector<Val> args; args.clear();
    for (size_t i = 1; i < d.ops.size(); i++) {
      if (d.byval[i - 1]) { uint64_t src = concretize(s, rd(t, f, d.ops[i]), 64); Obj* o = s.mem.alloc(d.byval[i - 1], OStack, false, 0xBE); uint64_t base = o->base; memcpyImpl(s, base, src, d.byval[i - 1], d.I); f.allocas.push_back(base); args.push_back(C(base)); continue; }
      for (unsigned l = 0; l < d.argLanes[i - 1]; l++) args.push_back(rd(t, f, d.ops[i], l));
    }
    if (b >= 0) {
      Val r; int me = s.cur; vector<Val> a2 = args;
      if (!builtins[b].second(s, d, a2, r)) return;
      Thread& t2 = s.th[me]; Frame& f2 = t2.fr.back();
      if (d.dst >= 0) { if (!r.e) r.v &= m64(d.w); else if (r.e->w != d.w) r = mk(r.e->w > d.w ? P.extract(r.e, 0, d.w) : P.zext(r.e, d.w)); t2.regs[f2.base + d.dst] = r; }
      finishCall(s, t2, f2, d); return;
    }
    if (F->isDeclaration()) unsupported("external function " + F->getName().str() + " (" + demangle(F->getName().str()) + ")");
    pushFrame(s, t, decode(F), args); return; }
  case K_INSERTV: { for (unsigned l = 0; l < d.lanes; l++) { Val x = rd(t, f, d.ops[0], l); R[d.dst + l] = x; } for (unsigned l = 0; l < d.w2; l++) { Val x = rd(t, f, d.ops[1], l); R[d.dst + d.coff + l] = x; } f.pc++; return; }
  case K_UNREACH: violate("unreachable", "unreachable code executed");
  case K_LPAD: R[d.dst] = C(t.lpObj); R[d.dst + 1] = C((uint32_t)t.lpSel); f.pc++; return;
  case K_RESUME: { uint64_t o = concretize(s, rd(t, f, d.ops[0]), 64); popFrame(s, t); if (t.fr.empty()) violate("terminate", "uncaught exception"); 
    unwind(s, o, true); return; }
  case K_RMW: {
    uint64_t a = concretize(s, rd(t, f, d.ops[0]), 64); if (s.mt) atomicSync(s, a); bool mt = s.mt; s.mt = false;
    Val old; memLoad(s, C(a), d.leafs, &old, d.I); Val x = rd(t, f, d.ops[1]); Val n; unsigned w = d.w;
    switch (d.sub) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = evalBinV(s, Op::Add, w, old, x); break; case AtomicRMWInst::Sub: n = evalBinV(s, Op::Sub, w, old, x); break; case AtomicRMWInst::And: n = evalBinV(s, Op::And, w, old, x); break; case AtomicRMWInst::Or: n = evalBinV(s, Op::Or, w, old, x); break; case AtomicRMWInst::Xor: n = evalBinV(s, Op::Xor, w, old, x); break; default: unsupported("atomicrmw"); }
    memStore(s, C(a), d.leafs, &n, d.I); s.mt = mt; R[d.dst] = old; f.pc++; return; }
  case K_CMPXCHG: {
    uint64_t a = concretize(s, rd(t, f, d.ops[0]), 64); if (s.mt) atomicSync(s, a); bool mt = s.mt; s.mt = false;
    Val old; memLoad(s, C(a), d.leafs, &old, d.I); unsigned w = d.leafs[0].w; Val eq = evalICmp(CmpInst::ICMP_EQ, w, old, rd(t, f, d.ops[1])); bool b = eq.e ? decide(s, eq.e) : eq.v;
    if (b) memStore(s, C(a), d.leafs, &rd(t, f, d.ops[2]), d.I); s.mt = mt; R[d.dst] = old; R[d.dst + 1] = C(b); f.pc++; return; }
  case K_NOP: f.pc++; return;
  case K_FBIN: for (unsigned l = 0; l < d.lanes; l++) { Val x = rd(t, f, d.ops[0], l), y = rd(t, f, d.ops[1], l); if (x.e || y.e || d.w > 64) unsupported("symbolic float"); double a = asF(x.v, d.w), b = asF(y.v, d.w), r = 0; switch (d.coff) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = std::fmod(a, b); } R[d.dst + l] = C(frF(r, d.w)); } f.pc++; return;
  case K_FNEG: { Val x = rd(t, f, d.ops[0]); if (x.e || d.w > 64) unsupported("symbolic float"); R[d.dst] = C(frF(-asF(x.v, d.w), d.w)); f.pc++; return; }
  case K_FCMP: { Val x = rd(t, f, d.ops[0]), y = rd(t, f, d.ops[1]); if (x.e || y.e || d.w2 > 64) unsupported("symbolic float"); double a = asF(x.v, d.w2), b = asF(y.v, d.w2); bool un = std::isnan(a) || std::isnan(b); unsigned p = d.sub; bool r = (un && (p & 8)) || (!un && (((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b))); R[d.dst] = C(r); f.pc++; return; }
  case K_FCAST: { Val x = rd(t, f, d.ops[0]); if (x.e || d.w > 64 || d.w2 > 64) unsupported("symbolic float"); uint64_t r = 0;
    switch (d.coff) { case Instruction::UIToFP: r = frF((double)(x.v & m64(d.w2)), d.w); if (d.w == 32) { float y = (float)(x.v & m64(d.w2)); uint32_t u; memcpy(&u, &y, 4); r = u; } break; case Instruction::SIToFP: r = frF((double)sx64(x.v, d.w2), d.w); break; case Instruction::FPToUI: r = (uint64_t)asF(x.v, d.w2) & m64(d.w); break; case Instruction::FPToSI: r = (uint64_t)(int64_t)asF(x.v, d.w2) & m64(d.w); break; default: r = frF(asF(x.v, d.w2), d.w); }
    R[d.dst] = C(r); f.pc++; return; }
  case K_XELT: { uint64_t i = concretize(s, rd(t, f, d.ops[1]), 64); R[d.dst] = rd(t, f, d.ops[0], i); f.pc++; return; }
  case K_IELT: { uint64_t i = concretize(s, rd(t, f, d.ops[2]), 64); Val x = rd(t, f, d.ops[1]); for (unsigned l = 0; l < d.lanes; l++) { Val v = rd(t, f, d.ops[0], l); R[d.dst + l] = l == i ? x : v; } f.pc++; return; }
  case K_SHUF: { vector<Val> v; for (int m : d.mask) v.push_back(m < 0 ? C(0) : m < d.w2 ? rd(t, f, d.ops[0], m) : rd(t, f, d.ops[1], m - d.w2)); for (size_t l = 0; l < v.size(); l++) R[d.dst + l] = v[l]; f.pc++; return; }
  default: { string o; raw_string_ostream os(o); d.I->print(os); unsupported("instruction " + o); }
  }
}

// ------------------------------------------------------------------ driver
static void finishPath(State& s, const EndPath& e) {
  switch (e.t) {
  case EndPath::Ok:
    nPaths++; sh->paths++;
    for (auto& r : s.reached) reachedAll[r]++;
    if ((int)samples.size() < opt.samples) samples.push_back("{\"inputs\":" + inputsOf(s, s.model) + ",\"obs\":" + obsOf(s, s.model) + ",\"insts\":" + std::to_string(s.totalInsts) + ",\"constraints\":" + std::to_string(s.pc.size()) + ",\"sched\":" + schedOf(s) + "}");
    if (s.incomplete) nUnknown += 0;
    break;
  case EndPath::Assume: nAssumeKilled++; break;
  case EndPath::Violation: nPaths++; sh->paths++; for (auto& r : s.reached) reachedAll[r]++; recordViolation(s, e.kind, e.msg, s.model); break;
  case EndPath::Unsupported: unsup[e.msg + "\n" + stackOf(s)]++; if (unsup.size() > 3) sh->stop = 1; break;
  case EndPath::Limit: nLimit++; nPaths++; recordViolation(s, "non-termination", e.msg, s.model); break;
  }
}

static void runPath(State* s) {
  cs = s;
  try {
    for (;;) {
      Thread* t = &s->th[s->cur];
      if (t->fr.empty()) {
        if (!t->boot.empty()) { Function* F = t->boot.front(); t->boot.erase(t->boot.begin()); vector<Val> none; pushFrame(*s, *t, decode(F), none); s->insts = 0; continue; }
        if (s->cur == 0) throw EndPath{EndPath::Ok, "", ""};
        t->st = T_DONE; t->vc.set(s->cur, t->vc.get(s->cur) + 1);
        blockAndSwitch(*s);
        continue;
      }
      int cur = s->cur;
      for (int n = 0; n < 4096; n++) {
        step(*s);
        s->insts++; s->totalInsts++; nInsts++;
        if (s->cur != cur || s->th[cur].fr.empty()) break;
      }
      if (s->insts > opt.maxInst) throw EndPath{EndPath::Limit, "non-termination", "path exceeds " + std::to_string(opt.maxInst) + " instructions"};
    }
  } catch (EndPath& e) { finishPath(*s, e); }
  delete s;
  cs = nullptr;
}

static string partName(pid_t p) { return opt.out + ".part." + std::to_string(p); }
static vector<pid_t> kids;
static bool isChild = false;
static double lastSplit = 0;

static void maybeSplit() {
  if (work.size() < 2 || sh->active.load() >= opt.workers) return;
  double n = now(); if (n - lastSplit < 0.01) return;
  int a = sh->active.load();
  if (a >= opt.workers || !sh->active.compare_exchange_strong(a, a + 1)) return;
  fflush(stdout);
  pid_t p = ::fork();
  if (p < 0) { sh->active--; return; }
  // even / odd distribution of the pending states
  vector<State*> mine; size_t i = 0;
  for (auto* w : work) { bool k = ((i++ & 1) == 0) == (p == 0); if (k) mine.push_back(w); else delete w; }
  work.swap(mine);
  if (p == 0) {
    isChild = true; kids.clear(); viols.clear(); unsup.clear(); reachedAll.clear(); samples.clear();
    nPaths = nForks = nInsts = nAssumeKilled = nLimit = nUnknown = nChecks = nChecksSym = nChecksConcrete = nSched = 0; S->st = SolverStats{};
    for (auto& kv : dfuncs) for (auto& d : kv.second->code) d.hit = false;
  } else kids.push_back(p);
  lastSplit = now();
}

static void writePart() {
  std::ofstream o(partName(getpid()));
  auto& st = S->st;
  o << "S " << nPaths << " " << nForks << " " << nInsts << " " << nAssumeKilled << " " << nLimit << " " << nUnknown << " " << nChecks << " " << nChecksSym << " " << st.queries << " " << st.sat << " " << st.unsat << " " << st.unknown << " " << st.cacheHits << " " << st.time << " " << st.maxTime << " " << nMaxPC << " " << nSched << " " << nChecksConcrete << "\n";
  for (auto& v : viols) o << "V {\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"inputs\":" << v.inputs << ",\"obs\":" << v.obs << ",\"sched\":" << v.sched << "}\n";
  for (auto& u : unsup) o << "U {\"msg\":\"" << jesc(u.first) << "\",\"count\":" << u.second << "}\n";
  for (auto& r : reachedAll) o << "R " << r.second << " " << r.first << "\n";
  for (auto& s : samples) o << "P " << s << "\n";
  std::set<string> fn;
  for (auto& kv : dfuncs) for (auto& d : kv.second->code) if (d.hit) {
    const DILocation* l = d.I->getDebugLoc();
    for (; l; l = l->getInlinedAt()) {
      string file = l->getFilename().str();
      if (file.find("mimic++/") == string::npos) continue;
      file = file.substr(file.find("mimic++/"));
      auto* sp = l->getScope()->getSubprogram();
      fn.insert(file + ":" + std::to_string(l->getLine()) + "\t" + (sp ? file + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str() : ""));
    }
  }
  for (auto& x : fn) o << "F " << x << "\n";
}

static void loop() {
  while (!work.empty()) {
    if (sh->stop.load()) break;
    if (now() > opt.maxTime) { sh->timeouts++; sh->stop = 1; break; }
    maybeSplit();
    State* s = work.back(); work.pop_back();
    runPath(s);
  }
}

static void initGlobals(State& s) {
  // addresses first, contents second
  funcAt.clear();
  for (auto& F : *M) { if (F.isIntrinsic()) continue; Obj* o = s.mem.alloc(1, OFunc, false, 0); gaddr[&F] = o->base; uint64_t i = o->base >> GRAN; if (funcAt.size() <= i) funcAt.resize(i + 1, nullptr); funcAt[i] = &F; }
  for (auto& G : M->globals()) { uint64_t sz = 64; if (G.getValueType()->isSized()) sz = DL->getTypeAllocSize(G.getValueType()); if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64); if (sz > (1u << GRAN)) { fprintf(stderr, "global too large: %s\n", G.getName().str().c_str()); exit(2); } Obj* o = s.mem.alloc(sz, OGlobal, false, 0); gaddr[&G] = o->base; }
  for (auto& G : M->globals()) {
    if (!G.hasInitializer()) continue;
    if (G.getName().starts_with("llvm.")) continue;
    Obj* o = s.mem.find(gaddr[&G]);
    try {
      vector<Leaf> l; leafsOf(G.getValueType(), 0, l); vector<Val> v; evalConst(G.getInitializer(), v);
      if (v.size() == l.size()) for (size_t i = 0; i < l.size(); i++) writeBytes(o, l[i].off, v[i], l[i].w, l[i].bytes);
      else { // initialiser type may differ in shape (zero init)
        fprintf(stderr, "warning: initialiser shape of %s\n", G.getName().str().c_str()); }
    } catch (EndPath& e) { fprintf(stderr, "warning: initialiser of %s: %s\n", G.getName().str().c_str(), e.msg.c_str()); }
    o->ro = G.isConstant();
  }
}

int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--max-inst") opt.maxInst = std::stoull(nx()); else if (a == "--max-time") opt.maxTime = std::stod(nx());
    else if (a == "--workers") opt.workers = std::stoi(nx()); else if (a == "--max-viol") opt.maxViol = std::stoull(nx()); else if (a == "--samples") opt.samples = std::stoi(nx()); else if (a == "--inputs") { opt.fixedInputs = true; opt.inputsFile = nx(); }
    else if (a == "--dump") opt.dump = nx(); else if (a == "--stats") opt.stats = true;
    else opt.bc = a;
  }
  if (opt.fixedInputs) { std::ifstream in(opt.inputsFile); string n; unsigned w; uint64_t v; while (in >> n >> w >> v) fixedIn.push_back({n, w, v}); }
  SMDiagnostic err; M = parseIRFile(opt.bc, err, Ctx);
  if (!M) { err.print("symex", errs()); return 2; }
  DL = &M->getDataLayout();
  S = std::make_unique<Solver>(P);
  if (!opt.dump.empty()) { S->dump = fopen(opt.dump.c_str(), "w"); S->dumpEvery = 1; }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->active = 1; sh->stop = 0; sh->viol = 0; sh->paths = 0; sh->timeouts = 0;
  initBuiltins();
  State* s0 = new State;
  initGlobals(*s0);
  s0->th.emplace_back(); s0->th[0].vc.set(0, 1);
  // static constructors, then the harness
  if (auto* G = M->getNamedGlobal("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) {
    vector<std::pair<uint64_t, Function*>> c;
    for (auto& o : CA->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) c.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(c.begin(), c.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& x : c) s0->th[0].boot.push_back(x.second);
  }
  Function* E = M->getFunction(opt.entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
  s0->th[0].boot.push_back(E);
  work.push_back(s0);
  loop();
  bool left = !work.empty();
  if (left) sh->timeouts++;
  writePart();
  sh->active--;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { std::ofstream o(partName(p)); o << "X child " << p << " died with status " << st << "\n"; } }
  // children hand the list of descendants upwards through their part file
  if (isChild) { std::ofstream o(partName(getpid()), std::ios::app); for (pid_t p : kids) o << "K " << p << "\n"; o.close(); _exit(0); }

  // merge
  uint64_t tot[18] = {}; double t_sum = 0, t_max = 0; vector<string> V, U, Sm; std::map<string, uint64_t> Rm; std::set<string> Ff; vector<string> X; int procs = 0;
  std::function<void(pid_t)> merge = [&](pid_t p) {
    procs++;
    std::ifstream in(partName(p)); string line; vector<pid_t> ks;
    if (!in) { X.push_back("missing part"); return; }
    while (std::getline(in, line)) {
      if (line.size() < 2) continue;
      string b = line.substr(2);
      if (line[0] == 'S') { std::istringstream is(b); uint64_t x[18]; double a, c; for (int i = 0; i < 13; i++) is >> x[i]; is >> a >> c >> x[13] >> x[14] >> x[15]; for (int i = 0; i < 13; i++) tot[i] += x[i]; tot[13] = std::max(tot[13], x[13]); tot[14] += x[14]; tot[15] += x[15]; t_sum += a; t_max = std::max(t_max, c); }
      else if (line[0] == 'V') V.push_back(b); else if (line[0] == 'U') U.push_back(b); else if (line[0] == 'P') Sm.push_back(b);
      else if (line[0] == 'R') { auto k = b.find(' '); Rm[b.substr(k + 1)] += std::stoull(b.substr(0, k)); }
      else if (line[0] == 'F') Ff.insert(b); else if (line[0] == 'X') X.push_back(b);
      else if (line[0] == 'K') ks.push_back(std::stoi(b));
    }
    in.close(); unlink(partName(p).c_str());
    for (pid_t k : ks) merge(k);
  };
  merge(getpid());
  { auto ks = kids; for (pid_t k : ks) merge(k); }
  std::ofstream o(opt.out);
  o << "{\"entry\":\"" << opt.entry << "\",\"paths\":" << tot[0] << ",\"forks\":" << tot[1] << ",\"instructions\":" << tot[2] << ",\"assume_pruned\":" << tot[3] << ",\"limit\":" << tot[4] << ",\"unknown\":" << tot[5]
    << ",\"checks\":" << tot[6] << ",\"checks_symbolic\":" << tot[7] << ",\"checks_concrete\":" << tot[15] << ",\"queries\":" << tot[8] << ",\"sat\":" << tot[9] << ",\"unsat\":" << tot[10] << ",\"solver_unknown\":" << tot[11] << ",\"cache_hits\":" << tot[12]
    << ",\"solver_time\":" << t_sum << ",\"max_query_time\":" << t_max << ",\"max_path_constraints\":" << tot[13] << ",\"sched_points\":" << tot[14] << ",\"processes\":" << procs << ",\"timeout\":" << sh->timeouts.load() << ",\"wall\":" << now() << ",\n\"violations\":[";
  for (size_t i = 0; i < V.size(); i++) o << (i ? ",\n" : "") << V[i];
  o << "],\n\"unsupported\":["; for (size_t i = 0; i < U.size(); i++) o << (i ? ",\n" : "") << U[i];
  o << "],\n\"crashed\":["; for (size_t i = 0; i < X.size(); i++) o << (i ? "," : "") << "\"" << jesc(X[i]) << "\"";
  o << "],\n\"reached\":{"; { bool f = true; for (auto& r : Rm) { o << (f ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; f = false; } }
  o << "},\n\"samples\":["; for (size_t i = 0; i < Sm.size(); i++) o << (i ? ",\n" : "") << Sm[i];
  o << "],\n\"lines\":["; { bool f = true; for (auto& r : Ff) { o << (f ? "" : ",\n") << "\"" << jesc(r) << "\""; f = false; } }
  o << "]}\n";
  o.close();
  fflush(nullptr); _exit(0);
}
