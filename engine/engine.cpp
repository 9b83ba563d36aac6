// Symbolic executor over LLVM bitcode: explores every path of sym_main() (after
// the module's global constructors) with symbolic input bytes; the SMT solver
// (z3, QF_BV) decides branch feasibility, memory bounds and assertions.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include "solver.hpp"

using namespace llvm;
typedef std::string str;

static const unsigned SLOT = 24;
static const uint64_t OBJOFF = 0x400000;
static const uint64_t MAXOBJ = 0xB00000;
static const uint64_t FUNCBASE = 0x7f0000000000ull;
static const unsigned PAGE = 512;

// ---------------------------------------------------------------- values
struct Value_ {
  uint64_t c = 0;
  E e = nullptr;
  std::shared_ptr<std::vector<Value_>> agg;
  Value_() {}
  explicit Value_(uint64_t v) : c(v) {}
  explicit Value_(E x) { if (isConst(x)) c = x->val; else e = x; }
};
typedef Value_ V;
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
struct Page {
  uint8_t c[PAGE];
  std::unique_ptr<E[]> s;
  Page() {}
  Page(const Page& o) {
    memcpy(c, o.c, PAGE);
    if (o.s) { s.reset(new E[PAGE]); memcpy(s.get(), o.s.get(), PAGE * sizeof(E)); }
  }
};
struct Obj {
  uint64_t size = 0;
  char kind = 'h';  // h heap, s stack, g global, x external global
  bool ro = false;
  uint8_t fill = 0xAA;
  const char* tag = "";
  std::vector<std::shared_ptr<Page>> pages;
};
static std::shared_ptr<Obj> FREED_H, FREED_S;
struct Chunk { std::shared_ptr<Obj> o[64]; };

struct KInst {
  Instruction* I;
  int dst = -1;
  std::vector<int> ops;  // >=0 register, <0 constant index -(i)-1
  unsigned opc;
  unsigned w = 0;        // result width
  unsigned ow = 0;       // operand width
  int t0 = -1, t1 = -1;  // branch targets (instruction index)
};
struct KFunc {
  Function* f;
  std::vector<KInst> insts;
  DenseMap<BasicBlock*, int> bb;
  DenseMap<const Value*, int> reg;
  unsigned nregs = 0;
  uint64_t calls = 0;
};
struct Frame {
  KFunc* kf;
  std::vector<V> regs;
  int pc = 0;
  std::vector<uint32_t> allocas;
  uint64_t va = 0;
};
struct SymObj { str name; uint32_t first, n; };
struct Obs { str label; V v; };
struct State {
  std::vector<Frame> st;
  std::vector<std::vector<Frame>> cos;  // parked coroutine stacks (st is the running one)
  uint32_t cur = 0;
  std::vector<std::shared_ptr<Chunk>> mem;
  uint32_t nextId = 1;
  std::vector<E> cons;
  Model model;
  uint32_t nsyms = 0;
  std::vector<SymObj> symobjs;
  std::vector<Obs> obs;
  std::vector<str> labels;
  std::vector<std::pair<uint64_t, str>> caught;
  std::map<uint64_t, str> excType;
  std::deque<Function*> pending;
  uint64_t instrs = 0;
  uint32_t forks = 0;
  bool exitOk = false;
};

struct ErrRec { str kind, msg, where, trace, input, obs; };
struct PathSample { str input, obs; };
struct Stats {
  uint64_t paths = 0, completed = 0, assumedOut = 0, exits = 0, errPaths = 0, instrs = 0, forks = 0, asserts = 0, assertQueries = 0, memChecks = 0;
  uint64_t maxInstr = 0;
  std::set<str> labels, incomplete;
  std::map<str, uint64_t> assertSites;
  std::vector<ErrRec> errors;
  std::vector<PathSample> samples;
  std::set<str> funcs;
  uint64_t left = 0;
};

struct Terminate {};  // thrown to end the current path

struct Engine {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL;
  Solver solver;
  Stats S;
  std::vector<V> consts;
  DenseMap<const Constant*, int> constIdx;
  DenseMap<const GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, Function*> faddr;
  DenseMap<Function*, KFunc*> kfuncs;
  std::deque<State*> work;
  State* cur = nullptr;
  bool forkedRetry = false;
  std::vector<State*> forked;
  double timeLimit = 600;
  uint64_t instrLimit = 3000000, pathLimit = 2000000;
  unsigned maxErrors = 8, maxSamples = 6, workers = 1;
  uint8_t heapFill = 0xAA;
  str srcPrefix;
  std::chrono::steady_clock::time_point t0;
  typedef std::function<bool(State&, KInst&, CallBase*, std::vector<V>&, V&)> Handler;
  StringMap<Handler> handlers;
  DenseMap<Function*, Handler*> hcache;

  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ------------------------------------------------------------ helpers
  unsigned width(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
  }
  str where(State& s) {
    for (size_t i = s.st.size(); i-- > 0;) {
      Frame& f = s.st[i];
      if (f.pc < (int)f.kf->insts.size()) {
        const DebugLoc& d = f.kf->insts[f.pc].I->getDebugLoc();
        if (d) {
          DILocation* L = d.get();
          str fn = (L->getDirectory() + "/" + L->getFilename()).str();
          if (L->getFilename().starts_with("/")) fn = L->getFilename().str();
          if (fn.compare(0, srcPrefix.size(), srcPrefix) == 0)
            return fn.substr(srcPrefix.size()) + ":" + std::to_string(L->getLine());
        }
      }
    }
    return "?";
  }
  str trace(State& s) {
    str r;
    for (size_t i = s.st.size(); i-- > 0;) {
      Frame& f = s.st[i];
      str l = "?";
      if (f.pc < (int)f.kf->insts.size()) {
        const DebugLoc& d = f.kf->insts[f.pc].I->getDebugLoc();
        for (DILocation* L = d ? d.get() : nullptr; L; L = L->getInlinedAt()) {
          l = L->getFilename().str() + ":" + std::to_string(L->getLine());
          r += "  " + llvm::demangle(L->getScope()->getSubprogram() ? (L->getScope()->getSubprogram()->getLinkageName().empty() ? L->getScope()->getSubprogram()->getName().str() : L->getScope()->getSubprogram()->getLinkageName().str()) : f.kf->f->getName().str()) + " at " + l + "\n";
        }
      }
      if (l == "?") r += "  " + llvm::demangle(f.kf->f->getName().str()) + "\n";
      if (r.size() > 6000) break;
    }
    return r;
  }
  str inputOf(State& s, const Model& m) {
    str r;
    char b[8];
    for (auto& o : s.symobjs) {
      r += o.name + " " + std::to_string(o.n) + " ";
      for (uint32_t i = 0; i < o.n; i++) {
        uint32_t id = o.first + i;
        snprintf(b, sizeof b, "%02x", id < m.size() ? m[id] : 0);
        r += b;
      }
      if (!o.n) r += "-";
      r += "\n";
    }
    return r;
  }
  str obsOf(State& s, const Model& m) {
    str r;
    evalNewEpoch();
    for (auto& o : s.obs) r += o.label + "=" + std::to_string(o.v.e ? evalExpr(o.v.e, m) : o.v.c) + "\n";
    return r;
  }
  void incomplete(const str& why) { S.incomplete.insert(why); }
  void report(State& s, const str& kind, const str& msg, const Model& m) {
    str wh = where(s);
    for (auto& e : S.errors) if (e.kind == kind && e.where == wh && e.msg == msg) return;
    if (S.errors.size() >= maxErrors) return;
    ErrRec e;
    e.kind = kind; e.msg = msg; e.where = wh; e.trace = trace(s);
    e.input = inputOf(s, m); e.obs = obsOf(s, m);
    S.errors.push_back(e);
  }
  [[noreturn]] void fail(State& s, const str& kind, const str& msg) {
    report(s, kind, msg, s.model);
    S.errPaths++;
    throw Terminate();
  }
  [[noreturn]] void unsupported(State& s, const str& msg) {
    incomplete("unsupported: " + msg + " at " + where(s));
    // the path up to here has a model: the replay of it may show a violation all the same
    // (not where the real call could touch anything outside the process)
    bool harmless = msg.find("external function") == str::npos;
    for (const char* f : {"gethostby", "getaddrinfo", "str", "mem", "to", "is", "snprintf", "sscanf", "localtime", "gmtime", "mktime", "time", "inet_", "std::", "ato", "clock", "gettimeofday", "getenv", "rand", "srand", "abort", "htons", "ntoh"})
      if (msg.find(str("external function ") + f) != str::npos) harmless = true;
    if (harmless && msg.find("filesystem") == str::npos && msg.find("fstream") == str::npos && msg.find("filebuf") == str::npos) report(s, "unsupported", msg, s.model);
    if (getenv("SYM_DEBUG")) fprintf(stderr, "UNSUPPORTED %s\n%s", msg.c_str(), trace(s).c_str());
    throw Terminate();
  }
  void addCons(State& s, E c) {
    if (isConst(c)) return;
    if (c->op == O_AND) { addCons(s, c->a); addCons(s, c->b); return; }
    s.cons.push_back(c);
  }
  // 1: only true, 0: only false, 2: both (other = model for the opposite of the current model's side; side = current side)
  int decide(State& s, E cond, bool& side, Model& other) {
    if (isConst(cond)) { side = cond->val; return side; }
    evalNewEpoch();
    side = evalExpr(cond, s.model);
    Res r = solver.check(s.cons, side ? mkNot(cond) : cond, s.model, other);
    if (r == R_UNKNOWN) { incomplete("solver returned unknown"); addCons(s, side ? cond : mkNot(cond)); return side; }
    if (r == R_UNSAT) return side;
    return 2;
  }
  State* fork(State& s, E condForNew, const Model& m) {
    State* n = new State(s);
    n->model = m;
    addCons(*n, condForNew);
    n->forks++;
    S.forks++;
    work.push_back(n);
    return n;
  }
  // split on cond; the current state continues on one side (returned)
  bool split(State& s, E cond, State** otherOut = nullptr) {
    bool side; Model om;
    if (otherOut) *otherOut = nullptr;
    int r = decide(s, cond, side, om);
    if (r != 2) return r;
    State* o = fork(s, side ? mkNot(cond) : cond, om);
    if (otherOut) *otherOut = o;
    addCons(s, side ? cond : mkNot(cond));
    return side;
  }
  // concretize by enumeration: other values are explored by forked copies that re-execute the current instruction
  uint64_t concretize(State& s, const V& v, unsigned w) {
    if (!v.e) return v.c;
    evalNewEpoch();
    uint64_t x = evalExpr(v.e, s.model);
    E eq = mkEq(mkConst(x, w), v.e);
    split(s, eq);
    return x;
  }

  // ------------------------------------------------------------ memory ops
  Obj* getObj(State& s, uint64_t id) {
    if (id >= s.nextId) return nullptr;
    Chunk* c = s.mem[id / 64].get();
    return c ? c->o[id % 64].get() : nullptr;
  }
  std::shared_ptr<Obj>& slotW(State& s, uint64_t id) {
    auto& cp = s.mem[id / 64];
    if (cp.use_count() > 1) cp = std::make_shared<Chunk>(*cp);
    return cp->o[id % 64];
  }
  Obj* getObjW(State& s, uint64_t id) {
    auto& op = slotW(s, id);
    if (op.use_count() > 1) op = std::make_shared<Obj>(*op);
    return op.get();
  }
  uint64_t addrOf(uint64_t id) { return (id << SLOT) + OBJOFF; }
  uint64_t alloc(State& s, uint64_t size, char kind, uint8_t fill, const char* tag = "") {
    if (size > MAXOBJ) unsupported(s, "allocation of " + std::to_string(size) + " bytes");
    uint64_t id = s.nextId++;
    if (s.mem.size() <= id / 64) s.mem.push_back(std::make_shared<Chunk>());
    auto o = std::make_shared<Obj>();
    o->size = size; o->kind = kind; o->fill = fill; o->tag = tag;
    o->pages.resize((size + PAGE - 1) / PAGE);
    slotW(s, id) = o;
    return addrOf(id);
  }
  Page* pageW(Obj* o, uint64_t off) {
    auto& p = o->pages[off / PAGE];
    if (!p) { p = std::make_shared<Page>(); memset(p->c, o->fill, PAGE); }
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    return p.get();
  }
  V readByte(Obj* o, uint64_t off) {
    Page* p = o->pages[off / PAGE].get();
    if (!p) return V((uint64_t)o->fill);
    if (p->s && p->s[off % PAGE]) return V(p->s[off % PAGE]);
    return V((uint64_t)p->c[off % PAGE]);
  }
  void writeByte(Obj* o, uint64_t off, const V& v) {
    Page* p = pageW(o, off);
    if (v.e) {
      if (!p->s) { p->s.reset(new E[PAGE]); memset(p->s.get(), 0, PAGE * sizeof(E)); }
      p->s[off % PAGE] = v.e;
    } else {
      if (p->s) p->s[off % PAGE] = nullptr;
      p->c[off % PAGE] = (uint8_t)v.c;
    }
  }
  V readN(Obj* o, uint64_t off, unsigned n) {
    Page* p = o->pages[off / PAGE].get();
    if (off / PAGE == (off + n - 1) / PAGE) {
      if (!p) { uint64_t v; memset(&v, o->fill, 8); return V(v & maskw(8 * n)); }
      bool sym = false;
      if (p->s) for (unsigned i = 0; i < n; i++) if (p->s[(off + i) % PAGE]) { sym = true; break; }
      if (!sym) { uint64_t v = 0; memcpy(&v, p->c + off % PAGE, n); return V(v); }
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; i++) {
      E b = toE(readByte(o, off + i), 8);
      r = r ? mkConcat(b, r) : b;
    }
    return V(r);
  }
  void writeN(Obj* o, uint64_t off, unsigned n, const V& v) {
    if (!v.e) {
      Page* p = off / PAGE == (off + n - 1) / PAGE ? pageW(o, off) : nullptr;
      if (p && !p->s) { memcpy(p->c + off % PAGE, &v.c, n); return; }
      for (unsigned i = 0; i < n; i++) writeByte(o, off + i, V((v.c >> (8 * i)) & 0xff));
      return;
    }
    E x = v.e;
    if (x->w < 8 * n) x = mkZext(x, 8 * n);
    for (unsigned i = 0; i < n; i++) writeByte(o, off + i, V(mkExtract(x, 8 * i, 8)));
  }
  str ptrStr(uint64_t a) { char b[40]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)a); return b; }
  void badPtr(State& s, uint64_t a, uint64_t n, bool wr) {
    str op = wr ? "write" : "read";
    if (a < (1ull << SLOT)) fail(s, "null-deref", op + " of " + std::to_string(n) + " bytes at a null-based address");
    fail(s, "invalid-pointer", op + " through an invalid pointer");
  }
  Obj* checkObj(State& s, uint64_t a, uint64_t n, bool wr) {
    uint64_t id = a >> SLOT;
    Obj* o = id ? getObj(s, id) : nullptr;
    if (!o) badPtr(s, a, n, wr);
    if (o == FREED_H.get()) fail(s, "use-after-free", str(wr ? "write to" : "read of") + " freed heap memory");
    if (o == FREED_S.get()) fail(s, "use-after-return", str(wr ? "write to" : "read of") + " dead stack memory");
    return o;
  }
  // returns object id; offset concrete
  void resolveConcrete(State& s, uint64_t a, uint64_t n, bool wr, uint64_t& id, uint64_t& off) {
    Obj* o = checkObj(s, a, n, wr);
    id = a >> SLOT;
    off = a - addrOf(id);
    if (off > o->size || n > o->size - off) {
      if (n == 0) return;
      fail(s, wr ? "oob-write" : "oob-read", str(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes outside an object of " + std::to_string(o->size) + " bytes (offset " + std::to_string((int64_t)off) + ")");
    }
    if (wr && o->ro) fail(s, "write-to-const", "write to constant memory");
    S.memChecks++;
  }
  // pick the object a symbolic address belongs to
  uint64_t slotOf(State& s, E a) {
    uint64_t k;
    if (a->op == O_ADD && isConst(a->a) && (a->a->val >> SLOT) && getObj(s, a->a->val >> SLOT)) return a->a->val >> SLOT;
    E sl = mkExtract(a, SLOT, 64 - SLOT);
    k = concretize(s, V(sl), 64 - SLOT);
    return k;
  }
  void resolve(State& s, const V& p, uint64_t n, bool wr, uint64_t& id, uint64_t& off, E& offE) {
    offE = nullptr;
    if (!p.e) { resolveConcrete(s, p.c, n, wr, id, off); return; }
    id = slotOf(s, p.e);
    Obj* o = checkObj(s, addrOf(id), n, wr);
    E oe = mkBin(O_SUB, p.e, mkConst(addrOf(id), 64));
    E ok = n > o->size ? mkConst(0, 1) : mkBin(O_ULE, oe, mkConst(o->size - n, 64));
    Model om; bool side;
    S.memChecks++;
    int r = decide(s, ok, side, om);
    if (r != 1) {
      const Model& bad = r == 0 ? s.model : (side ? om : s.model);
      evalNewEpoch();
      uint64_t bo = evalExpr(oe, bad);
      report(s, wr ? "oob-write" : "oob-read", str(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes outside an object of " + std::to_string(o->size) + " bytes (offset " + std::to_string((int64_t)bo) + ")", bad);
      S.errPaths++;
      if (r == 0) throw Terminate();
      if (!side) s.model = om;
      addCons(s, ok);
    }
    if (wr && o->ro) fail(s, "write-to-const", "write to constant memory");
    if (isConst(oe)) { off = oe->val; return; }
    offE = oe;
  }
  V load(State& s, const V& p, unsigned w) {
    unsigned n = (w + 7) / 8;
    uint64_t id, off; E oe;
    resolve(s, p, n, false, id, off, oe);
    Obj* o = getObj(s, id);
    V r;
    if (!oe) r = readN(o, off, n);
    else {
      // alignment of the symbolic offset
      unsigned tz = 0; uint64_t base = 0; E x = oe;
      if (x->op == O_ADD && isConst(x->a)) { base = x->a->val; x = x->b; }
      while (x->op == O_ZEXT || x->op == O_SEXT) x = x->a;
      E l = x; while (l->op == O_CONCAT) l = l->b;
      if (isConst(l) && l->val == 0) tz = l->w;
      if (tz > 6) tz = 6;
      uint64_t step = 1ull << tz, first = base & (step - 1);
      uint64_t lo = std::max(oe->umin, first), hi = std::min(oe->umax, o->size - n);
      lo = first + ((lo - first + step - 1) / step) * step;
      if (hi < lo || (hi - lo) / step > 1024) {
        off = concretize(s, V(oe), 64);
        r = readN(getObj(s, id), off, n);
      } else {
        E acc = nullptr;
        for (uint64_t i = lo; i <= hi; i += step) {
          E v = toE(readN(o, i, n), 8 * n);
          acc = acc ? mkIte(mkEq(mkConst(i, 64), oe), v, acc) : v;
        }
        r = V(acc);
      }
    }
    if (w != 8 * n) {
      if (r.e) r = V(mkExtract(r.e, 0, w)); else r.c &= maskw(w);
    }
    return r;
  }
  void store(State& s, const V& p, const V& v, unsigned w) {
    unsigned n = (w + 7) / 8;
    uint64_t id, off; E oe;
    resolve(s, p, n, true, id, off, oe);
    if (oe) off = concretize(s, V(oe), 64);
    V x = v;
    if (!x.e) x.c &= maskw(w);
    writeN(getObjW(s, id), off, n, x);
  }
  void loadAgg(State& s, Type* t, const V& p, V& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
      out.agg = std::make_shared<std::vector<V>>(st->getNumElements());
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) loadAgg(s, st->getElementType(i), ptrAdd(p, sl->getElementOffset(i)), (*out.agg)[i]);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      out.agg = std::make_shared<std::vector<V>>(at->getNumElements());
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) loadAgg(s, at->getElementType(), ptrAdd(p, i * es), (*out.agg)[i]);
    } else {
      unsigned w = width(t);
      if (!w || w > 64) unsupported(s, "load type");
      out = load(s, p, w);
    }
  }
  void storeAgg(State& s, Type* t, const V& p, const V& v) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) storeAgg(s, st->getElementType(i), ptrAdd(p, sl->getElementOffset(i)), v.agg ? (*v.agg)[i] : V());
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) storeAgg(s, at->getElementType(), ptrAdd(p, i * es), v.agg ? (*v.agg)[i] : V());
    } else {
      unsigned w = width(t);
      if (!w || w > 64) unsupported(s, "store type");
      store(s, p, v, w);
    }
  }
  V ptrAdd(const V& p, uint64_t d) {
    if (!p.e) return V(p.c + d);
    return V(mkBin(O_ADD, mkConst(d, 64), p.e));
  }
  V bin(Op op, const V& a, const V& b, unsigned w) {
    if (!a.e && !b.e) return V(constBin(op, a.c, b.c, w));
    return V(mkBin(op, toE(a, w), toE(b, w)));
  }
  // length of a memory range operation, made concrete; bounds violations are reported first
  uint64_t rangeLen(State& s, const V& n, const V& p, bool wr, const V* q, bool qwr) {
    if (!n.e) return n.c;
    auto lim = [&](const V& p, bool wr) {
      if (p.e) return;
      uint64_t id = p.c >> SLOT;
      E zero = mkEq(mkConst(0, 64), n.e);
      Obj* o = id ? getObj(s, id) : nullptr;
      uint64_t room = 0;
      if (o && o != FREED_H.get() && o != FREED_S.get()) { uint64_t off = p.c - addrOf(id); room = off <= o->size ? o->size - off : 0; }
      E ok = mkBin(O_OR, zero, mkBin(O_ULE, n.e, mkConst(room, 64)));
      Model om; bool side;
      int r = decide(s, ok, side, om);
      if (r != 1) {
        const Model& bad = r == 0 ? s.model : (side ? om : s.model);
        evalNewEpoch();
        report(s, wr ? "oob-write" : "oob-read", str(wr ? "write" : "read") + " of " + std::to_string(evalExpr(n.e, bad)) + " bytes with only " + std::to_string(room) + " bytes left in the object", bad);
        S.errPaths++;
        if (r == 0) throw Terminate();
        if (!side) s.model = om;
        addCons(s, ok);
      }
    };
    lim(p, wr);
    if (q) lim(*q, qwr);
    return concretize(s, n, 64);
  }
  void memCopy(State& s, V d, V src, uint64_t n) {
    if (!n) return;
    if (d.e) d = V(concretize(s, d, 64));
    if (src.e) src = V(concretize(s, src, 64));
    uint64_t di, doff, si, soff;
    resolveConcrete(s, src.c, n, false, si, soff);
    resolveConcrete(s, d.c, n, true, di, doff);
    if (di == si && doff == soff) return;
    std::vector<V> tmp;
    if (di == si) {
      tmp.reserve(n);
      Obj* so = getObj(s, si);
      for (uint64_t i = 0; i < n; i++) tmp.push_back(readByte(so, soff + i));
      Obj* o = getObjW(s, di);
      for (uint64_t i = 0; i < n; i++) writeByte(o, doff + i, tmp[i]);
      return;
    }
    Obj* o = getObjW(s, di);
    Obj* so = getObj(s, si);
    uint64_t i = 0;
    while (i < n) {
      Page* sp = so->pages[(soff + i) / PAGE].get();
      uint64_t run = std::min({n - i, (uint64_t)PAGE - (soff + i) % PAGE, (uint64_t)PAGE - (doff + i) % PAGE});
      Page* dp = pageW(o, doff + i);
      if ((!sp || !sp->s) && !dp->s) {
        if (sp) memcpy(dp->c + (doff + i) % PAGE, sp->c + (soff + i) % PAGE, run);
        else memset(dp->c + (doff + i) % PAGE, so->fill, run);
      } else for (uint64_t k = 0; k < run; k++) writeByte(o, doff + i + k, readByte(so, soff + i + k));
      i += run;
    }
  }
  void memSet(State& s, V d, const V& v, uint64_t n) {
    if (!n) return;
    if (d.e) d = V(concretize(s, d, 64));
    uint64_t di, doff;
    resolveConcrete(s, d.c, n, true, di, doff);
    Obj* o = getObjW(s, di);
    V b = v.e ? V(mkExtract(v.e, 0, 8)) : V(v.c & 0xff);
    for (uint64_t i = 0; i < n; i++) writeByte(o, doff + i, b);
  }
  void doFree(State& s, const V& p0) {
    V p = p0;
    if (p.e) p = V(concretize(s, p, 64));
    if (!p.c) return;
    uint64_t id = p.c >> SLOT;
    Obj* o = id ? getObj(s, id) : nullptr;
    if (!o) fail(s, "invalid-free", "free of an invalid pointer");
    if (o == FREED_H.get()) fail(s, "double-free", "memory freed twice");
    if (o->kind != 'h' || p.c != addrOf(id)) fail(s, "invalid-free", "free of memory that was not heap-allocated");
    slotW(s, id) = FREED_H;
  }
  str cstr(State& s, const V& p0) {
    str r;
    V p = p0;
    if (p.e) p = V(concretize(s, p, 64));
    for (uint64_t a = p.c; r.size() < 4096; a++) {
      V b = load(s, V(a), 8);
      if (b.e) { r += '?'; continue; }
      if (!b.c) break;
      r += (char)b.c;
    }
    return r;
  }

  // ------------------------------------------------------------ constants and globals
  V evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) return V(ci->getValue().trunc(64).getZExtValue());
      return V(ci->getZExtValue());
    }
    if (isa<ConstantPointerNull>(c)) return V((uint64_t)0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      Type* t = c->getType();
      V v;
      if (auto* st = dyn_cast<StructType>(t)) { v.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(evalConst(isa<UndefValue>(c) ? (Constant*)UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i)))); }
      else if (auto* at = dyn_cast<ArrayType>(t)) { v.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(evalConst(isa<UndefValue>(c) ? (Constant*)UndefValue::get(at->getElementType()) : Constant::getNullValue(at->getElementType()))); }
      return v;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (cf->getType()->isFloatTy() || cf->getType()->isDoubleTy()) return V(cf->getValueAPF().bitcastToAPInt().getZExtValue());
      return V((uint64_t)0);
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
      if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
      return V(gaddr.lookup(gv));
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
      V v;
      v.agg = std::make_shared<std::vector<V>>();
      for (auto& o : ca->operands()) v.agg->push_back(evalConst(cast<Constant>(o.get())));
      return v;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      V v;
      v.agg = std::make_shared<std::vector<V>>();
      for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(evalConst(cd->getElementAsConstant(i)));
      return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          V b = evalConst(ce->getOperand(0));
          APInt off(64, 0);
          cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
          return V(b.c + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          { V v = evalConst(ce->getOperand(0)); unsigned w = width(ce->getType()); if (w) v.c &= maskw(w); return v; }
        case Instruction::Trunc: { V v = evalConst(ce->getOperand(0)); v.c &= maskw(width(ce->getType())); return v; }
        case Instruction::Add: return V((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(width(ce->getType())));
        case Instruction::Sub: return V((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(width(ce->getType())));
        case Instruction::ICmp: {
          uint64_t a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
          return V((uint64_t)(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b));
        }
        default: break;
      }
      incomplete(str("unsupported constant expression ") + ce->getOpcodeName());
    }
    return V((uint64_t)0);
  }
  int constOp(const Constant* c) {
    auto it = constIdx.find(c);
    if (it != constIdx.end()) return it->second;
    consts.push_back(evalConst(c));
    int i = -(int)consts.size();
    constIdx[c] = i;
    return i;
  }
  void initMem(State& s, Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // zero filled already
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      StringRef r = cd->getRawDataValues();
      for (size_t i = 0; i < r.size(); i++) writeByte(o, off + i, V((uint64_t)(uint8_t)r[i]));
      return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) initMem(s, o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) initMem(s, o, off + i * es, cast<Constant>(c->getOperand(i)));
      return;
    }
    unsigned w = width(t);
    if (!w || w > 64) { incomplete("unsupported global initializer"); return; }
    writeN(o, off, (w + 7) / 8, evalConst(c));
  }

  // ------------------------------------------------------------ decoding
  KFunc* getK(Function* f) {
    KFunc*& k = kfuncs[f];
    if (k) return k;
    k = new KFunc();
    k->f = f;
    for (auto& a : f->args()) k->reg[&a] = k->nregs++;
    for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) k->reg[&i] = k->nregs++;
    int n = 0;
    for (auto& b : *f) {
      k->bb[&b] = n;
      for (auto& i : b) { if (isa<DbgInfoIntrinsic>(&i)) continue; n++; }
    }
    for (auto& b : *f) for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      KInst ki;
      ki.I = &i;
      ki.opc = i.getOpcode();
      if (!i.getType()->isVoidTy()) { ki.dst = k->reg[&i]; ki.w = width(i.getType()); }
      for (auto& o : i.operands()) {
        Value* v = o.get();
        if (auto* c = dyn_cast<Constant>(v)) ki.ops.push_back(constOp(c));
        else if (k->reg.count(v)) ki.ops.push_back(k->reg[v]);
        else ki.ops.push_back(INT32_MIN);
      }
      if (i.getNumOperands() && i.getOperand(0)->getType()->isSized()) ki.ow = width(i.getOperand(0)->getType());
      if (auto* br = dyn_cast<BranchInst>(&i)) {
        ki.t0 = k->bb[br->getSuccessor(0)];
        if (br->isConditional()) ki.t1 = k->bb[br->getSuccessor(1)];
      }
      k->insts.push_back(ki);
    }
    return k;
  }
  const V& opv(Frame& f, const KInst& k, unsigned i) {
    int o = k.ops[i];
    return o >= 0 ? f.regs[o] : consts[-o - 1];
  }
  void jump(State& s, Frame& f, BasicBlock* from, BasicBlock* to) {
    int pc = f.kf->bb[to];
    // phis
    std::vector<std::pair<int, V>> upd;
    while (pc < (int)f.kf->insts.size() && f.kf->insts[pc].opc == Instruction::PHI) {
      KInst& k = f.kf->insts[pc];
      auto* ph = cast<PHINode>(k.I);
      int idx = ph->getBasicBlockIndex(from);
      upd.push_back({k.dst, opv(f, k, idx)});
      pc++;
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
    f.pc = pc;
  }

  // ------------------------------------------------------------ calls, returns, unwinding
  void pushFrame(State& s, Function* fn, std::vector<V>& args) {
    if (s.st.size() > 4000) fail(s, "stack-overflow", "unbounded recursion");
    KFunc* k = getK(fn);
    k->calls++;
    s.st.emplace_back();
    Frame& f = s.st.back();
    f.kf = k;
    f.regs.resize(k->nregs);
    unsigned na = fn->arg_size();
    for (unsigned i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
    if (fn->isVarArg()) {
      uint64_t n = args.size() > na ? args.size() - na : 0;
      f.va = alloc(s, n * 8 + 8, 's', 0, "varargs");
      Obj* o = getObjW(s, f.va >> SLOT);
      for (uint64_t i = 0; i < n; i++) {
        V v = args[na + i];
        if (v.e && v.e->w < 64) v = V(mkZext(v.e, 64));
        writeN(o, i * 8, 8, v);
      }
      f.allocas.push_back(f.va >> SLOT);
    }
  }
  void popFrame(State& s) {
    Frame& f = s.st.back();
    for (uint32_t id : f.allocas) slotW(s, id) = FREED_S;
    s.st.pop_back();
  }
  void advanceCall(State& s) {  // after a call/invoke finished normally
    Frame& f = s.st.back();
    KInst& k = f.kf->insts[f.pc];
    if (auto* iv = dyn_cast<InvokeInst>(k.I)) jump(s, f, iv->getParent(), iv->getNormalDest());
    else f.pc++;
  }
  str tname(const Constant* c) { c = c->stripPointerCasts(); return isa<ConstantPointerNull>(c) ? "" : c->getName().str(); }
  void basesOf(const str& t, std::set<str>& out) {
    if (!out.insert(t).second) return;
    static const std::map<str, str> stdb = {
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
    auto it = stdb.find(t);
    if (it != stdb.end()) basesOf(it->second, out);
    if (auto* g = M->getNamedGlobal(t)) if (g->hasInitializer())
      for (auto& o : g->getInitializer()->operands()) {
        auto* c = cast<Constant>(o.get())->stripPointerCasts();
        if (c->getName().starts_with("_ZTI")) basesOf(c->getName().str(), out);
      }
  }
  std::map<str, int> typeIds;
  int typeId(const str& t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[t] = n; }
  bool lpMatch(LandingPadInst* lp, const str& type, int& sel) {
    std::set<str> b;
    basesOf(type, b);
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (!lp->isCatch(i)) continue;
      str t = tname(lp->getClause(i));
      if (t.empty() || b.count(t)) { sel = typeId(t); return true; }
    }
    return false;
  }
  void unwind(State& s, uint64_t exc, const str& type) {
    int sel = 0;
    bool handler = false;
    for (size_t i = s.st.size(); i-- > 0 && !handler;) {
      Frame& f = s.st[i];
      if (auto* iv = dyn_cast<InvokeInst>(f.kf->insts[f.pc].I)) handler = lpMatch(iv->getLandingPadInst(), type, sel);
    }
    if (!handler) fail(s, "uncaught-exception", "uncaught exception of type " + llvm::demangle(type));
    while (!s.st.empty()) {
      Frame& f = s.st.back();
      if (auto* iv = dyn_cast<InvokeInst>(f.kf->insts[f.pc].I)) {
        auto* lp = iv->getLandingPadInst();
        sel = 0;
        bool m = lpMatch(lp, type, sel);
        if (m || lp->isCleanup()) {
          jump(s, f, iv->getParent(), iv->getUnwindDest());
          KInst& k = f.kf->insts[f.pc];
          V v;
          v.agg = std::make_shared<std::vector<V>>();
          v.agg->push_back(V(exc));
          v.agg->push_back(V((uint64_t)(m ? sel : 0)));
          f.regs[k.dst] = v;
          f.pc++;
          return;
        }
      }
      popFrame(s);
    }
  }
  void throwStd(State& s, const str& ti) {
    uint64_t e = alloc(s, 64, 'h', 0, "exception");
    s.excType[e] = ti;
    unwind(s, e, ti);
  }

  void doCall(State& s, KInst& k) {
    auto* cb = cast<CallBase>(k.I);
    Frame& f = s.st.back();
    Function* fn = nullptr;
    Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
    fn = dyn_cast<Function>(cv);
    if (!fn) {
      if (isa<InlineAsm>(cb->getCalledOperand())) { f.pc++; return; }
      const V& p = opv(f, k, k.ops.size() - 1);
      uint64_t a = p.e ? concretize(s, p, 64) : p.c;
      auto it = faddr.find(a);
      if (it == faddr.end()) fail(s, "bad-call", a ? "call through an invalid function pointer" : "call through a null function pointer");
      fn = it->second;
    }
    std::vector<V> args;
    unsigned na = cb->arg_size();
    args.reserve(na);
    for (unsigned i = 0; i < na; i++) {
      if (k.ops[i] == INT32_MIN) args.push_back(V()); else args.push_back(opv(f, k, i));
      if (cb->isByValArgument(i)) {
        Type* t = cb->getParamByValType(i);
        uint64_t n = DL->getTypeAllocSize(t);
        uint64_t a = alloc(s, n, 's', heapFill, "byval");
        s.st.back().allocas.push_back(a >> SLOT);
        memCopy(s, V(a), args[i], n);
        args[i] = V(a);
      }
    }
    if (fn->isIntrinsic()) { doIntrinsic(s, k, cast<CallBase>(k.I), fn, args); return; }
    Handler* h = nullptr;
    auto it = hcache.find(fn);
    if (it != hcache.end()) h = it->second;
    else {
      auto hi = handlers.find(fn->getName());
      h = hi == handlers.end() ? nullptr : &hi->second;
      hcache[fn] = h;
    }
    if (h) {
      V r;
      size_t depth = s.st.size();
      if ((*h)(s, k, cb, args, r)) {
        (void)depth;
        if (k.dst >= 0) s.st.back().regs[k.dst] = r;
        advanceCall(s);
      }
      return;
    }
    if (fn->isDeclaration()) unsupported(s, "call to external function " + llvm::demangle(fn->getName().str()));
    pushFrame(s, fn, args);
  }
  void doRet(State& s, KInst& k) {
    V r;
    bool has = k.I->getNumOperands() > 0;
    if (has) r = opv(s.st.back(), k, 0);
    popFrame(s);
    if (s.st.empty()) return;
    Frame& f = s.st.back();
    KInst& c = f.kf->insts[f.pc];
    if (has && c.dst >= 0) f.regs[c.dst] = r;
    advanceCall(s);
  }
  static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
  static float asF(uint64_t v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
  static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
  static uint64_t ofF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

  void doIntrinsic(State& s, KInst& k, CallBase* cb, Function* fn, std::vector<V>& a) {
    Frame& f = s.st.back();
    V r;
    unsigned w = k.w;
    auto done = [&]() { if (k.dst >= 0) s.st.back().regs[k.dst] = r; advanceCall(s); };
    switch (fn->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = rangeLen(s, a[2], a[0], true, &a[1], false);
        memCopy(s, a[0], a[1], n);
        return done();
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        uint64_t n = rangeLen(s, a[2], a[0], true, nullptr, false);
        memSet(s, a[0], a[1], n);
        return done();
      }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::vaend:
        return done();
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
        r = a[0]; return done();
      case Intrinsic::is_constant: r = V((uint64_t)0); return done();
      case Intrinsic::objectsize: r = V((a[1].c & 1) ? (uint64_t)0 : maskw(w)); return done();
      case Intrinsic::stacksave: r = V((uint64_t)0); return done();
      case Intrinsic::stackrestore: return done();
      case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "trap", "trap instruction reached");
      case Intrinsic::eh_typeid_for: r = V((uint64_t)typeId(tname(cast<Constant>(cb->getArgOperand(0))))); return done();
      case Intrinsic::umin: r = sel(bin(O_ULT, a[0], a[1], w), a[0], a[1], w); return done();
      case Intrinsic::umax: r = sel(bin(O_ULT, a[0], a[1], w), a[1], a[0], w); return done();
      case Intrinsic::smin: r = sel(bin(O_SLT, a[0], a[1], w), a[0], a[1], w); return done();
      case Intrinsic::smax: r = sel(bin(O_SLT, a[0], a[1], w), a[1], a[0], w); return done();
      case Intrinsic::abs: r = sel(bin(O_SLT, a[0], V((uint64_t)0), w), bin(O_SUB, V((uint64_t)0), a[0], w), a[0], w); return done();
      case Intrinsic::bswap: {
        E x = toE(a[0], w), o = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, 8 * i, 8); o = o ? mkConcat(o, b) : b; }
        r = V(o); return done();
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        bool L = fn->getIntrinsicID() == Intrinsic::fshl;
        if (a[2].e) unsupported(s, "symbolic funnel shift");
        uint64_t sh = a[2].c % w;
        if (!sh) { r = L ? a[0] : a[1]; return done(); }
        uint64_t l = L ? sh : w - sh;
        r = bin(O_OR, bin(O_SHL, a[0], V(l), w), bin(O_LSHR, a[1], V(w - l), w), w);
        return done();
      }
      case Intrinsic::usub_sat: r = sel(bin(O_ULT, a[0], a[1], w), V((uint64_t)0), bin(O_SUB, a[0], a[1], w), w); return done();
      case Intrinsic::uadd_sat: { V t = bin(O_ADD, a[0], a[1], w); r = sel(bin(O_ULT, t, a[0], w), V(maskw(w)), t, w); return done(); }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        E x = toE(a[0], w), acc = nullptr;
        auto id = fn->getIntrinsicID();
        if (id == Intrinsic::ctpop) { acc = mkConst(0, w); for (unsigned i = 0; i < w; i++) acc = mkBin(O_ADD, acc, mkZext(mkExtract(x, i, 1), w)); }
        else { acc = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i; acc = mkIte(mkExtract(x, bit, 1), mkConst(id == Intrinsic::ctlz ? w - 1 - bit : bit, w), acc); } }
        r = V(acc); return done();
      }
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ww = width(cb->getArgOperand(0)->getType());
        V v, o;
        switch (fn->getIntrinsicID()) {
          case Intrinsic::uadd_with_overflow: v = bin(O_ADD, a[0], a[1], ww); o = bin(O_ULT, v, a[0], ww); break;
          case Intrinsic::usub_with_overflow: v = bin(O_SUB, a[0], a[1], ww); o = bin(O_ULT, a[0], a[1], ww); break;
          case Intrinsic::umul_with_overflow:
            v = bin(O_MUL, a[0], a[1], ww);
            if (!a[0].e && !a[1].e) o = V((uint64_t)((unsigned __int128)a[0].c * a[1].c > maskw(ww)));
            else { const V& c = a[0].e ? a[1] : a[0]; const V& x = a[0].e ? a[0] : a[1];
              if (c.e) unsupported(s, "symbolic umul overflow");
              o = c.c == 0 ? V((uint64_t)0) : bin(O_ULT, V(maskw(ww) / c.c), x, ww); }
            break;
          case Intrinsic::sadd_with_overflow: { v = bin(O_ADD, a[0], a[1], ww);
            E x = toE(a[0], ww), y = toE(a[1], ww), z = toE(v, ww);
            E sx_ = mkExtract(x, ww - 1, 1), sy = mkExtract(y, ww - 1, 1), sz = mkExtract(z, ww - 1, 1);
            o = V(mkBin(O_AND, mkEq(sx_, sy), mkNot(mkEq(sx_, sz)))); break; }
          case Intrinsic::ssub_with_overflow: { v = bin(O_SUB, a[0], a[1], ww);
            E x = toE(a[0], ww), y = toE(a[1], ww), z = toE(v, ww);
            E sx_ = mkExtract(x, ww - 1, 1), sy = mkExtract(y, ww - 1, 1), sz = mkExtract(z, ww - 1, 1);
            o = V(mkBin(O_AND, mkNot(mkEq(sx_, sy)), mkNot(mkEq(sx_, sz)))); break; }
          default:
            if (a[0].e || a[1].e) unsupported(s, "symbolic smul overflow");
            { __int128 p = (__int128)sx(a[0].c, ww) * sx(a[1].c, ww); v = V((uint64_t)p & maskw(ww)); o = V((uint64_t)(p != (__int128)sx((uint64_t)p, ww))); }
        }
        r.agg = std::make_shared<std::vector<V>>(std::vector<V>{v, o});
        return done();
      }
      case Intrinsic::vastart: {
        V p = a[0];
        store(s, p, V((uint64_t)48), 32);
        store(s, ptrAdd(p, 4), V((uint64_t)304), 32);
        store(s, ptrAdd(p, 8), V(f.va), 64);
        store(s, ptrAdd(p, 16), V((uint64_t)0), 64);
        return done();
      }
      case Intrinsic::vacopy: memCopy(s, a[0], a[1], 24); return done();
      case Intrinsic::fabs: if (!a[0].e) { r = w == 64 ? V(ofD(fabs(asD(a[0].c)))) : V(ofF(fabsf(asF(a[0].c)))); return done(); } break;
      case Intrinsic::fmuladd: case Intrinsic::fma: if (!a[0].e && !a[1].e && !a[2].e && w == 64) { r = V(ofD(asD(a[0].c) * asD(a[1].c) + asD(a[2].c))); return done(); } break;
      case Intrinsic::load_relative: default: break;
    }
    unsupported(s, "intrinsic " + fn->getName().str());
  }
  V sel(const V& c, const V& a, const V& b, unsigned w) {
    if (!c.e) return c.c & 1 ? a : b;
    if (!w || w > 64) return V();
    return V(mkIte(c.e, toE(a, w), toE(b, w)));
  }

  // ------------------------------------------------------------ one instruction
  void step(State& s) {
    Frame& f = s.st.back();
    KInst& k = f.kf->insts[f.pc];
    s.instrs++;
    switch (k.opc) {
      case Instruction::Ret: doRet(s, k); return;
      case Instruction::Br: {
        auto* br = cast<BranchInst>(k.I);
        if (br->isUnconditional()) { jump(s, f, br->getParent(), br->getSuccessor(0)); return; }
        const V& c = opv(f, k, 0);
        bool side;
        if (!c.e) side = c.c & 1;
        else {
          State* o;
          side = split(s, c.e, &o);
          if (o) jump(*o, o->st.back(), br->getParent(), br->getSuccessor(side ? 1 : 0));
        }
        Frame& ff = s.st.back();
        jump(s, ff, br->getParent(), br->getSuccessor(side ? 0 : 1));
        return;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(k.I);
        const V c = opv(f, k, 0);
        BasicBlock* dst = nullptr;
        if (!c.e) {
          for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { dst = cs.getCaseSuccessor(); break; }
          if (!dst) dst = sw->getDefaultDest();
        } else {
          unsigned w = k.ow;
          std::vector<std::pair<BasicBlock*, E>> groups;
          E none = mkConst(1, 1);
          for (auto& cs : sw->cases()) {
            E eq = mkEq(mkConst(cs.getCaseValue()->getZExtValue(), w), c.e);
            none = mkBin(O_AND, none, mkNot(eq));
            bool found = false;
            for (auto& g : groups) if (g.first == cs.getCaseSuccessor()) { g.second = mkBin(O_OR, g.second, eq); found = true; }
            if (!found) groups.push_back({cs.getCaseSuccessor(), eq});
          }
          bool dfound = false;
          for (auto& g : groups) if (g.first == sw->getDefaultDest()) { g.second = mkBin(O_OR, g.second, none); dfound = true; }
          if (!dfound) groups.push_back({sw->getDefaultDest(), none});
          for (size_t i = 0; i < groups.size() && !dst; i++) {
            if (i + 1 == groups.size()) { dst = groups[i].first; break; }
            bool side; Model om;
            int r = decide(s, groups[i].second, side, om);
            if (r == 1) dst = groups[i].first;
            else if (r == 2) {
              // the forked copy takes group i; the current state continues with the rest
              if (side) { Model t = s.model; State* o = fork(s, groups[i].second, t); jump(*o, o->st.back(), sw->getParent(), groups[i].first); s.model = om; }
              else { State* o = fork(s, groups[i].second, om); jump(*o, o->st.back(), sw->getParent(), groups[i].first); }
              addCons(s, mkNot(groups[i].second));
            }
          }
        }
        jump(s, s.st.back(), sw->getParent(), dst);
        return;
      }
      case Instruction::Call: case Instruction::Invoke: doCall(s, k); return;
      case Instruction::Unreachable: fail(s, "unreachable", "control reached undefined behaviour (unreachable)");
      case Instruction::Resume: {
        V v = opv(f, k, 0);
        uint64_t e = (*v.agg)[0].c;
        str t = s.excType[e];
        // continue from the caller
        popFrame(s);
        unwind(s, e, t);
        return;
      }
      default: break;
    }
    V r;
    unsigned w = k.w;
    switch (k.opc) {
      case Instruction::Add: r = bin(O_ADD, opv(f, k, 0), opv(f, k, 1), w); break;
      case Instruction::Sub: r = bin(O_SUB, opv(f, k, 0), opv(f, k, 1), w); break;
      case Instruction::Mul: r = bin(O_MUL, opv(f, k, 0), opv(f, k, 1), w); break;
      case Instruction::And: r = bin(O_AND, opv(f, k, 0), opv(f, k, 1), w); break;
      case Instruction::Or: r = bin(O_OR, opv(f, k, 0), opv(f, k, 1), w); break;
      case Instruction::Xor: r = bin(O_XOR, opv(f, k, 0), opv(f, k, 1), w); break;
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        const V& sh = opv(f, k, 1);
        r = bin(k.opc == Instruction::Shl ? O_SHL : k.opc == Instruction::LShr ? O_LSHR : O_ASHR, opv(f, k, 0), sh, w);
        break;
      }
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        V d = opv(f, k, 1);
        if (!d.e) { if (!(d.c & maskw(w))) fail(s, "div-by-zero", "integer division by zero"); }
        else {
          E nz = mkNot(mkEq(mkConst(0, w), d.e));
          bool side; Model om;
          int q = decide(s, nz, side, om);
          if (q != 1) {
            report(s, "div-by-zero", "integer division by zero", q == 0 ? s.model : (side ? om : s.model));
            S.errPaths++;
            if (q == 0) throw Terminate();
            if (!side) s.model = om;
            addCons(s, nz);
          }
        }
        r = bin(k.opc == Instruction::UDiv ? O_UDIV : k.opc == Instruction::SDiv ? O_SDIV : k.opc == Instruction::URem ? O_UREM : O_SREM, opv(f, k, 0), d, w);
        break;
      }
      case Instruction::ICmp: {
        auto* ic = cast<ICmpInst>(k.I);
        const V &a = opv(f, k, 0), &b = opv(f, k, 1);
        unsigned ow = k.ow;
        switch (ic->getPredicate()) {
          case CmpInst::ICMP_EQ: r = bin(O_EQ, a, b, ow); break;
          case CmpInst::ICMP_NE: r = bin(O_EQ, a, b, ow); if (r.e) r = V(mkNot(r.e)); else r.c ^= 1; break;
          case CmpInst::ICMP_ULT: r = bin(O_ULT, a, b, ow); break;
          case CmpInst::ICMP_ULE: r = bin(O_ULE, a, b, ow); break;
          case CmpInst::ICMP_UGT: r = bin(O_ULT, b, a, ow); break;
          case CmpInst::ICMP_UGE: r = bin(O_ULE, b, a, ow); break;
          case CmpInst::ICMP_SLT: r = bin(O_SLT, a, b, ow); break;
          case CmpInst::ICMP_SLE: r = bin(O_SLE, a, b, ow); break;
          case CmpInst::ICMP_SGT: r = bin(O_SLT, b, a, ow); break;
          case CmpInst::ICMP_SGE: r = bin(O_SLE, b, a, ow); break;
          default: unsupported(s, "icmp");
        }
        break;
      }
      case Instruction::Trunc: { const V& a = opv(f, k, 0); if (k.ow > 64) unsupported(s, "wide trunc"); r = a.e ? V(mkExtract(a.e, 0, w)) : V(a.c & maskw(w)); break; }
      case Instruction::ZExt: { const V& a = opv(f, k, 0); if (w > 64) unsupported(s, "wide zext"); r = a.e ? V(mkZext(a.e, w)) : a; break; }
      case Instruction::SExt: { const V& a = opv(f, k, 0); if (w > 64) unsupported(s, "wide sext"); r = a.e ? V(mkSext(a.e, w)) : V((uint64_t)sx(a.c, k.ow) & maskw(w)); break; }
      case Instruction::PtrToInt: { const V& a = opv(f, k, 0); r = w < 64 ? (a.e ? V(mkExtract(a.e, 0, w)) : V(a.c & maskw(w))) : a; break; }
      case Instruction::IntToPtr: { const V& a = opv(f, k, 0); r = a.e && a.e->w < 64 ? V(mkZext(a.e, 64)) : a; break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: r = opv(f, k, 0); break;
      case Instruction::Select: {
        V c = opv(f, k, 0);
        if (c.e && (!w || w > 64)) { bool sd = split(s, c.e); c = V((uint64_t)sd); }
        Frame& f2 = s.st.back();
        r = sel(c, opv(f2, k, 1), opv(f2, k, 2), w);
        f2.regs[k.dst] = r; f2.pc++;
        return;
      }
      case Instruction::Alloca: {
        auto* al = cast<AllocaInst>(k.I);
        uint64_t n = DL->getTypeAllocSize(al->getAllocatedType());
        V cnt = opv(f, k, 0);
        uint64_t c = cnt.e ? concretize(s, cnt, k.ow) : cnt.c;
        uint64_t a = alloc(s, n * c, 's', heapFill, "local");
        Frame& f2 = s.st.back();
        f2.allocas.push_back(a >> SLOT);
        f2.regs[k.dst] = V(a);
        f2.pc++;
        return;
      }
      case Instruction::Load: {
        Type* t = k.I->getType();
        if (w && w <= 64) r = load(s, opv(f, k, 0), w);
        else loadAgg(s, t, opv(f, k, 0), r);
        break;
      }
      case Instruction::Store: {
        Type* t = k.I->getOperand(0)->getType();
        V p = opv(f, k, 1);
        if (k.ow && k.ow <= 64) store(s, p, opv(f, k, 0), k.ow);
        else storeAgg(s, t, p, opv(f, k, 0));
        s.st.back().pc++;
        return;
      }
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(k.I);
        V p = opv(f, k, 0);
        uint64_t off = 0;
        E se = nullptr;
        unsigned i = 1;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
          const V& ix = opv(f, k, i);
          if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(ix.c); continue; }
          uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
          unsigned iw = width(g->getOperand(i)->getType());
          if (!ix.e) off += (uint64_t)sx(ix.c, iw) * es;
          else {
            E x = mkBin(O_MUL, mkConst(es, 64), iw < 64 ? mkSext(ix.e, 64) : ix.e);
            se = se ? mkBin(O_ADD, se, x) : x;
          }
        }
        if (!p.e && !se) r = V(p.c + off);
        else {
          E b = mkBin(O_ADD, toE(p, 64), mkConst(off, 64));
          r = V(se ? mkBin(O_ADD, b, se) : b);
        }
        break;
      }
      case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(k.I);
        V v = opv(f, k, 0);
        for (unsigned i : ev->indices()) { if (!v.agg) { v = V(); break; } V t = (*v.agg)[i]; v = t; }
        r = v; break;
      }
      case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(k.I);
        std::function<V(V, Type*, ArrayRef<unsigned>, const V&)> ins = [&](V base, Type* t, ArrayRef<unsigned> ix, const V& x) -> V {
          if (ix.empty()) return x;
          V n;
          n.agg = base.agg ? std::make_shared<std::vector<V>>(*base.agg) : std::make_shared<std::vector<V>>(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
          Type* et = t->isStructTy() ? t->getStructElementType(ix[0]) : t->getArrayElementType();
          (*n.agg)[ix[0]] = ins((*n.agg)[ix[0]], et, ix.slice(1), x);
          return n;
        };
        r = ins(opv(f, k, 0), iv->getType(), iv->getIndices(), opv(f, k, 1));
        break;
      }
      case Instruction::AtomicRMW: {
        auto* rm = cast<AtomicRMWInst>(k.I);
        V p = opv(f, k, 0);
        V old = load(s, p, w);
        V x = opv(s.st.back(), k, 1), n;
        switch (rm->getOperation()) {
          case AtomicRMWInst::Add: n = bin(O_ADD, old, x, w); break;
          case AtomicRMWInst::Sub: n = bin(O_SUB, old, x, w); break;
          case AtomicRMWInst::Xchg: n = x; break;
          case AtomicRMWInst::And: n = bin(O_AND, old, x, w); break;
          case AtomicRMWInst::Or: n = bin(O_OR, old, x, w); break;
          default: unsupported(s, "atomicrmw");
        }
        store(s, p, n, w);
        r = old; break;
      }
      case Instruction::AtomicCmpXchg: {
        unsigned ww = width(k.I->getOperand(1)->getType());
        V p = opv(f, k, 0), exp = opv(f, k, 1), nw = opv(f, k, 2);
        V old = load(s, p, ww);
        V eq = bin(O_EQ, old, exp, ww);
        if (eq.e) unsupported(s, "symbolic cmpxchg");
        if (eq.c) store(s, p, nw, ww);
        r.agg = std::make_shared<std::vector<V>>(std::vector<V>{old, eq});
        break;
      }
      case Instruction::Fence: f.pc++; return;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        const V &a = opv(f, k, 0), &b = opv(f, k, 1);
        if (a.e || b.e) unsupported(s, "symbolic floating point");
        bool d = k.I->getType()->isDoubleTy();
        if (!d && !k.I->getType()->isFloatTy()) unsupported(s, "floating type");
        double x = d ? asD(a.c) : asF(a.c), y = d ? asD(b.c) : asF(b.c), z = 0;
        switch (k.opc) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); }
        r = V(d ? ofD(z) : ofF((float)z)); break;
      }
      case Instruction::FNeg: { const V& a = opv(f, k, 0); if (w == 0) unsupported(s, "floating type"); r = bin(O_XOR, a, V(1ull << (w - 1)), w); break; }
      case Instruction::FCmp: {
        const V &a = opv(f, k, 0), &b = opv(f, k, 1);
        if (a.e || b.e) unsupported(s, "symbolic floating point");
        Type* t = k.I->getOperand(0)->getType();
        if (!t->isDoubleTy() && !t->isFloatTy()) unsupported(s, "floating type");
        double x = t->isDoubleTy() ? asD(a.c) : asF(a.c), y = t->isDoubleTy() ? asD(b.c) : asF(b.c);
        bool un = std::isnan(x) || std::isnan(y), v = false;
        switch (cast<FCmpInst>(k.I)->getPredicate()) {
          case CmpInst::FCMP_OEQ: v = !un && x == y; break; case CmpInst::FCMP_ONE: v = !un && x != y; break;
          case CmpInst::FCMP_OLT: v = !un && x < y; break; case CmpInst::FCMP_OLE: v = !un && x <= y; break;
          case CmpInst::FCMP_OGT: v = !un && x > y; break; case CmpInst::FCMP_OGE: v = !un && x >= y; break;
          case CmpInst::FCMP_UEQ: v = un || x == y; break; case CmpInst::FCMP_UNE: v = un || x != y; break;
          case CmpInst::FCMP_ULT: v = un || x < y; break; case CmpInst::FCMP_ULE: v = un || x <= y; break;
          case CmpInst::FCMP_UGT: v = un || x > y; break; case CmpInst::FCMP_UGE: v = un || x >= y; break;
          case CmpInst::FCMP_ORD: v = !un; break; case CmpInst::FCMP_UNO: v = un; break;
          case CmpInst::FCMP_TRUE: v = true; break; default: v = false;
        }
        r = V((uint64_t)v); break;
      }
      case Instruction::SIToFP: case Instruction::UIToFP: {
        const V& a = opv(f, k, 0);
        if (a.e) unsupported(s, "symbolic int to floating point");
        bool sg = k.opc == Instruction::SIToFP;
        if (k.I->getType()->isDoubleTy()) r = V(ofD(sg ? (double)sx(a.c, k.ow) : (double)a.c));
        else if (k.I->getType()->isFloatTy()) r = V(ofF(sg ? (float)sx(a.c, k.ow) : (float)a.c));
        else unsupported(s, "floating type");
        break;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        const V& a = opv(f, k, 0);
        if (a.e) unsupported(s, "symbolic floating point to int");
        Type* t = k.I->getOperand(0)->getType();
        if (!t->isDoubleTy() && !t->isFloatTy()) unsupported(s, "floating type");
        double x = t->isDoubleTy() ? asD(a.c) : asF(a.c);
        r = V((k.opc == Instruction::FPToSI ? (uint64_t)(int64_t)x : (uint64_t)x) & maskw(w)); break;
      }
      case Instruction::FPExt: { const V& a = opv(f, k, 0); if (a.e || !k.I->getType()->isDoubleTy()) unsupported(s, "floating point"); r = V(ofD(asF(a.c))); break; }
      case Instruction::FPTrunc: { const V& a = opv(f, k, 0); if (a.e || !k.I->getType()->isFloatTy()) unsupported(s, "floating point"); r = V(ofF((float)asD(a.c))); break; }
      default: unsupported(s, str("instruction ") + k.I->getOpcodeName());
    }
    Frame& f2 = s.st.back();
    if (k.dst >= 0) f2.regs[k.dst] = r;
    f2.pc++;
  }

  // ------------------------------------------------------------ path loop
  void endPath(State& s) {
    S.completed++;
    for (auto& l : s.labels) S.labels.insert(l);
    if (S.samples.size() < maxSamples || (S.completed & (S.completed - 1)) == 0) {
      PathSample p{inputOf(s, s.model), obsOf(s, s.model)};
      if (S.samples.size() < maxSamples) S.samples.push_back(p);
      else S.samples[S.completed % maxSamples] = p;
    }
  }
  void runPath(State* s) {
    S.paths++;
    cur = s;
    uint64_t start = s->instrs;
    try {
      while (true) {
        if (s->st.empty()) {
          if (s->pending.empty()) { endPath(*s); break; }
          Function* fn = s->pending.front();
          s->pending.pop_front();
          std::vector<V> none;
          pushFrame(*s, fn, none);
        }
        if (s->instrs > instrLimit) fail(*s, "non-termination", "path exceeded " + std::to_string(instrLimit) + " instructions");
        if ((s->instrs & 0xfff) == 0 && elapsed() > timeLimit) { incomplete("time limit"); break; }
        step(*s);
      }
    } catch (Terminate&) {}
    S.instrs += s->instrs - start;
    S.maxInstr = std::max(S.maxInstr, s->instrs);
    delete s;
  }
  bool stopNow() { return elapsed() > timeLimit || S.paths >= pathLimit || S.errors.size() >= maxErrors; }
  void explore(size_t frontier) {  // frontier>0: breadth first until that many states pend
    while (!work.empty()) {
      if (stopNow()) {
        if (elapsed() > timeLimit) incomplete("time limit");
        else if (S.paths >= pathLimit) incomplete("path limit");
        S.left += work.size();
        return;
      }
      State* s;
      if (frontier) {
        if (work.size() >= frontier) return;
        s = work.front(); work.pop_front();
        // run only until it forks: run a slice
        sliceRun(s);
        continue;
      }
      s = work.back(); work.pop_back();
      runPath(s);
    }
  }
  void sliceRun(State* s) {  // like runPath, but yields back to the queue after a fork
    uint64_t start = s->instrs;
    size_t before = work.size();
    cur = s;
    bool fin = false;
    try {
      while (true) {
        if (s->st.empty()) {
          if (s->pending.empty()) { endPath(*s); fin = true; break; }
          Function* fn = s->pending.front();
          s->pending.pop_front();
          std::vector<V> none;
          pushFrame(*s, fn, none);
        }
        if (s->instrs > instrLimit) fail(*s, "non-termination", "path exceeded " + std::to_string(instrLimit) + " instructions");
        if ((s->instrs & 0xfff) == 0 && elapsed() > timeLimit) { incomplete("time limit"); fin = true; break; }
        step(*s);
        if (work.size() != before) break;
      }
    } catch (Terminate&) { fin = true; }
    S.instrs += s->instrs - start;
    S.maxInstr = std::max(S.maxInstr, s->instrs);
    if (fin) { S.paths++; delete s; }
    else work.push_back(s);
  }
  void setupHandlers();
  bool loadModule(const str& file);
  State* initial();
  void assertion(State& s, const V& c, const str& msg);
};

void Engine::assertion(State& s, const V& c, const str& msg) {
  S.asserts++;
  S.assertSites[msg]++;
  if (!c.e) {
    if (!c.c) fail(s, "assertion", msg);
    return;
  }
  E cond = c.e;
  if (cond->w > 1) cond = mkNot(mkEq(mkConst(0, cond->w), cond));
  bool side; Model om;
  S.assertQueries++;
  int r = decide(s, cond, side, om);
  if (r == 1) return;
  const Model& bad = r == 0 ? s.model : (side ? om : s.model);
  report(s, "assertion", msg, bad);
  S.errPaths++;
  if (r == 0) throw Terminate();
  if (!side) s.model = om;
  addCons(s, cond);
}

void Engine::setupHandlers() {
  auto reg = [&](std::initializer_list<const char*> names, Handler h) { for (auto n : names) handlers[n] = h; };
  typedef std::vector<V> A;
#define HND [this](State & s, KInst & k, CallBase * cb, A & a, V & r) -> bool
  reg({"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, HND {
    uint64_t n = a[0].e ? concretize(s, a[0], 64) : a[0].c;
    r = V(alloc(s, n, 'h', heapFill, "heap"));
    return true;
  });
  reg({"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, HND { r = V(alloc(s, a[0].e ? concretize(s, a[0], 64) : a[0].c, 'h', heapFill, "heap")); return true; });
  reg({"aligned_alloc"}, HND { r = V(alloc(s, a[1].e ? concretize(s, a[1], 64) : a[1].c, 'h', heapFill, "heap")); return true; });
  reg({"calloc"}, HND {
    uint64_t n = (a[0].e ? concretize(s, a[0], 64) : a[0].c);
    uint64_t m = (a[1].e ? concretize(s, a[1], 64) : a[1].c);
    r = V(alloc(s, n * m, 'h', 0, "heap"));
    return true;
  });
  reg({"realloc"}, HND {
    uint64_t n = a[1].e ? concretize(s, a[1], 64) : a[1].c;
    uint64_t old = a[0].e ? concretize(s, a[0], 64) : a[0].c;
    uint64_t na = alloc(s, n, 'h', heapFill, "heap");
    if (old) { Obj* o = checkObj(s, old, 1, false); memCopy(s, V(na), V(old), std::min(n, o->size)); doFree(s, V(old)); }
    r = V(na);
    return true;
  });
  reg({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}, HND { doFree(s, a[0]); return true; });
  reg({"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}, HND { uint64_t n = rangeLen(s, a[2], a[0], true, &a[1], false); memCopy(s, a[0], a[1], n); r = a[0]; return true; });
  reg({"memset", "__memset_chk"}, HND { uint64_t n = rangeLen(s, a[2], a[0], true, nullptr, false); memSet(s, a[0], a[1], n); r = a[0]; return true; });
  reg({"memcmp", "bcmp"}, HND {
    uint64_t n = rangeLen(s, a[2], a[0], false, &a[1], false);
    if (!n) { r = V((uint64_t)0); return true; }
    V p = a[0], q = a[1];
    if (p.e) p = V(concretize(s, p, 64));
    if (q.e) q = V(concretize(s, q, 64));
    // C semantics: bytes past the first difference are not required to exist, but sanitizers and
    // fortified implementations check the full range; so do we.
    uint64_t i1, o1, i2, o2;
    resolveConcrete(s, p.c, n, false, i1, o1);
    resolveConcrete(s, q.c, n, false, i2, o2);
    Obj *x = getObj(s, i1), *y = getObj(s, i2);
    E acc = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      V u = readByte(x, o1 + i), v = readByte(y, o2 + i);
      if (!u.e && !v.e) { if (u.c != v.c) acc = mkConst(u.c < v.c ? (uint64_t)-1 : 1, 32); continue; }
      E ue = toE(u, 8), ve = toE(v, 8);
      if (ue == ve) continue;
      acc = mkIte(mkEq(ue, ve), acc, mkIte(mkBin(O_ULT, ue, ve), mkConst((uint64_t)-1, 32), mkConst(1, 32)));
    }
    r = V(acc);
    return true;
  });
  reg({"sym_make"}, HND {
    uint64_t n = a[1].e ? concretize(s, a[1], 64) : a[1].c;
    uint64_t p0 = a[0].e ? concretize(s, a[0], 64) : a[0].c;
    SymObj so;
    so.name = cstr(s, a[2]); so.first = s.nsyms; so.n = n;
    if (n) {
      uint64_t id, off;
      resolveConcrete(s, p0, n, true, id, off);
      Obj* o = getObjW(s, id);
      for (uint64_t i = 0; i < n; i++) writeByte(o, off + i, V(mkSym(s.nsyms + i)));
    }
    s.nsyms += n;
    s.model.resize(s.nsyms, 0);
    s.symobjs.push_back(so);
    return true;
  });
  reg({"sym_assume"}, HND {
    V c = a[0];
    if (!c.e) { if (!c.c) { S.assumedOut++; throw Terminate(); } return true; }
    E cond = c.e;
    if (cond->w > 1) cond = mkNot(mkEq(mkConst(0, cond->w), cond));
    evalNewEpoch();
    if (evalExpr(cond, s.model)) { addCons(s, cond); return true; }
    Model m;
    Res q = solver.check(s.cons, cond, s.model, m);
    if (q == R_UNKNOWN) incomplete("solver returned unknown");
    if (q != R_SAT) { S.assumedOut++; throw Terminate(); }
    s.model = m;
    addCons(s, cond);
    return true;
  });
  reg({"sym_assert_"}, HND { assertion(s, a[0], cstr(s, a[1])); return true; });
  reg({"sym_reach"}, HND { s.labels.push_back(cstr(s, a[0])); return true; });
  reg({"sym_observe"}, HND { s.obs.push_back({cstr(s, a[0]), a[1]}); return true; });
  reg({"sym_pick"}, HND { r = V(concretize(s, a[0], 64)); return true; });
  reg({"sym_exit_ok"}, HND { s.exitOk = a[0].c; return true; });
  reg({"sym_co_create"}, HND {
    auto it = faddr.find(a[0].c);
    if (a[0].e || it == faddr.end()) fail(s, "bad-call", "coroutine entry is not a function");
    if (s.cos.empty()) s.cos.resize(1);
    std::vector<Frame> tmp;
    tmp.swap(s.st);
    std::vector<V> args{a[1]};
    pushFrame(s, it->second, args);
    tmp.swap(s.st);
    s.cos.push_back(std::move(tmp));
    r = V((uint64_t)(s.cos.size() - 1));
    return true;
  });
  reg({"sym_co_switch"}, HND {
    uint64_t id = a[0].c;
    if (s.cos.empty()) s.cos.resize(1);
    advanceCall(s);
    if (id != s.cur) {
      s.cos[s.cur] = std::move(s.st);
      s.st = std::move(s.cos.at(id));
      s.cos[id].clear();
      s.cur = id;
    }
    return false;
  });
  reg({"sym_native"}, HND { r = V((uint64_t)0); return true; });
  reg({"abort", "_ZSt9terminatev"}, HND { fail(s, "abort", "the program aborts"); });
  reg({"__assert_fail"}, HND { fail(s, "abort", "assert failed: " + cstr(s, a[0])); });
  reg({"__cxa_pure_virtual"}, HND { fail(s, "abort", "pure virtual call"); });
  reg({"exit", "_exit"}, HND {
    if (!s.exitOk) fail(s, "exit", "the process exits");
    S.exits++;
    endPath(s);
    throw Terminate();
  });
  reg({"__cxa_atexit", "__cxa_thread_atexit", "atexit"}, HND { r = V((uint64_t)0); return true; });
  reg({"__cxa_guard_acquire"}, HND {
    V g = load(s, a[0], 8);
    r = V((uint64_t)(g.c ? 0 : 1));
    return true;
  });
  reg({"__cxa_guard_release"}, HND { store(s, a[0], V((uint64_t)1), 8); return true; });
  reg({"__cxa_guard_abort"}, HND { return true; });
  reg({"__cxa_allocate_exception"}, HND { r = V(alloc(s, a[0].c + 64, 'h', 0, "exception")); return true; });
  reg({"__cxa_free_exception"}, HND { doFree(s, a[0]); return true; });
  reg({"__cxa_throw"}, HND {
    str t = tname(cast<Constant>(cb->getArgOperand(1)));
    s.excType[a[0].c] = t;
    unwind(s, a[0].c, t);
    return false;
  });
  reg({"__cxa_rethrow"}, HND {
    if (s.caught.empty()) fail(s, "abort", "rethrow without exception");
    auto c = s.caught.back();
    unwind(s, c.first, c.second);
    return false;
  });
  reg({"__cxa_begin_catch"}, HND { s.caught.push_back({a[0].c, s.excType[a[0].c]}); r = a[0]; return true; });
  reg({"__cxa_get_exception_ptr"}, HND { r = a[0]; return true; });
  reg({"__cxa_end_catch"}, HND { if (!s.caught.empty()) s.caught.pop_back(); return true; });
  struct { const char* f; const char* t; } th[] = {
      {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
      {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
      {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
      {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
      {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
      {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"__cxa_bad_cast", "_ZTISt8bad_cast"}, {"_ZSt20__throw_bad_weak_ptrv", "_ZTISt12bad_weak_ptr"}};
  for (auto& x : th) { str t = x.t; reg({x.f}, [this, t](State& s, KInst& k, CallBase* cb, A& a, V& r) -> bool { throwStd(s, t); return false; }); }
}

bool Engine::loadModule(const str& file) {
  SMDiagnostic d;
  M = parseIRFile(file, d, ctx);
  if (!M) { d.print("symex", errs()); return false; }
  DL = &M->getDataLayout();
  return true;
}
State* Engine::initial() {
  FREED_H = std::make_shared<Obj>();
  FREED_S = std::make_shared<Obj>();
  State* s = new State();
  s->mem.push_back(std::make_shared<Chunk>());
  uint64_t fa = FUNCBASE;
  for (auto& f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
  for (auto& g : M->globals()) {
    uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration() && n < 64) n = 64;
    gaddr[&g] = alloc(*s, n, g.isDeclaration() ? 'x' : 'g', 0, "global");
    if (g.getName() == "__libc_single_threaded") writeByte(getObjW(*s, gaddr[&g] >> SLOT), 0, V((uint64_t)1));
  }
  for (auto& g : M->globals()) {
    if (!g.hasInitializer()) continue;
    Obj* o = getObjW(*s, gaddr[&g] >> SLOT);
    initMem(*s, o, 0, g.getInitializer());
    o->ro = g.isConstant();
  }
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function*>> v;
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o.get());
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& p : v) s->pending.push_back(p.second);
  }
  Function* mf = M->getFunction("sym_main");
  if (!mf) { fprintf(stderr, "no sym_main\n"); exit(3); }
  s->pending.push_back(mf);
  return s;
}

// ---------------------------------------------------------------- JSON
static str esc(const str& s) {
  str r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template <class C> static str jlist(const C& c) { str r = "["; bool f = true; for (auto& x : c) { if (!f) r += ","; f = false; r += esc(x); } return r + "]"; }

static str toJson(Engine& g) {
  Stats& S = g.S;
  std::ostringstream o;
  for (auto& kv : g.kfuncs) {
    Function* f = kv.first;
    if (kv.second->calls == 0) continue;
    for (auto& b : *f) for (auto& i : b) {
      for (DILocation* L = i.getDebugLoc() ? i.getDebugLoc().get() : nullptr; L; L = L->getInlinedAt()) {
        DISubprogram* sp = L->getScope()->getSubprogram();
        if (!sp) continue;
        str fn = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (sp->getFilename().starts_with("/")) fn = sp->getFilename().str();
        if (fn.compare(0, g.srcPrefix.size(), g.srcPrefix) == 0)
          S.funcs.insert(llvm::demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()));
      }
    }
  }
  o << "{\"paths\":" << S.paths << ",\"completed\":" << S.completed << ",\"assumed_out\":" << S.assumedOut << ",\"exits\":" << S.exits
    << ",\"err_paths\":" << S.errPaths << ",\"instructions\":" << S.instrs << ",\"forks\":" << S.forks << ",\"asserts\":" << S.asserts
    << ",\"assert_queries\":" << S.assertQueries << ",\"mem_checks\":" << S.memChecks << ",\"max_path_instructions\":" << S.maxInstr
    << ",\"queries\":" << g.solver.st.queries << ",\"sat\":" << g.solver.st.sat << ",\"unsat\":" << g.solver.st.unsat << ",\"unknown\":" << g.solver.st.unknown
    << ",\"cache_hits\":" << g.solver.st.cacheHits << ",\"model_hits\":" << g.solver.st.modelHits << ",\"solver_s\":" << g.solver.st.time
    << ",\"max_query_s\":" << g.solver.st.maxTime << ",\"left\":" << S.left << ",\"labels\":" << jlist(S.labels) << ",\"incomplete\":" << jlist(S.incomplete)
    << ",\"functions\":" << jlist(S.funcs) << ",\"assert_sites\":{";
  bool first = true;
  for (auto& p : S.assertSites) { if (!first) o << ","; first = false; o << esc(p.first) << ":" << p.second; }
  o << "},\"errors\":[";
  first = true;
  for (auto& e : S.errors) {
    if (!first) o << ",";
    first = false;
    o << "{\"kind\":" << esc(e.kind) << ",\"msg\":" << esc(e.msg) << ",\"where\":" << esc(e.where) << ",\"trace\":" << esc(e.trace) << ",\"input\":" << esc(e.input) << ",\"obs\":" << esc(e.obs) << "}";
  }
  o << "],\"samples\":[";
  first = true;
  for (auto& e : S.samples) { if (!first) o << ","; first = false; o << "{\"input\":" << esc(e.input) << ",\"obs\":" << esc(e.obs) << "}"; }
  o << "]}";
  return o.str();
}

int main(int argc, char** argv) {
  Engine g;
  str in, out = "-";
  for (int i = 1; i < argc; i++) {
    str a = argv[i];
    auto nx = [&]() { return str(argv[++i]); };
    if (a == "--out") out = nx();
    else if (a == "--time") g.timeLimit = atof(nx().c_str());
    else if (a == "--max-instr") g.instrLimit = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") g.pathLimit = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-errors") g.maxErrors = atoi(nx().c_str());
    else if (a == "--samples") g.maxSamples = atoi(nx().c_str());
    else if (a == "--workers") g.workers = atoi(nx().c_str());
    else if (a == "--src") g.srcPrefix = nx();
    else if (a == "--fill") g.heapFill = strtoul(nx().c_str(), 0, 16);
    else in = a;
  }
  g.t0 = std::chrono::steady_clock::now();
  if (!g.loadModule(in)) return 3;
  g.setupHandlers();
  State* s = g.initial();
  g.work.push_back(s);
  auto dump = [&](const str& file) {
    std::ofstream f(file);
    f << toJson(g) << "\n";
  };
  if (g.workers <= 1) {
    g.explore(0);
    dump(out + ".0");
    return 0;
  }
  g.explore(g.workers * 24);
  std::vector<pid_t> pids;
  std::vector<State*> all(g.work.begin(), g.work.end());
  bool stop = g.S.errors.size() >= g.maxErrors;
  dump(out + ".0");
  if (all.empty() || stop) return 0;
  for (unsigned w = 0; w < g.workers; w++) {
    pid_t p = ::fork();
    if (p == 0) {
      Stats keep;
      g.S = Stats();
      g.solver.st = SolverStats();
      for (auto& kv : g.kfuncs) kv.second->calls = 0;
      g.work.clear();
      for (size_t i = 0; i < all.size(); i++) if (i % g.workers == w) g.work.push_back(all[i]);
      g.explore(0);
      dump(out + "." + std::to_string(w + 1));
      _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  return bad ? 4 : 0;
}
