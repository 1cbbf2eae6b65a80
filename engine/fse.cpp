// fse: bounded symbolic executor for LLVM IR (LLVM 18) with z3 back end.
//   fse MODULE.bc --entry FN [--param k=v] [--replace 'ns::fn<9ul>=hook'] ...
// Executes the entry function of a harness linked with the code under test,
// forking on symbolic branches, and decides every h_check with z3 or dumps it
// (algebraic sorts) for the deciders in ../lib.
#include "expr.h"
#include "solver.h"
#include <sys/resource.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace llvm;

static Pool P;
static Solver* SV;
static const DataLayout* DL;
static Module* M;

enum VK : uint8_t { V_UNDEF, V_EX, V_PTR, V_FN, V_AGG };
struct Val {
  VK kind = V_UNDEF;
  uint32_t obj = 0;
  Expr* e = nullptr; // expr or pointer offset
  const std::vector<Val>* agg = nullptr;
  Function* fn() const { return (Function*)agg; }
};
static Val VE(Expr* e) { Val v; v.kind = V_EX; v.e = e; return v; }
static Val VP(uint32_t o, Expr* off) { Val v; v.kind = V_PTR; v.obj = o; v.e = off; return v; }
static Val VFn(Function* f) { Val v; v.kind = V_FN; v.agg = (const std::vector<Val>*)f; return v; }
static Val VA(std::vector<Val> x) { Val v; v.kind = V_AGG; v.agg = new std::vector<Val>(std::move(x)); return v; }

struct Slot {
  Expr* e = nullptr;
  uint32_t obj = 0;
  VK kind = V_UNDEF;
  uint8_t size = 0, off = 0;
};
struct Obj {
  std::vector<Slot> b;
  uint64_t base;
  bool alive = true, ro = false;
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int reg; Val cv; };
struct DInst {
  Instruction* I;
  unsigned op;
  int dst;
  std::vector<Opnd> ops;
};
struct FnInfo {
  Function* F;
  std::string dem, base; // demangled function name with/without template args
  DenseMap<const Value*, int> idx;
  DenseMap<const BasicBlock*, int> bbix;
  std::vector<std::vector<DInst>> bbs;
  std::vector<BasicBlock*> bbp;
  int nregs = 0;
  int hookState = 0; // 0 unknown, 1 none, 2 replaced, 3 zq
  Function* hook = nullptr;
  int zq = 0;
};
struct Frame {
  FnInfo* fi;
  int bb = 0, ip = 0, prev = -1;
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
  int retReg = -1;
};
struct State {
  std::vector<Frame> fr;
  std::vector<ObjP> mem;
  std::vector<Expr*> pc;
  std::unordered_map<uint32_t, bool> lits;
  std::unordered_map<uint32_t, Expr*> bind;
  Model model;
  std::map<std::string, uint32_t> ctr;
  std::vector<std::string> trace;
  uint64_t nextBase = 0x100000;
  uint64_t steps = 0;
  bool pendingUndef = false;
  size_t harnessNext = 0; // two-phase runs: allocations of the harness so far
};

// ---------------------------------------------------------------- options
static std::map<std::string, uint64_t> params;
static std::map<std::string, std::string> replaces;
static std::set<std::string> zqoff;
static bool useZq = false, ieee = false, zexact = false, ubCheck = true, noDefer = false, deferAll = false;
static uint64_t maxPaths = 200000, maxSteps = 2000000000ull;
static double maxTime = 800;
static std::string outFile, dumpFile, entryFn;
static unsigned qTimeout = 20000;
static unsigned qQuick = 1500;
static auto T0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ---------------------------------------------------------------- results
struct PathEnd {
  std::string what;
};
struct Abort {
  std::string what;
}; // unsupported -> whole run inconclusive
struct Violation {
  std::string kind, msg, model;
};
static std::vector<Violation> viols;
static uint64_t nPaths = 0, nChecks = 0, nTriv = 0, nProved = 0, nDeferred = 0, nUnknown = 0, nInstr = 0, nForks = 0, nStopped = 0;
static std::map<std::string, uint64_t> covers;
static std::map<std::string, uint64_t> funcsRun;
static std::vector<std::string> errors;
static std::set<std::string> violSeen;
struct Dumped {
  uint64_t path;
  std::string kind, msg;
  Expr* cond;
  std::vector<Expr*> pc;
  Expr* a = nullptr;
  Expr* b = nullptr;
  std::string model;
};
static std::vector<Dumped> dumps;
static std::map<std::string, uint64_t> undefReads;

static std::string u128s(u128 v)
{
  std::string s;
  do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v);
  return s;
}
static std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static std::vector<Expr*> allVars; // VAR/FVAR/IVAR created by the harness API
static std::string modelJson(const Model& m, State* st)
{
  std::string s = "{";
  bool first = true;
  for (Expr* v : allVars) {
    if (v->sort == S_INT) continue;
    auto it = m.find(v->id);
    if (it == m.end()) {
      if (!(v->sort == S_BV && v->w <= 64 && v->ulo > 0)) continue;
    }
    u128 x = SV->leafVal(v, m);
    if (!first) s += ",";
    first = false;
    s += "\"" + jesc(P.names[(size_t)v->val]) + "\":\"" + u128s(x) + "\"";
  }
  if (st)
    for (auto& t : st->trace) {
      if (!first) s += ",";
      first = false;
      s += t;
    }
  return s + "}";
}

static uint64_t tysz(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t tyalloc(Type* t) { return DL->getTypeAllocSize(t).getFixedValue(); }

static std::unordered_map<const Function*, FnInfo*> fnCache;
static std::unordered_map<const GlobalVariable*, uint32_t> gObj;
static State base;

static uint32_t newObj(State& s, uint64_t sz, const std::string& nm)
{
  auto o = std::make_shared<Obj>();
  o->b.resize(sz);
  o->base = s.nextBase;
  o->name = nm;
  s.nextBase += (sz + 63 + 64) & ~63ull;
  s.mem.push_back(o);
  return s.mem.size() - 1;
}

static Val constVal(const Constant* c);
static Val zeroVal(Type* t)
{
  if (t->isIntegerTy()) return VE(P.C(0, t->getIntegerBitWidth()));
  if (t->isDoubleTy() || t->isFloatTy()) return VE(P.FC(0.0));
  if (t->isPointerTy()) return VP(0, P.C(0, 64));
  if (auto* st = dyn_cast<StructType>(t)) {
    std::vector<Val> v;
    for (auto* e : st->elements()) v.push_back(zeroVal(e));
    return VA(v);
  }
  if (auto* at = dyn_cast<ArrayType>(t)) return VA(std::vector<Val>(at->getNumElements(), zeroVal(at->getElementType())));
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return VA(std::vector<Val>(vt->getNumElements(), zeroVal(vt->getElementType())));
  std::string s;
  raw_string_ostream o(s);
  t->print(o);
  throw Abort{ "zero of type " + s };
}
static u128 apv(const APInt& a)
{
  u128 v = a.getRawData()[0];
  if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
  return v;
}
static Val constVal(const Constant* c)
{
  if (auto* ci = dyn_cast<ConstantInt>(c)) return VE(P.C(apv(ci->getValue()), ci->getBitWidth()));
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (cf->getType()->isDoubleTy()) return VE(P.FC(cf->getValueAPF().convertToDouble()));
    APFloat f = cf->getValueAPF();
    bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return VE(P.FC(f.convertToDouble()));
  }
  if (isa<ConstantPointerNull>(c)) return VP(0, P.C(0, 64));
  if (isa<UndefValue>(c)) { // includes poison
    Type* t = c->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      return VA(std::vector<Val>(n));
    }
    return Val();
  }
  if (isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
    return VA(v);
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> v;
    for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o.get())));
    return VA(v);
  }
  if (auto* f = dyn_cast<Function>(c)) return VFn(const_cast<Function*>(f));
  if (auto* g = dyn_cast<GlobalVariable>(c)) {
    auto it = gObj.find(g);
    if (it == gObj.end()) throw Abort{ "unknown global " + g->getName().str() };
    return VP(it->second, P.C(0, 64));
  }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* ge = dyn_cast<GEPOperator>(ce)) {
      Val b = constVal(cast<Constant>(ge->getPointerOperand()));
      APInt off(64, 0);
      if (ge->accumulateConstantOffset(*DL, off) && b.kind == V_PTR) return VP(b.obj, P.add(b.e, P.C(off.getZExtValue(), 64)));
      return b;
    }
    if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast)
      return constVal(ce->getOperand(0));
    if (ce->getOpcode() == Instruction::PtrToInt) {
      Val b = constVal(ce->getOperand(0));
      if (b.kind == V_PTR) return VE(P.add(b.e, P.C(b.obj ? base.mem[b.obj]->base : 0, 64)));
    }
    if (ce->getOpcode() == Instruction::Trunc) {
      Val b = constVal(ce->getOperand(0));
      return VE(P.trunc(b.e, ce->getType()->getIntegerBitWidth()));
    }
  }
  std::string s;
  raw_string_ostream o(s);
  c->print(o);
  throw Abort{ "constant " + s.substr(0, 200) };
}

// ---------------------------------------------------------------- memory
static void storeRaw(Obj& o, uint64_t off, const Val& v, Type* t);
static void storeScalar(Obj& o, uint64_t off, const Val& v, unsigned sz)
{
  for (unsigned i = 0; i < sz; i++) {
    Slot& s = o.b[off + i];
    s.e = v.e; s.obj = v.obj; s.kind = v.kind; s.size = sz; s.off = i;
    if (v.kind == V_FN) s.e = (Expr*)v.agg;
  }
}
static Expr* slotByte(const Slot& s)
{
  if (s.kind == V_EX) {
    Expr* e = s.e;
    if (e->sort == S_FP && s.size == 4) {
      if (!e->isFC()) throw Abort{ "byte access to a float" };
      float f = (float)Pool::fcv(e);
      uint32_t u;
      memcpy(&u, &f, 4);
      return P.C((u >> (8 * s.off)) & 0xff, 8);
    }
    if (e->sort == S_FP) e = e->isFC() ? P.C(e->val, 64) : P.mk(O_FBITS, S_BV, 64, 0, 0, { e });
    if (e->sort == S_INT) throw Abort{ "byte access to an integer object" };
    if (e->w < s.size * 8u) e = P.zext(e, s.size * 8);
    return P.extract(e, s.off * 8, 8);
  }
  if (s.kind == V_PTR) {
    Expr* a = P.add(s.e, P.C(s.obj ? base.mem.size() > s.obj && base.mem[s.obj] ? base.mem[s.obj]->base : 0x7000000000ull + ((uint64_t)s.obj << 20) : 0, 64));
    return P.extract(a, s.off * 8, 8);
  }
  throw Abort{ "byte access to function pointer" };
}
static uint64_t undefCnt = 0;
static Expr* freshUndef(unsigned w, const std::string& why)
{
  undefReads[why]++;
  Expr* e = P.var("undef#" + std::to_string(undefCnt++), w);
  return e;
}
static std::string curWhere;
static Val toVal(Expr* bits, Type* t)
{
  if (t->isFloatTy()) {
    if (!bits->isC()) throw Abort{ "float from bits" };
    uint32_t u = (uint32_t)bits->val;
    float f;
    memcpy(&f, &u, 4);
    return VE(P.FC((double)f));
  }
  if (t->isDoubleTy()) {
    if (bits->isC()) return VE(P.mk(O_FCONST, S_FP, 64, 0, bits->val, {}));
    if (bits->op == O_FBITS) return VE(bits->k[0]);
    return VE(P.mk(O_BITS2F, S_FP, 64, 0, 0, { bits }));
  }
  if (t->isPointerTy()) {
    if (bits->isC() && bits->val == 0) return VP(0, P.C(0, 64));
    throw Abort{ "load of pointer from integer bytes" };
  }
  return VE(P.trunc(bits, t->getIntegerBitWidth()));
}
static Val loadRaw(const Obj& o, uint64_t off, Type* t)
{
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    std::vector<Val> v;
    for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadRaw(o, off + sl->getElementOffset(i), st->getElementType(i)));
    return VA(v);
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> v;
    uint64_t es = tyalloc(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadRaw(o, off + i * es, at->getElementType()));
    return VA(v);
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Val> v;
    uint64_t es = tyalloc(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadRaw(o, off + i * es, vt->getElementType()));
    return VA(v);
  }
  unsigned sz = tysz(t);
  const Slot& s = o.b[off];
  if (s.kind != V_UNDEF && s.off == 0 && s.size == sz) {
    bool whole = true;
    for (unsigned i = 1; i < sz && whole; i++) {
      const Slot& q = o.b[off + i];
      whole = q.e == s.e && q.obj == s.obj && q.kind == s.kind && q.off == i && q.size == sz;
    }
    if (whole) {
      if (s.kind == V_PTR) {
        if (t->isPointerTy()) return VP(s.obj, s.e);
      } else if (s.kind == V_FN) {
        return VFn((Function*)s.e);
      } else if (s.kind == V_EX) {
        if (s.e->sort == S_FP && (t->isDoubleTy() || t->isFloatTy())) return VE(s.e);
        if (s.e->sort == S_INT) {
          if (t->isIntegerTy(64)) return VE(s.e);
          throw Abort{ "odd access to integer object" };
        }
        if (s.e->sort == S_BV && t->isIntegerTy()) {
          unsigned w = t->getIntegerBitWidth();
          if (s.e->w == w) return VE(s.e);
          if (s.e->w > w) return VE(P.trunc(s.e, w));
          return VE(P.zext(s.e, w));
        }
      }
    }
  }
  bool any = false, all = true;
  for (unsigned i = 0; i < sz; i++) {
    if (o.b[off + i].kind != V_UNDEF) any = true; else all = false;
  }
  if (!any) return Val(); // fully undefined: materialised on use
  Expr* bits = nullptr;
  for (unsigned i = 0; i < sz; i++) {
    const Slot& q = o.b[off + i];
    Expr* by = q.kind == V_UNDEF ? freshUndef(8, "partial load of " + o.name + " in " + curWhere) : slotByte(q);
    bits = bits ? P.concat(by, bits) : by;
  }
  (void)all;
  return toVal(bits, t);
}
static void storeRaw(Obj& o, uint64_t off, const Val& v, Type* t)
{
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      storeRaw(o, off + sl->getElementOffset(i), v.kind == V_AGG ? (*v.agg)[i] : Val(), st->getElementType(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t es = tyalloc(et);
    for (unsigned i = 0; i < n; i++) storeRaw(o, off + i * es, v.kind == V_AGG ? (*v.agg)[i] : Val(), et);
    return;
  }
  unsigned sz = tysz(t);
  if (v.kind == V_UNDEF) {
    for (unsigned i = 0; i < sz; i++) o.b[off + i] = Slot();
    return;
  }
  storeScalar(o, off, v, sz);
}
static Obj& wobj(State& s, uint32_t id)
{
  ObjP& p = s.mem[id];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}

// ---------------------------------------------------------------- executor
static std::vector<State*> worklist;
static State* S; // current

static uint64_t nViol = 0;
static double firstViol = 0;
static bool enough() { return nViol && (viols.size() >= 10 || nViol >= 200 || now() > firstViol + 30); }
static void record(State& s, const std::string& kind, const std::string& msg, const Model& m)
{
  std::string key = kind + "|" + msg;
  if (!nViol++) firstViol = now();
  if (violSeen.size() > 40 || violSeen.count(key)) return;
  violSeen.insert(key);
  viols.push_back({ kind, msg, modelJson(m, &s) });
}
// constraints of pc sharing (transitively) leaves with the seeds
static std::vector<Expr*> slice(State& s, Expr* seed)
{
  std::unordered_set<Expr*> lv;
  for (Expr* l : SV->leaves(seed)) lv.insert(l);
  std::vector<Expr*> out{ seed };
  std::vector<char> used(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (Expr* l : SV->leaves(s.pc[i])) if (lv.count(l)) { hit = true; break; }
      if (hit) {
        used[i] = 1;
        ch = true;
        out.push_back(s.pc[i]);
        for (Expr* l : SV->leaves(s.pc[i])) lv.insert(l);
      }
    }
  }
  return out;
}
static void addBind(State& s, Expr* e, Expr* c)
{
  // e == c (constant); derive bindings of inner terms
  for (int i = 0; i < 8; i++) {
    if (e->isC()) return;
    s.bind[e->id] = c;
    if (e->op == O_ZEXT) { c = P.C(c->val, e->k[0]->w); e = e->k[0]; continue; }
    if (e->op == O_SEXT) { c = P.C(c->val, e->k[0]->w); e = e->k[0]; continue; }
    if (e->op == O_ADD && e->k[1]->isC()) { c = P.C(c->val - e->k[1]->val, e->w); e = e->k[0]; continue; }
    if (e->op == O_CONCAT) { addBind(s, e->k[0], P.C(c->val >> e->k[1]->w, e->k[0]->w)); c = P.C(c->val, e->k[1]->w); e = e->k[1]; continue; }
    return;
  }
}
// conjuncts of a 1-bit formula
static void conj(Expr* root, bool rp, std::vector<Expr*>& out)
{
  std::vector<std::pair<Expr*, bool>> st{ { root, rp } };
  std::unordered_set<uint64_t> seen;
  while (!st.empty()) {
    auto [e, p] = st.back();
    st.pop_back();
    if (!seen.insert((uint64_t)e->id * 2 + p).second) continue;
    if (e->w == 1 && e->op == O_XOR && e->k[1]->isC()) { st.push_back({ e->k[0], !p }); continue; }
    if (e->w == 1 && e->op == (p ? O_AND : O_OR)) { st.push_back({ e->k[1], p }); st.push_back({ e->k[0], p }); continue; }
    out.push_back(p ? e : P.Not(e));
  }
}
static void addPC(State& s, Expr* c0)
{
  if (c0->isC()) return;
  s.lits[c0->id] = true;
  s.lits[P.Not(c0)->id] = false;
  std::vector<Expr*> cs;
  conj(c0, true, cs);
  for (Expr* c : cs) {
    if (c->isC() && c->val) continue;
    s.pc.push_back(c);
    s.lits[c->id] = true;
    s.lits[P.Not(c)->id] = false;
    if (c->op == O_EQ && c->k[1]->isC()) addBind(s, c->k[0], c->k[1]);
  }
}
static Expr* substBind(State& s, Expr* root)
{
  if (s.bind.empty() || root->isC()) return root;
  std::unordered_map<uint32_t, Expr*> memo;
  std::function<Expr*(Expr*, int)> go = [&](Expr* e, int d) -> Expr* {
    if (e->op == O_CONST || e->sort != S_BV) return e;
    auto b = s.bind.find(e->id);
    if (b != s.bind.end()) return b->second;
    if (!e->nk || d > 60 || SV->leaf(e)) return e;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    std::vector<Expr*> k(e->nk);
    bool ch = false;
    for (unsigned i = 0; i < e->nk; i++) { k[i] = go(e->k[i], d + 1); ch |= k[i] != e->k[i]; }
    Expr* r = ch ? P.rebuild(e, k.data()) : e;
    memo[e->id] = r;
    return r;
  };
  return go(root, 0);
}
// replaces sub-formulas whose truth value is known on the path
template<class L> static Expr* substLitsM(const L& lits, Expr* root)
{
  if (lits.empty() || root->isC() || root->w != 1 || root->sort != S_BV) return root;
  std::unordered_map<uint32_t, Expr*> memo;
  std::function<Expr*(Expr*)> go = [&](Expr* e) -> Expr* {
    if (e->isC() || e->w != 1) return e;
    auto l = lits.find(e->id);
    if (l != lits.end()) return P.B(l->second);
    if (e->op != O_AND && e->op != O_OR && e->op != O_XOR && e->op != O_ITE) return e;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    Expr* k[3];
    bool ch = false;
    for (unsigned i = 0; i < e->nk; i++) { k[i] = go(e->k[i]); ch |= k[i] != e->k[i]; }
    Expr* r = ch ? P.rebuild(e, k) : e;
    memo[e->id] = r;
    return r;
  };
  return go(root);
}
static Expr* substLits(State& s, Expr* root) { return substLitsM(s.lits, root); }
static Res feas(State& s, Expr* extra, Model* m)
{
  if (!extra->isC()) extra = substLits(s, extra);
  if (extra->isC()) return extra->val ? R_SAT : R_UNSAT;
  auto it = s.lits.find(extra->id);
  if (it != s.lits.end() && !it->second) return R_UNSAT;
  { // a long disjunction: one satisfiable alternative is enough
    std::vector<Expr*> ds;
    conj(P.Not(extra), true, ds);
    if (ds.size() > 8)
      for (size_t i : { (size_t)0, ds.size() - 1, ds.size() / 2, ds.size() / 3 })
        if (feas(s, P.Not(ds[i]), m) == R_SAT) return R_SAT;
  }
  std::vector<Expr*> sl = slice(s, extra), cs;
  conj(extra, true, cs);
  if (cs.size() > 1) { // simplify the path formulas with the new literals
    std::unordered_map<uint32_t, bool> l;
    for (Expr* x : cs) { l[x->id] = true; l[P.Not(x)->id] = false; }
    std::vector<Expr*> o(cs);
    for (size_t i = 1; i < sl.size(); i++) {
      Expr* x = substLitsM(l, sl[i]);
      if (x->isC()) { if (x->val) continue; return R_UNSAT; }
      o.push_back(x);
    }
    sl.swap(o);
  }
  return SV->check(sl, m);
}
static void mergeModel(Model& dst, const Model& src) { for (auto& kv : src) dst[kv.first] = kv.second; }
static bool useWitness(State&) { return true; }

static State* cloneState(State& s)
{
  nForks++;
  return new State(s);
}
// decide a branch condition; forks the state if both sides are feasible.
static bool decide(Expr* c)
{
  if (c->isC()) return c->val != 0;
  State& s = *S;
  auto it = s.lits.find(c->id);
  if (it != s.lits.end()) return it->second;
  Expr* c2 = substLits(s, substBind(s, c));
  if (c2->isC()) return c2->val != 0;
  bool w = SV->eval(c, s.model) != 0;
  Model m;
  Expr* other = w ? P.Not(c) : c;
  Res r = feas(s, other, &m);
  if (r == R_UNSAT) {
    s.lits[c->id] = w;
    s.lits[P.Not(c)->id] = !w;
    return w;
  }
  if (r == R_UNKNOWN) nUnknown++;
  State* n = cloneState(s);
  mergeModel(n->model, m);
  addPC(*n, other);
  // the clone re-executes the current instruction; it will find the literal
  worklist.push_back(n);
  addPC(s, w ? c : P.Not(c));
  return w;
}
// force a concrete value (forks over the feasible values)
static u128 concretise(Expr* e, unsigned limit = 4096)
{
  if (e->isC()) return e->val;
  State& s = *S;
  Expr* e2 = substBind(s, e);
  if (e2->isC()) return e2->val;
  (void)limit;
  { // prefer to fix the small inner term the value is computed from
    Expr* t = e2;
    for (;;) {
      Expr* nx = nullptr;
      if (t->op == O_ADD || t->op == O_ZEXT || t->op == O_SEXT || t->op == O_EXTRACT || t->op == O_CONCAT)
        for (unsigned i = 0; i < t->nk; i++)
          if (!t->k[i]->isC() && t->k[i]->w <= 64 && t->k[i]->uhi - t->k[i]->ulo <= 64) { nx = t->k[i]; break; }
      if (!nx) break;
      t = nx;
    }
    if (t != e2) {
      concretise(t, limit);
      Expr* e3 = substBind(s, e);
      if (e3 != e2) return concretise(e, limit);
    }
  }
  u128 v = SV->eval(e2, s.model);
  Expr* c = P.eq(e2, P.C(v, e2->w));
  if (c->isC()) return v;
  auto it = s.lits.find(c->id);
  if (it != s.lits.end() && it->second) return v;
  Model m;
  Expr* ne = P.Not(c);
  Res r = feas(s, ne, &m);
  if (r != R_UNSAT) {
    State* n = cloneState(s);
    mergeModel(n->model, m);
    addPC(*n, ne);
    worklist.push_back(n);
  }
  addPC(s, c);
  addBind(s, e, P.C(v, e->w));
  return v;
}

static Val& reg(int i) { return S->fr.back().r[i]; }
static Val getOp(const Opnd& o) { return o.reg >= 0 ? S->fr.back().r[o.reg] : o.cv; }
static Expr* ex(const Val& v, Type* t, const char* why = "")
{
  if (v.kind == V_EX) return v.e;
  if (v.kind == V_UNDEF) {
    if (t->isFloatTy()) { undefReads[curWhere]++; return P.f1(O_F32, P.fvar("undef#" + std::to_string(undefCnt++))); }
    if (t->isDoubleTy()) { undefReads[curWhere]++; Expr* e = P.fvar("undef#" + std::to_string(undefCnt++)); return e; }
    if (t->isIntegerTy()) return freshUndef(t->getIntegerBitWidth(), curWhere);
  }
  if (v.kind == V_PTR && t->isPointerTy()) return P.add(v.e, P.C(v.obj ? S->mem[v.obj]->base : 0, 64));
  throw Abort{ std::string("expected scalar ") + why + " in " + curWhere };
}
static Expr* exOp(const DInst& d, int i)
{
  Val v = getOp(d.ops[i]);
  if (v.kind == V_UNDEF && d.ops[i].reg >= 0) { // pin the undefined value
    Expr* e = ex(v, d.I->getOperand(i)->getType());
    reg(d.ops[i].reg) = VE(e);
    return e;
  }
  return ex(v, d.I->getOperand(i)->getType());
}
static void fail(const std::string& kind, const std::string& msg)
{
  // reached under the current path condition
  nChecks++;
  record(*S, kind, msg + " in " + curWhere, S->model);
  throw PathEnd{ "violation" };
}
// the condition must hold on this path
static void mustHold(Expr* c, const std::string& kind, const std::string& msg)
{
  nChecks++;
  if (c->isC() && c->val) { nTriv++; return; }
  State& s = *S;
  auto it = s.lits.find(c->id);
  if (it != s.lits.end() && it->second) { nProved++; return; }
  {
    std::vector<Expr*> cs;
    conj(substLits(s, c), true, cs);
    if (cs.size() > 1) {
      nChecks--;
      for (Expr* x : cs) mustHold(x, kind, msg);
      return;
    }
  }
  Model m;
  Expr* n = P.Not(c);
  Res r = n->isC() ? R_SAT : feas(s, n, &m);
  if (r == R_UNSAT) { nProved++; return; }
  if (r == R_SAT) {
    Model full = s.model;
    mergeModel(full, m);
    record(s, kind, msg, full);
    return;
  }
  nUnknown++;
  nDeferred++;
  Dumped d;
  d.path = nPaths; d.kind = kind; d.msg = msg; d.cond = c; d.pc = s.pc;
  d.model = modelJson(s.model, &s);
  dumps.push_back(d);
}

// small over-approximation of the values a term can take (false: too many)
static bool valSet(Expr* e, std::set<u128>& out, int depth = 0)
{
  if (e->isC()) { out.insert(e->val); return true; }
  if (depth > 12) return false;
  if (e->w <= 64 && e->uhi - e->ulo < 16) {
    for (i128 v = e->ulo; v <= e->uhi; v++) out.insert((u128)v);
    return true;
  }
  std::set<u128> a, b;
  auto comb = [&](auto f) {
    if (!valSet(e->k[0], a, depth + 1) || !valSet(e->k[1], b, depth + 1) || a.size() * b.size() > 4096) return false;
    for (u128 x : a) for (u128 y : b) out.insert(f(x, y) & maskw(e->w));
    return out.size() <= 256;
  };
  auto un = [&](auto f) {
    if (!valSet(e->k[0], a, depth + 1)) return false;
    for (u128 x : a) out.insert(f(x) & maskw(e->w));
    return true;
  };
  switch (e->op) {
    case O_ADD: return comb([](u128 x, u128 y) { return x + y; });
    case O_SUB: return comb([](u128 x, u128 y) { return x - y; });
    case O_MUL: return comb([](u128 x, u128 y) { return x * y; });
    case O_AND: return comb([](u128 x, u128 y) { return x & y; });
    case O_OR: return comb([](u128 x, u128 y) { return x | y; });
    case O_XOR: return comb([](u128 x, u128 y) { return x ^ y; });
    case O_SHL: return e->k[1]->isC() && e->k[1]->val < e->w && un([&](u128 x) { return x << (unsigned)e->k[1]->val; });
    case O_LSHR: return e->k[1]->isC() && e->k[1]->val < e->w && un([&](u128 x) { return x >> (unsigned)e->k[1]->val; });
    case O_ZEXT: return un([](u128 x) { return x; });
    case O_SEXT: return un([&](u128 x) { return (u128)sgn(x, e->k[0]->w); });
    case O_EXTRACT: return un([&](u128 x) { return x >> e->aux; });
    case O_CONCAT: return comb([&](u128 x, u128 y) { return (x << e->k[1]->w) | y; });
    case O_ITE:
      if (!valSet(e->k[1], out, depth + 1) || !valSet(e->k[2], out, depth + 1)) return false;
      return out.size() <= 256;
    default: return false;
  }
}
static void checkAccess(const Val& p, uint64_t sz, bool wr, uint64_t& off, bool& conc)
{
  if (p.kind != V_PTR) throw Abort{ "access through non-pointer in " + curWhere };
  if (p.obj == 0) fail("memory", "null pointer access");
  const Obj& o = *S->mem[p.obj];
  if (!o.alive) fail("memory", "access to dead object " + o.name);
  if (wr && o.ro) fail("memory", "write to constant " + o.name);
  conc = p.e->isC();
  if (conc) {
    off = (uint64_t)p.e->val;
    if (off > o.b.size() || sz > o.b.size() - off)
      fail("memory", std::string(wr ? "out-of-bounds write" : "out-of-bounds read") + " of " + std::to_string(sz) + " byte(s) at offset " + std::to_string((int64_t)off) + " of " + o.name + "[" + std::to_string(o.b.size()) + "]");
  }
}
static Val doLoad(const Val& p, Type* t)
{
  uint64_t off, sz = tysz(t);
  bool conc;
  checkAccess(p, sz, false, off, conc);
  const ObjP op = S->mem[p.obj];
  if (conc) return loadRaw(*op, off, t);
  Expr* e = substBind(*S, p.e);
  if (e->isC()) return doLoad(VP(p.obj, e), t);
  Expr* inb = P.ule(e, P.C(op->b.size() - sz, 64));
  if (op->b.size() < sz) inb = P.F();
  std::set<u128> vs;
  bool small = valSet(e, vs), inside = small;
  for (u128 v : vs) if (op->b.size() < sz || v > op->b.size() - sz) inside = false;
  if (inside) { nChecks++; nTriv++; inb = P.T(); }
  else mustHold(inb, "memory", "out-of-bounds read of " + op->name + " in " + curWhere);
  if (!inb->isC() && S->lits.find(inb->id) == S->lits.end()) {
    Model m;
    if (feas(*S, inb, &m) == R_UNSAT) throw PathEnd{ "infeasible" };
    mergeModel(S->model, m);
    addPC(*S, inb);
  }
  // enumerate feasible offsets
  std::vector<uint64_t> offs;
  if (small && vs.size() <= 128) {
    for (u128 v : vs) if (v <= op->b.size() - sz) offs.push_back((uint64_t)v);
  }
  bool have = !offs.empty();
  Expr* rest = P.T();
  Model cur = S->model;
  bool firstUseWitness = true;
  while (!have && offs.size() <= 130) {
    Model m;
    u128 v;
    if (firstUseWitness) { v = SV->eval(e, S->model); firstUseWitness = false; }
    else {
      Res r = feas(*S, rest, &m);
      if (r == R_UNSAT) break;
      Model full = S->model;
      mergeModel(full, m);
      v = SV->eval(e, full);
    }
    offs.push_back((uint64_t)v);
    Expr* ne = P.Not(P.eq(e, P.C(v, 64)));
    rest = P.and_(rest, ne);
  }
  bool scalar = t->isIntegerTy() || t->isDoubleTy() || t->isFloatTy();
  if (offs.size() > 128 || !scalar) {
    u128 v = concretise(p.e);
    return doLoad(VP(p.obj, P.C(v, 64)), t);
  }
  if (offs.size() == 1) return doLoad(VP(p.obj, P.C(offs[0], 64)), t);
  Val acc;
  for (size_t i = 0; i < offs.size(); i++) {
    if (offs[i] + sz > op->b.size()) continue;
    Val v = loadRaw(*op, offs[i], t);
    Expr* x = ex(v, t);
    if (acc.kind == V_UNDEF) acc = VE(x);
    else acc = VE(P.ite(P.eq(e, P.C(offs[i], 64)), x, acc.e));
  }
  return acc;
}
static void doStore(const Val& p, const Val& v, Type* t)
{
  uint64_t off, sz = tysz(t);
  bool conc;
  checkAccess(p, sz, true, off, conc);
  if (!conc) {
    Expr* e = substBind(*S, p.e);
    const ObjP op = S->mem[p.obj];
    if (!e->isC()) {
      Expr* inb = op->b.size() < sz ? P.F() : P.ule(e, P.C(op->b.size() - sz, 64));
      mustHold(inb, "memory", "out-of-bounds write of " + op->name + " in " + curWhere);
      if (!inb->isC() && S->lits.find(inb->id) == S->lits.end()) {
        Model m;
        if (feas(*S, inb, &m) == R_UNSAT) throw PathEnd{ "infeasible" };
        mergeModel(S->model, m);
        addPC(*S, inb);
      }
    }
    // small objects: ITE store over all aligned offsets; otherwise fork
    u128 cv = concretise(p.e);
    off = (uint64_t)cv;
    if (off > op->b.size() || sz > op->b.size() - off) throw PathEnd{ "oob" };
  }
  storeRaw(wobj(*S, p.obj), off, v, t);
}
static void copyBytes(const Val& dst, const Val& src, uint64_t n)
{
  if (!n) return;
  uint64_t so, d;
  bool c1, c2;
  Val sv = src, dv = dst;
  if (sv.kind == V_PTR && !sv.e->isC()) sv.e = P.C(concretise(sv.e), 64);
  if (dv.kind == V_PTR && !dv.e->isC()) dv.e = P.C(concretise(dv.e), 64);
  checkAccess(sv, n, false, so, c1);
  checkAccess(dv, n, true, d, c2);
  std::vector<Slot> tmp(S->mem[sv.obj]->b.begin() + so, S->mem[sv.obj]->b.begin() + so + n);
  Obj& o = wobj(*S, dv.obj);
  std::copy(tmp.begin(), tmp.end(), o.b.begin() + d);
}
static void setBytes(const Val& dst, Expr* by, uint64_t n)
{
  if (!n) return;
  uint64_t d;
  bool c;
  Val dv = dst;
  if (dv.kind == V_PTR && !dv.e->isC()) dv.e = P.C(concretise(dv.e), 64);
  checkAccess(dv, n, true, d, c);
  Obj& o = wobj(*S, dv.obj);
  for (uint64_t i = 0; i < n; i++) storeScalar(o, d + i, VE(by), 1);
}
static std::string cstr(const Val& p)
{
  std::string s;
  if (p.kind != V_PTR || !p.e->isC()) throw Abort{ "string argument" };
  const Obj& o = *S->mem[p.obj];
  for (uint64_t i = (uint64_t)p.e->val; i < o.b.size(); i++) {
    const Slot& sl = o.b[i];
    if (sl.kind != V_EX || !sl.e->isC()) throw Abort{ "symbolic string" };
    char ch = (char)(sl.e->val >> (8 * sl.off));
    if (!ch) break;
    s += ch;
  }
  return s;
}

// ---------------------------------------------------------------- functions
static std::string fnName(const Function* F, bool withArgs)
{
  std::string mg = F->getName().str();
  ItaniumPartialDemangler D;
  std::string out = mg;
  if (!D.partialDemangle(mg.c_str())) {
    size_t n = 0;
    char* b = D.getFunctionName(nullptr, &n);
    if (b) { out = b; free(b); }
  }
  if (!withArgs && !out.empty() && out.back() == '>' && out.find("operator>") == std::string::npos) {
    int dep = 0;
    for (size_t i = out.size(); i-- > 0;) {
      if (out[i] == '>') dep++;
      if (out[i] == '<' && --dep == 0) { out.resize(i); break; }
    }
  }
  return out;
}
static FnInfo* info(Function* F)
{
  auto it = fnCache.find(F);
  if (it != fnCache.end()) return it->second;
  FnInfo* fi = new FnInfo;
  fnCache[F] = fi;
  fi->F = F;
  fi->dem = fnName(F, true);
  fi->base = fnName(F, false);
  int n = 0;
  for (auto& a : F->args()) fi->idx[&a] = n++;
  for (auto& bb : *F) {
    fi->bbix[&bb] = fi->bbp.size();
    fi->bbp.push_back(&bb);
    for (auto& I : bb)
      if (!I.getType()->isVoidTy()) fi->idx[&I] = n++;
  }
  fi->nregs = n;
  fi->bbs.resize(fi->bbp.size());
  for (size_t b = 0; b < fi->bbp.size(); b++)
    for (auto& I : *fi->bbp[b]) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DInst d;
      d.I = &I;
      d.op = I.getOpcode();
      d.dst = I.getType()->isVoidTy() ? -1 : fi->idx[&I];
      for (auto& o : I.operands()) {
        Opnd q;
        q.reg = -1;
        Value* v = o.get();
        if (auto* c = dyn_cast<Constant>(v)) {
          q.cv = constVal(c);
        } else if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
        } else
          q.reg = fi->idx[v];
        d.ops.push_back(q);
      }
      fi->bbs[b].push_back(std::move(d));
    }
  return fi;
}
enum { Z_NONE, Z_ADD, Z_SUB, Z_NEG, Z_MUL, Z_ADDA, Z_SUBA, Z_MULA, Z_INV, Z_DIV };
static void hooks(FnInfo* fi)
{
  fi->hookState = 1;
  const std::string full = demangle(fi->F->getName().str()); // with parameter types
  for (const std::string* nm : std::initializer_list<const std::string*>{ &full, &fi->dem, &fi->base }) {
    auto it = replaces.find(*nm);
    if (it != replaces.end()) {
      Function* h = M->getFunction(it->second);
      if (!h) throw Abort{ "no hook " + it->second };
      fi->hookState = 2;
      fi->hook = h;
      return;
    }
  }
  if (useZq) {
    const std::string& d = fi->dem;
    size_t p = d.find("operator");
    std::string cls = d.substr(0, p == std::string::npos ? d.rfind("::") == std::string::npos ? 0 : d.rfind("::") : p);
    std::string on = d.substr(cls.size());
    if (on.rfind("::", 0) == 0) on = on.substr(2);
    if (zqoff.count(on)) return;
    if (cls == "ff::ff_t::" || cls == "ff::" || cls == "ff::ff_t") {
      unsigned na = fi->F->arg_size();
      if (on == "operator+" && na == 2) fi->zq = Z_ADD;
      else if (on == "operator-" && na == 2) fi->zq = Z_SUB;
      else if (on == "operator-" && na == 1) fi->zq = Z_NEG;
      else if (on == "operator*" && na == 2) fi->zq = Z_MUL;
      else if (on == "operator/" && na == 2) fi->zq = Z_DIV;
      else if (on == "operator+=" && na == 2) fi->zq = Z_ADDA;
      else if (on == "operator-=" && na == 2) fi->zq = Z_SUBA;
      else if (on == "operator*=" && na == 2) fi->zq = Z_MULA;
      else if (on == "inv" && na == 1) fi->zq = Z_INV;
      if (fi->zq) fi->hookState = 3;
    }
  }
}
static std::unordered_map<uint32_t, char> canonMemo;
static bool canonical(Expr* e)
{
  if (e->w != 16) return false;
  if (e->uhi < QMOD) return true;
  auto it = canonMemo.find(e->id);
  if (it != canonMemo.end() && it->second) return true;
  bool r = feas(*S, P.ule(P.C(QMOD, 16), e), nullptr) == R_UNSAT;
  if (r && S->pc.empty()) canonMemo[e->id] = 1;
  return r;
}
static bool tryZq(FnInfo* fi, const std::vector<Val>& a, Val& ret)
{
  auto ld = [&](const Val& v) -> Expr* {
    if (v.kind == V_PTR) {
      uint64_t off;
      bool c;
      if (!v.e->isC()) {
        Val x = doLoad(v, Type::getInt16Ty(M->getContext()));
        return x.kind == V_EX ? x.e : nullptr;
      }
      checkAccess(v, 2, false, off, c);
      Val x = loadRaw(*S->mem[v.obj], off, Type::getInt16Ty(M->getContext()));
      return x.kind == V_EX ? x.e : nullptr;
    }
    if (v.kind == V_EX && v.e->sort == S_BV && v.e->w == 16) return v.e;
    return nullptr;
  };
  Expr* x = ld(a[0]);
  Expr* y = a.size() > 1 ? ld(a[1]) : nullptr;
  if (!x || (a.size() > 1 && !y)) return false;
  if (!canonical(x) || (y && !canonical(y))) return false;
  if (x->isC() && (!y || y->isC())) return false; // concrete: run the real code
  Expr* r = nullptr;
  switch (fi->zq) {
    case Z_ADD: case Z_ADDA: r = P.zq(O_ZADD, x, y); break;
    case Z_SUB: case Z_SUBA: r = P.zq(O_ZSUB, x, y); break;
    case Z_MUL: case Z_MULA: r = P.zq(O_ZMUL, x, y); break;
    case Z_NEG: r = P.zq(O_ZNEG, x); break;
    case Z_INV: r = P.zq(O_ZINV, x); break;
    case Z_DIV: r = P.zq(O_ZMUL, x, P.zq(O_ZINV, y)); break;
  }
  bool compound = fi->zq == Z_ADDA || fi->zq == Z_SUBA || fi->zq == Z_MULA;
  if (compound) {
    if (a[0].kind != V_PTR) return false;
    uint64_t off;
    bool c;
    checkAccess(a[0], 2, true, off, c);
    storeScalar(wobj(*S, a[0].obj), off, VE(r), 2);
    if (fi->F->getReturnType()->isPointerTy()) ret = a[0];
  } else {
    Type* rt = fi->F->getReturnType();
    if (rt->isIntegerTy(16)) ret = VE(r);
    else if (rt->isStructTy()) ret = VA({ VE(r) });
    else return false;
  }
  return true;
}

static std::string idxName(const std::string& n, uint64_t i) { return n + "[" + std::to_string(i) + "]"; }
static Expr* declVar(const std::string& nm, unsigned w, bool ranged, i128 lo, i128 hi, bool sg)
{
  Expr* v = P.var(nm, w);
  if (std::find(allVars.begin(), allVars.end(), v) == allVars.end()) {
    if (ranged && w <= 64) {
      if (sg) { v->slo = lo; v->shi = hi; } else { v->ulo = lo; v->uhi = hi; }
      Pool::cross(v);
    }
    allVars.push_back(v);
  }
  return v;
}
static std::unordered_set<uint32_t> varSeen;
static Expr* declVar2(const std::string& nm, unsigned w, bool ranged, i128 lo, i128 hi, bool sg)
{
  Expr* v = P.var(nm, w);
  if (varSeen.insert(v->id).second) {
    if (ranged && w <= 64) {
      if (sg) { v->slo = lo; v->shi = hi; } else { v->ulo = lo; v->uhi = hi; }
      Pool::cross(v);
    }
    allVars.push_back(v);
  }
  return v;
}
static Expr* asBV(const Val& v, unsigned w)
{
  if (v.kind == V_EX && v.e->sort == S_BV) return v.e->w == w ? v.e : v.e->w > w ? P.trunc(v.e, w) : P.zext(v.e, w);
  if (v.kind == V_UNDEF) return freshUndef(w, curWhere);
  throw Abort{ "expected integer argument in " + curWhere };
}
static uint64_t cint(const Val& v)
{
  Expr* e = asBV(v, 64);
  return (uint64_t)concretise(e);
}
static void defer(const std::string& kind, const std::string& msg, Expr* c, Expr* a, Expr* b)
{
  nChecks++;
  if (c && c->isC() && c->val) { nTriv++; return; }
  if (a && a == b) { nTriv++; return; }
  nDeferred++;
  Dumped d;
  d.path = nPaths; d.kind = kind; d.msg = msg; d.cond = c; d.pc = S->pc; d.a = a; d.b = b;
  d.model = modelJson(S->model, S);
  dumps.push_back(d);
}
static Val boolVal(Expr* c, Type* t) { return VE(t->isIntegerTy(1) ? c : P.zext(c, t->getIntegerBitWidth())); }

struct OutRec { uint64_t path; std::string name; uint64_t idx; Expr* e; };
static std::vector<OutRec> outRecs;

// ---- phase 1 of a two-phase run: every harness value is a constant (the same as in native.cpp)
static bool phase1 = false;
static int nPhase = 0;
static uint64_t phaseSeed = 0;
static uint64_t rv(const std::string& n, uint64_t i)
{
  uint64_t h = (0x9E3779B97F4A7C15ull ^ (phaseSeed * 0xBF58476D1CE4E5B9ull + 1)) ^ (i + 1) * 0x9E3779B97F4A7C15ull;
  for (char c : n) h = (h ^ (uint8_t)c) * 0x100000001B3ull;
  for (int k = 0; k < 3; k++) h = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 29);
}
static std::vector<std::pair<uint64_t, uint32_t>> harnessMem; // (size, object) of the harness's allocations in phase 1
static uint32_t harnessObj(uint64_t sz, const std::string& nm)
{
  size_t k = S->harnessNext++;
  if (!phase1 && k < harnessMem.size() && harnessMem[k].first == sz) {
    // same address as in phase 1, contents undefined
    uint32_t id = harnessMem[k].second;
    auto o = std::make_shared<Obj>();
    o->b.resize(sz);
    o->base = S->mem[id]->base;
    o->name = nm;
    S->mem[id] = o;
    return id;
  }
  uint32_t id = newObj(*S, sz, nm);
  if (phase1) harnessMem.push_back({ sz, id });
  return id;
}
static Expr* dblConst(double d) { return P.FC(d); }
static bool external1(const std::string& n, const std::vector<Val>& a, Type* rt, Val& ret)
{
  auto nm = [&]() { return cstr(a[0]); };
  auto dbl = [&](int i) { return Pool::fcv(ex(a[i], Type::getDoubleTy(M->getContext()))); };
  auto rng = [&](const std::string& m, uint64_t i, int64_t lo, int64_t hi) {
    uint64_t r = rv(m, i), c = rv(m, i + 77777) % 16;
    return c == 0 ? lo : c == 1 ? hi : lo + (int64_t)(hi - lo == -1 ? r : r % (uint64_t)(hi - lo + 1));
  };
  if (n == "h_sym") {
    unsigned w = (unsigned)cint(a[2]);
    uint64_t v = rv(nm(), (uint64_t)cint(a[1]));
    ret = VE(P.C(w >= 64 ? v : v & ((1ull << w) - 1), 64));
    return true;
  }
  if (n == "h_rng") { ret = VE(P.C((uint64_t)rng(nm(), (uint64_t)cint(a[1]), (int64_t)cint(a[2]), (int64_t)cint(a[3])), 64)); return true; }
  if (n == "h_zq") { ret = VE(P.C(rv(nm(), (uint64_t)cint(a[1])) % QMOD, 16)); return true; }
  if (n == "h_fsym" || n == "h_fopq") { ret = VE(dblConst((double)(int64_t)(rv(nm(), (uint64_t)cint(a[1])) % 2001) - 1000.0)); return true; }
  if (n == "h_funi") {
    std::string m = nm();
    uint64_t i = (uint64_t)cint(a[1]), c = rv(m, i + 77777) % 16;
    double lo = dbl(2), hi = dbl(3), d = c == 0 ? lo : c == 1 ? hi : lo + (hi - lo) * ((double)(rv(m, i) >> 11) * 0x1p-53);
    ret = VE(dblConst(d < lo ? lo : d > hi ? hi : d));
    return true;
  }
  if (n == "h_isym") { ret = VE(P.IC((i128)rng(nm(), (uint64_t)cint(a[1]), -1000, 1000))); return true; }
  if (n == "h_bytes") {
    std::string m = nm();
    uint64_t len = (uint64_t)cint(a[2]), off;
    bool c;
    if (!len) return true;
    checkAccess(a[1], len, true, off, c);
    Obj& o = wobj(*S, a[1].obj);
    for (uint64_t i = 0; i < len; i++) storeScalar(o, off + i, VE(P.C((uint8_t)rv(m, i), 8)), 1);
    return true;
  }
  if (n == "h_assume") {
    Expr* c = asBV(a[0], 8);
    if (c->isC() && !c->val) throw PathEnd{ "stop" };
    return true;
  }
  if (n == "h_check" || n == "h_feq" || n == "h_ieq" || n == "h_zeq" || n == "h_cover" || n == "h_out" || n == "h_fout" || n == "h_iout") return true;
  if (n == "h_choose") {
    std::string m = nm();
    uint64_t k = (uint64_t)cint(a[1]);
    if (!k) throw PathEnd{ "stop" };
    ret = VE(P.C(rv("choose:" + m, S->ctr["choose:" + m]++) % k, 64));
    return true;
  }
  return false;
}
// returns true if handled
static bool external(const std::string& n, const DInst& d, CallBase* CB, const std::vector<Val>& a, Val& ret)
{
  Type* rt = CB->getType();
  auto dbl = [&](int i) { return ex(a[i], Type::getDoubleTy(M->getContext())); };
  if (n[0] == 'h' && n[1] == '_') {
    if (n == "h_alloc") {
      uint64_t sz = cint(a[0]);
      ret = VP(harnessObj(sz, "heap"), P.C(0, 64));
      return true;
    }
    if (phase1 && external1(n, a, rt, ret)) return true;
    if (n == "h_sym") {
      unsigned w = (unsigned)cint(a[2]);
      Expr* v = declVar2(idxName(cstr(a[0]), cint(a[1])), w, false, 0, 0, false);
      ret = VE(P.zext(v, 64));
      return true;
    }
    if (n == "h_rng") { // signed range
      i128 lo = sgn(cint(a[2]), 64), hi = sgn(cint(a[3]), 64);
      unsigned w = 1;
      if (lo >= 0) { while (((i128)1 << w) <= hi) w++; }
      else { while (((i128)1 << (w - 1)) <= hi || -((i128)1 << (w - 1)) > lo) w++; }
      if (w > 64) w = 64;
      Expr* v = declVar2(idxName(cstr(a[0]), cint(a[1])), w, true, lo, hi, lo < 0);
      ret = VE(lo < 0 ? P.sext(v, 64) : P.zext(v, 64));
      return true;
    }
    if (n == "h_zq") {
      Expr* v = declVar2(idxName(cstr(a[0]), cint(a[1])), 16, true, 0, QMOD - 1, false);
      ret = VE(v);
      return true;
    }
    if (n == "h_fsym") {
      Expr* v = P.fvar(idxName(cstr(a[0]), cint(a[1])));
      if (varSeen.insert(v->id).second) allVars.push_back(v);
      ret = VE(v);
      return true;
    }
    if (n == "h_funi") { // bounded real input
      Expr* v = P.fvar(idxName(cstr(a[0]), cint(a[1])));
      if (varSeen.insert(v->id).second) allVars.push_back(v);
      Expr *lo = dbl(2), *hi = dbl(3);
      if (!lo->isFC() || !hi->isFC()) throw Abort{ "h_funi bounds" };
      v->flo = Pool::fcv(lo);
      v->fhi = Pool::fcv(hi);
      ret = VE(v);
      return true;
    }
    if (n == "h_isym") {
      Expr* v = P.ivar(idxName(cstr(a[0]), cint(a[1])));
      if (varSeen.insert(v->id).second) allVars.push_back(v);
      ret = VE(v);
      return true;
    }
    if (n == "h_bytes") { // fresh bytes: name, ptr, len
      std::string nm = cstr(a[0]);
      uint64_t len = cint(a[2]);
      Val p = a[1];
      uint64_t off;
      bool c;
      if (!len) return true;
      checkAccess(p, len, true, off, c);
      Obj& o = wobj(*S, p.obj);
      for (uint64_t i = 0; i < len; i++) storeScalar(o, off + i, VE(declVar2(idxName(nm, i), 8, false, 0, 0, false)), 1);
      return true;
    }
    if (n == "h_assume") {
      Expr* c = asBV(a[0], 8);
      c = P.Not(P.eq(c, P.C(0, 8)));
      Expr* c2 = substBind(*S, c);
      if (c2->isC()) {
        if (!c2->val) throw PathEnd{ "assume" };
        return true;
      }
      if (!SV->eval(c2, S->model)) {
        Model m;
        Res r = feas(*S, c2, &m);
        if (r == R_UNSAT) throw PathEnd{ "assume" };
        mergeModel(S->model, m);
      }
      addPC(*S, c2);
      return true;
    }
    if (n == "h_check") {
      Expr* c = asBV(a[0], 8);
      c = P.Not(P.eq(c, P.C(0, 8)));
      std::string msg = cstr(a[1]) + "[" + std::to_string(cint(a[2])) + "]";
      if ((c->alg && !noDefer && !ieee && !zexact) || (deferAll && !c->isC())) {
        if (c->isC()) { mustHold(c, "check", msg); return true; }
        defer("check", msg, c, nullptr, nullptr);
        return true;
      }
      mustHold(c, "check", msg);
      return true;
    }
    if (n == "h_feq" || n == "h_ieq" || n == "h_zeq") {
      Expr *x, *y;
      if (n == "h_feq") { x = dbl(0); y = dbl(1); }
      else { x = a[0].e; y = a[1].e; if (!x || !y) throw Abort{ "undef in " + n }; }
      std::string msg = cstr(a[2]) + "[" + std::to_string(cint(a[3])) + "]";
      if (n == "h_zeq" && x->isC() && y->isC()) { mustHold(P.eq(x, y), "check", msg); return true; }
      if (n == "h_ieq") {
        if (x->sort != S_INT) x = P.ifroms(x);
        if (y->sort != S_INT) y = P.ifroms(y);
      }
      defer(n.substr(2), msg, nullptr, x, y);
      return true;
    }
    if (n == "h_choose") {
      std::string nm = cstr(a[0]);
      uint64_t k = cint(a[1]);
      if (k == 0) throw PathEnd{ "choose" };
      uint32_t c = S->ctr["choose:" + nm];
      Expr* v = declVar2(nm + "@" + std::to_string(c), 32, true, 0, k - 1, false);
      u128 x = concretise(v); // a fork re-executes the call with the old counter
      S->ctr["choose:" + nm]++;
      ret = VE(P.C(x, 64));
      return true;
    }
    if (n == "h_conc") { ret = VE(P.C(concretise(asBV(a[0], 64)), 64)); return true; }
    if (n == "h_param") {
      std::string nm = cstr(a[0]);
      auto it = params.find(nm);
      ret = VE(P.C(it == params.end() ? cint(a[1]) : it->second, 64));
      return true;
    }
    if (n == "h_cover") { covers[cstr(a[0])]++; return true; }
    if (n == "h_symbolic") { ret = boolVal(P.T(), rt); return true; }
    if (n == "h_stop") throw PathEnd{ "stop" };
    if (n == "h_out" || n == "h_fout" || n == "h_iout") {
      Expr* x = n == "h_fout" ? dbl(2) : a[2].e;
      if (!x) x = freshUndef(64, curWhere);
      outRecs.push_back({ nPaths, cstr(a[0]), cint(a[1]), x });
      return true;
    }
    if (n == "h_fopq") { // opaque real function of one argument list: name, idx, base value
      ret = VE(P.opq(idxName(cstr(a[0]), cint(a[1])), S_FP, 64, {}));
      return true;
    }
    if (n == "h_isconst") { ret = boolVal(P.B(a[0].kind == V_EX && a[0].e->isC()), rt); return true; }
    if (n == "h_same") { ret = boolVal(P.B(a[0].kind == a[1].kind && a[0].obj == a[1].obj && a[0].e == a[1].e), rt); return true; }
    if (n == "h_dep") { // does the value depend on a variable of that name (any index)?
      std::string pre = cstr(a[1]) + "[";
      bool found = false;
      if (a[0].kind == V_EX) {
        std::vector<Expr*> st{ a[0].e };
        std::unordered_set<Expr*> seen;
        while (!st.empty() && !found) {
          Expr* x = st.back();
          st.pop_back();
          if (!seen.insert(x).second) continue;
          if (x->op == O_VAR || x->op == O_FVAR || x->op == O_OPQ || x->op == O_IVAR) found |= P.names[(size_t)x->val].rfind(pre, 0) == 0;
          for (uint32_t i = 0; i < x->nk; i++) st.push_back(x->k[i]);
        }
      }
      ret = boolVal(P.B(found), rt);
      return true;
    }
    if (n == "h_eqptr") { ret = boolVal(P.B(a[0].obj == a[1].obj && a[0].e == a[1].e), rt); return true; }
    if (n == "h_log") { fprintf(stderr, "[h_log] %s %s\n", cstr(a[0]).c_str(), a[1].kind == V_EX ? (a[1].e->isC() ? u128s(a[1].e->val).c_str() : opnames[a[1].e->op]) : "?"); return true; }
    throw Abort{ "unknown harness function " + n };
  }
  if (n.rfind("sym_mpz_", 0) == 0) {
    std::string o = n.substr(8);
    auto I = [&](int i) -> Expr* {
      if (a[i].kind != V_EX) throw Abort{ "undefined integer object in " + curWhere };
      return a[i].e->sort == S_INT ? a[i].e : P.ifroms(a[i].e);
    };
    if (o == "si") ret = VE(P.ifroms(asBV(a[0], 64)));
    else if (o == "d") { Expr* x = dbl(0); ret = VE(x->isFC() && std::fabs(Pool::fcv(x)) < 1e18 ? P.IC((i128)Pool::fcv(x)) : P.opq("d2i", S_INT, 64, { x })); }
    else if (o == "add") ret = VE(P.iop(O_IADD, I(0), I(1)));
    else if (o == "sub") ret = VE(P.iop(O_ISUB, I(0), I(1)));
    else if (o == "mul") ret = VE(P.iop(O_IMUL, I(0), I(1)));
    else if (o == "neg") ret = VE(P.iop(O_INEG, I(0)));
    else if (o == "abs") ret = VE(P.iop(O_IABS, I(0)));
    else if (o == "tdiv") ret = VE(P.iop(O_IDIV, I(0), I(1)));
    else if (o == "trem") ret = VE(P.iop(O_IREM, I(0), I(1)));
    else if (o == "shl") ret = VE(P.ishift(O_ISHL, I(0), asBV(a[1], 64)));
    else if (o == "shr") ret = VE(P.ishift(O_ISHR, I(0), asBV(a[1], 64)));
    else if (o == "eq") ret = boolVal(P.icmp(0, I(0), I(1)), rt);
    else if (o == "lt") ret = boolVal(P.icmp(1, I(0), I(1)), rt);
    else if (o == "le") ret = boolVal(P.icmp(2, I(0), I(1)), rt);
    else if (o == "get_si") ret = VE(P.itobv(I(0)));
    else if (o == "get_d") { i128 v; Expr* x = I(0); ret = VE(P.icv(x, v) && Pool::absi(v) < ((i128)1 << 53) ? P.FC((double)v) : P.mk(O_I2F, S_FP, 64, 0, 0, { x })); }
    else if (o == "gcd") ret = VE(P.mk(O_IGCD, S_INT, 64, 0, 0, { I(0), I(1) }));
    else if (o == "opq") ret = VE(P.opq("mpz:" + cstr(a[0]), S_INT, 64, { I(1), I(2) }));
    else if (o == "opqbv") ret = VE(P.opq("mpzbv:" + cstr(a[0]), S_BV, 64, { I(1) }));
    else throw Abort{ "mpz op " + o };
    return true;
  }
  static const std::map<std::string, Op> f1s = {
    { "floor", O_FFLOOR }, { "ceil", O_FCEIL }, { "round", O_FROUND }, { "trunc", O_FTRUNC }, { "rint", O_FRINT },
    { "nearbyint", O_FRINT }, { "sqrt", O_FSQRT }, { "fabs", O_FABS }
  };
  auto f = f1s.find(n);
  if (f != f1s.end()) { ret = VE(P.f1(f->second, dbl(0))); return true; }
  if (rt->isFloatTy() && n.size() > 1 && n.back() == 'f' && (f = f1s.find(n.substr(0, n.size() - 1))) != f1s.end()) {
    ret = VE(P.f1(O_F32, P.f1(f->second, dbl(0))));
    return true;
  }
  if (n == "lround" || n == "llround") { ret = VE(P.f2i(true, P.f1(O_FROUND, dbl(0)), 64)); return true; }
  if (n == "lrint" || n == "llrint") { ret = VE(P.f2i(true, P.f1(O_FRINT, dbl(0)), 64)); return true; }
  if (n == "cos" || n == "sin" || n == "exp" || n == "log" || n == "log2" || n == "tan" || n == "exp2") {
    Expr* x = dbl(0);
    if (x->isFC()) {
      double v = Pool::fcv(x);
      ret = VE(P.FC(n == "cos" ? cos(v) : n == "sin" ? sin(v) : n == "exp" ? exp(v) : n == "log" ? log(v) : n == "tan" ? tan(v) : n == "exp2" ? exp2(v) : log2(v)));
    } else ret = VE(P.opq(n, S_FP, 64, { x }));
    return true;
  }
  if (n == "pow" || n == "fmax" || n == "fmin" || n == "fmod" || n == "hypot" || n == "ldexp" || n == "scalbn") {
    Expr* x = dbl(0);
    if (n == "ldexp" || n == "scalbn") {
      Expr* k = asBV(a[1], 32);
      if (k->isC()) { ret = VE(P.f2(O_FMUL, x, P.FC(std::ldexp(1.0, (int)sgn(k->val, 32))))); return true; }
      throw Abort{ n };
    }
    Expr* y = dbl(1);
    if (x->isFC() && y->isFC()) {
      double p = Pool::fcv(x), q = Pool::fcv(y);
      ret = VE(P.FC(n == "pow" ? pow(p, q) : n == "fmax" ? fmax(p, q) : n == "fmin" ? fmin(p, q) : n == "fmod" ? fmod(p, q) : hypot(p, q)));
    } else if (n == "fmax") ret = VE(P.ite(P.fcmp(4, x, y, true), y, x));
    else if (n == "fmin") ret = VE(P.ite(P.fcmp(4, y, x, true), y, x));
    else ret = VE(P.opq(n, S_FP, 64, { x, y }));
    return true;
  }
  if (n == "__muldc3") { // (a+ib)(c+id)
    Expr *p = dbl(0), *q = dbl(1), *r = dbl(2), *t = dbl(3);
    ret = VA({ VE(P.f2(O_FSUB, P.f2(O_FMUL, p, r), P.f2(O_FMUL, q, t))), VE(P.f2(O_FADD, P.f2(O_FMUL, p, t), P.f2(O_FMUL, q, r))) });
    return true;
  }
  if (n == "__divdc3") {
    Expr *p = dbl(0), *q = dbl(1), *r = dbl(2), *t = dbl(3);
    if (p->isFC() && q->isFC() && r->isFC() && t->isFC()) {
      double _Complex x, y;
      __real__ x = Pool::fcv(p); __imag__ x = Pool::fcv(q); __real__ y = Pool::fcv(r); __imag__ y = Pool::fcv(t);
      double _Complex z = x / y;
      ret = VA({ VE(P.FC(__real__ z)), VE(P.FC(__imag__ z)) });
      return true;
    }
    if (t->isFC() && Pool::fcv(t) == 0.0) {
      ret = VA({ VE(P.f2(O_FDIV, p, r)), VE(P.f2(O_FDIV, q, r)) });
      return true;
    }
    Expr* den = P.f2(O_FADD, P.f2(O_FMUL, r, r), P.f2(O_FMUL, t, t));
    Expr* re = P.f2(O_FADD, P.f2(O_FMUL, p, r), P.f2(O_FMUL, q, t));
    Expr* im = P.f2(O_FSUB, P.f2(O_FMUL, q, r), P.f2(O_FMUL, p, t));
    ret = VA({ VE(P.f2(O_FDIV, re, den)), VE(P.f2(O_FDIV, im, den)) });
    return true;
  }
  if (n == "memcpy" || n == "memmove") { copyBytes(a[0], a[1], cint(a[2])); ret = a[0]; return true; }
  if (n == "memset") { setBytes(a[0], asBV(a[1], 8), cint(a[2])); ret = a[0]; return true; }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t len = cint(a[2]);
    Expr* r = P.C(0, 32);
    Type* i8 = Type::getInt8Ty(M->getContext());
    for (uint64_t i = len; i-- > 0;) {
      Expr* x = ex(doLoad(VP(a[0].obj, P.add(a[0].e, P.C(i, 64))), i8), i8);
      Expr* y = ex(doLoad(VP(a[1].obj, P.add(a[1].e, P.C(i, 64))), i8), i8);
      r = P.ite(P.eq(x, y), r, P.ite(P.ult(x, y), P.C((u128)-1, 32), P.C(1, 32)));
    }
    ret = VE(r);
    return true;
  }
  if (n == "strlen") { ret = VE(P.C(cstr(a[0]).size(), 64)); return true; }
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "aligned_alloc" || n == "_ZnwmSt11align_val_t") {
    uint64_t sz = cint(n == "aligned_alloc" ? a[1] : a[0]);
    ret = VP(newObj(*S, sz, "heap"), P.C(0, 64));
    return true;
  }
  if (n == "calloc") {
    uint64_t sz = cint(a[0]) * cint(a[1]);
    uint32_t o = newObj(*S, sz, "heap");
    ret = VP(o, P.C(0, 64));
    setBytes(ret, P.C(0, 8), sz);
    return true;
  }
  if (n == "free" || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) {
    if (a[0].kind == V_PTR && a[0].obj) {
      if (!S->mem[a[0].obj]->alive) fail("memory", "double free");
      wobj(*S, a[0].obj).alive = false;
    }
    return true;
  }
  if (n == "abs" || n == "labs" || n == "llabs") {
    Expr* x = asBV(a[0], rt->getIntegerBitWidth());
    ret = VE(P.abs_(x));
    return true;
  }
  if (n == "__cxa_guard_acquire") { ret = VE(P.C(1, 32)); 
    // guard byte: if already set -> 0
    Val g = doLoad(a[0], Type::getInt8Ty(M->getContext()));
    if (g.kind == V_EX && g.e->isC() && g.e->val) ret = VE(P.C(0, 32));
    return true; }
  if (n == "__cxa_guard_release") { doStore(a[0], VE(P.C(1, 8)), Type::getInt8Ty(M->getContext())); return true; }
  if (n == "__cxa_atexit" || n == "atexit") { ret = VE(P.C(0, 32)); return true; }
  if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "exit" || n == "_exit" || n.find("__throw_") != std::string::npos ||
      n == "__cxa_throw" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__clang_call_terminate")
    fail("abort", "call of " + n);
  std::string dm = demangle(n);
  if (dm.rfind("std::ios_base::Init::", 0) == 0) return true;
  if (dm.rfind("std::random_device::", 0) == 0) {
    if (dm.find("_M_getval") != std::string::npos || dm.find("operator()") != std::string::npos) {
      uint32_t c = S->ctr["rd"]++;
      ret = VE(phase1 ? P.C((uint32_t)rv("rd", c), 32) : declVar2("rd[" + std::to_string(c) + "]", 32, false, 0, 0, false));
      return true;
    }
    if (dm.find("_M_getentropy") != std::string::npos) { ret = VE(P.FC(32.0)); return true; }
    return true; // _M_init, _M_fini
  }
  return false;
}

static void bindResult(const DInst& d, const Val& v)
{
  if (d.dst >= 0) reg(d.dst) = v;
}
static void gotoBB(BasicBlock* bb)
{
  Frame& f = S->fr.back();
  f.prev = f.bb;
  f.bb = f.fi->bbix[bb];
  f.ip = 0;
  // phis
  auto& v = f.fi->bbs[f.bb];
  std::vector<std::pair<int, Val>> upd;
  size_t i = 0;
  BasicBlock* pb = f.fi->bbp[f.prev];
  for (; i < v.size() && v[i].op == Instruction::PHI; i++) {
    auto* ph = cast<PHINode>(v[i].I);
    int k = ph->getBasicBlockIndex(pb);
    upd.push_back({ v[i].dst, getOp(v[i].ops[k]) });
  }
  for (auto& u : upd) f.r[u.first] = u.second;
  f.ip = i;
}
static void pushFrame(Function* F, const std::vector<Val>& args, int retReg)
{
  FnInfo* fi = info(F);
  funcsRun[fi->dem]++;
  if (S->fr.size() > 2000) throw Abort{ "call depth" };
  Frame f;
  f.fi = fi;
  f.r.resize(fi->nregs);
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f.r[i] = args[i];
  f.retReg = retReg;
  S->fr.push_back(std::move(f));
}

static Expr* binop(unsigned op, Expr* x, Expr* y)
{
  switch (op) {
    case Instruction::Add: return P.add(x, y);
    case Instruction::Sub: return P.sub(x, y);
    case Instruction::Mul: return P.mul(x, y);
    case Instruction::UDiv: return P.udiv(x, y);
    case Instruction::SDiv: return P.sdiv(x, y);
    case Instruction::URem: return P.urem(x, y);
    case Instruction::SRem: return P.srem(x, y);
    case Instruction::And: return P.and_(x, y);
    case Instruction::Or: return P.or_(x, y);
    case Instruction::Xor: return P.xor_(x, y);
    case Instruction::Shl: return P.shl(x, y);
    case Instruction::LShr: return P.lshr(x, y);
    case Instruction::AShr: return P.ashr(x, y);
    case Instruction::FAdd: return P.f2(O_FADD, x, y);
    case Instruction::FSub: return P.f2(O_FSUB, x, y);
    case Instruction::FMul: return P.f2(O_FMUL, x, y);
    case Instruction::FDiv: return P.f2(O_FDIV, x, y);
  }
  throw Abort{ "binop" };
}
static Expr* icmpE(CmpInst::Predicate p, Expr* x, Expr* y)
{
  switch (p) {
    case CmpInst::ICMP_EQ: return P.eq(x, y);
    case CmpInst::ICMP_NE: return P.Not(P.eq(x, y));
    case CmpInst::ICMP_ULT: return P.ult(x, y);
    case CmpInst::ICMP_ULE: return P.ule(x, y);
    case CmpInst::ICMP_UGT: return P.ult(y, x);
    case CmpInst::ICMP_UGE: return P.ule(y, x);
    case CmpInst::ICMP_SLT: return P.slt(x, y);
    case CmpInst::ICMP_SLE: return P.sle(x, y);
    case CmpInst::ICMP_SGT: return P.slt(y, x);
    case CmpInst::ICMP_SGE: return P.sle(y, x);
    default: throw Abort{ "icmp" };
  }
}
static unsigned fpred(CmpInst::Predicate p)
{
  // LLVM numbering: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
  return (unsigned)p;
}
static Val selectVal(Expr* c, const Val& x, const Val& y, Type* t)
{
  if (c->isC()) return c->val ? x : y;
  if (x.kind == V_PTR && y.kind == V_PTR) {
    if (x.obj == y.obj) return VP(x.obj, P.ite(c, x.e, y.e));
    return decide(c) ? x : y;
  }
  if (x.kind == V_AGG || y.kind == V_AGG || x.kind == V_FN) return decide(c) ? x : y;
  if (x.kind == V_EX && y.kind == V_EX && x.e->sort != y.e->sort) return decide(c) ? x : y;
  return VE(P.ite(c, ex(x, t), ex(y, t)));
}
static Expr* ctlz(Expr* x, bool trail)
{
  unsigned w = x->w;
  Expr* r = P.C(w, w);
  for (unsigned i = 0; i < w; i++) {
    unsigned bit = trail ? w - 1 - i : i;
    r = P.ite(P.extract(x, bit, 1), P.C(trail ? bit : w - 1 - bit, w), r);
  }
  return r;
}
static bool intrinsic(IntrinsicInst* II, const DInst& d, const std::vector<Val>& a, Val& ret)
{
  Type* rt = II->getType();
  if (rt->isVectorTy()) return false;
  auto E = [&](int i) { return ex(a[i], II->getArgOperand(i)->getType()); };
  auto ovf = [&](Expr* r, Expr* o) { ret = VA({ VE(r), VE(o) }); };
  switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: copyBytes(a[0], a[1], cint(a[2])); return true;
    case Intrinsic::memset: setBytes(a[0], asBV(a[1], 8), cint(a[2])); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: return true;
    case Intrinsic::assume: return true;
    case Intrinsic::expect: ret = a[0]; return true;
    case Intrinsic::stacksave: ret = VP(0, P.C(0, 64)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::is_constant: ret = VE(P.F()); return true;
    case Intrinsic::objectsize: ret = VE(P.C((u128)-1, rt->getIntegerBitWidth())); return true;
    case Intrinsic::umin: { Expr *x = E(0), *y = E(1); ret = VE(P.ite(P.ult(x, y), x, y)); return true; }
    case Intrinsic::umax: { Expr *x = E(0), *y = E(1); ret = VE(P.ite(P.ult(x, y), y, x)); return true; }
    case Intrinsic::smin: { Expr *x = E(0), *y = E(1); ret = VE(P.ite(P.slt(x, y), x, y)); return true; }
    case Intrinsic::smax: { Expr *x = E(0), *y = E(1); ret = VE(P.ite(P.slt(x, y), y, x)); return true; }
    case Intrinsic::abs: { ret = VE(P.abs_(E(0))); return true; }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      Expr* x = E(0);
      bool tr = II->getIntrinsicID() == Intrinsic::cttz;
      if (!x->isC()) decide(P.eq(x, P.C(0, x->w)));
      Expr* r = ctlz(x, tr);
      // fork over the count: it steers addresses and loop bounds
      if (!r->isC()) r = P.C(concretise(r), r->w);
      ret = VE(r);
      return true;
    }
    case Intrinsic::ctpop: {
      Expr* x = E(0);
      Expr* r = P.C(0, x->w);
      for (unsigned i = 0; i < x->w; i++) r = P.add(r, P.zext(P.extract(x, i, 1), x->w));
      ret = VE(r);
      return true;
    }
    case Intrinsic::bswap: {
      Expr* x = E(0);
      Expr* r = nullptr;
      for (unsigned i = 0; i < x->w; i += 8) { Expr* b = P.extract(x, i, 8); r = r ? P.concat(r, b) : b; }
      ret = VE(r);
      return true;
    }
    case Intrinsic::bitreverse: {
      Expr* x = E(0);
      Expr* r = nullptr;
      for (unsigned i = 0; i < x->w; i++) { Expr* b = P.extract(x, i, 1); r = r ? P.concat(r, b) : b; }
      ret = VE(r);
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Expr *x = E(0), *y = E(1), *z = E(2);
      if (!z->isC()) z = P.C(concretise(z), z->w);
      unsigned w = x->w, s = (unsigned)(z->val % w);
      if (II->getIntrinsicID() == Intrinsic::fshr) s = s ? w - s : w;
      if (s == 0) ret = VE(x);
      else if (s == w) ret = VE(y);
      else ret = VE(P.concat(P.extract(x, 0, w - s), P.extract(y, w - s, s)));
      return true;
    }
    case Intrinsic::uadd_with_overflow: { Expr *x = E(0), *y = E(1), *r = P.add(x, y); ovf(r, P.ult(r, x)); return true; }
    case Intrinsic::usub_with_overflow: { Expr *x = E(0), *y = E(1); ovf(P.sub(x, y), P.ult(x, y)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      Expr *x = E(0), *y = E(1);
      unsigned w = x->w;
      auto id = II->getIntrinsicID();
      Expr* r = id == Intrinsic::sadd_with_overflow ? P.add(x, y) : id == Intrinsic::ssub_with_overflow ? P.sub(x, y) : P.mul(x, y);
      // range-based exclusion first
      bool safe = false;
      if (w <= 62) {
        i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
        if (id == Intrinsic::sadd_with_overflow) safe = x->slo + y->slo >= mn && x->shi + y->shi <= mx;
        else if (id == Intrinsic::ssub_with_overflow) safe = x->slo - y->shi >= mn && x->shi - y->slo <= mx;
        else if (id == Intrinsic::smul_with_overflow) {
          i128 p[4] = { x->slo * y->slo, x->slo * y->shi, x->shi * y->slo, x->shi * y->shi };
          safe = true;
          for (i128 q : p) safe &= q >= mn && q <= mx;
        } else safe = x->uhi * y->uhi <= (i128)maskw(w);
      } else if (w == 64) {
        const i128 mn = -((i128)1 << 63), mx = ((i128)1 << 63) - 1;
        if (id == Intrinsic::sadd_with_overflow) safe = x->slo + y->slo >= mn && x->shi + y->shi <= mx;
        else if (id == Intrinsic::ssub_with_overflow) safe = x->slo - y->shi >= mn && x->shi - y->slo <= mx;
        else if (id == Intrinsic::smul_with_overflow) {
          const i128 h = (i128)1 << 31;
          safe = x->slo > -h && x->shi < h && y->slo > -h && y->shi < h;
        }
      }
      if (safe) { ovf(r, P.F()); return true; }
      unsigned W = std::min(128u, 2 * w);
      bool sg = id != Intrinsic::umul_with_overflow;
      Expr *X = sg ? P.sext(x, W) : P.zext(x, W), *Y = sg ? P.sext(y, W) : P.zext(y, W);
      Expr* R = id == Intrinsic::sadd_with_overflow ? P.add(X, Y) : id == Intrinsic::ssub_with_overflow ? P.sub(X, Y) : P.mul(X, Y);
      ovf(r, P.Not(P.eq(R, sg ? P.sext(r, W) : P.zext(r, W))));
      return true;
    }
    case Intrinsic::fabs: ret = VE(P.f1(O_FABS, E(0))); return true;
    case Intrinsic::floor: ret = VE(P.f1(O_FFLOOR, E(0))); return true;
    case Intrinsic::ceil: ret = VE(P.f1(O_FCEIL, E(0))); return true;
    case Intrinsic::round: ret = VE(P.f1(O_FROUND, E(0))); return true;
    case Intrinsic::trunc: ret = VE(P.f1(O_FTRUNC, E(0))); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = VE(P.f1(O_FRINT, E(0))); return true;
    case Intrinsic::sqrt: { Expr* x = P.f1(O_FSQRT, E(0)); ret = VE(rt->isFloatTy() ? P.f1(O_F32, x) : x); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: {
      Expr* x = P.f2(O_FADD, P.f2(O_FMUL, E(0), E(1)), E(2));
      ret = VE(rt->isFloatTy() ? P.f1(O_F32, x) : x);
      return true;
    }
    case Intrinsic::maxnum: { Expr *x = E(0), *y = E(1); ret = VE(P.ite(P.fcmp(4, x, y, !ieee), y, x)); return true; }
    case Intrinsic::minnum: { Expr *x = E(0), *y = E(1); ret = VE(P.ite(P.fcmp(4, y, x, !ieee), y, x)); return true; }
    case Intrinsic::lround: case Intrinsic::llround: ret = VE(P.f2i(true, P.f1(O_FROUND, E(0)), rt->getIntegerBitWidth())); return true;
    case Intrinsic::lrint: case Intrinsic::llrint: ret = VE(P.f2i(true, P.f1(O_FRINT, E(0)), rt->getIntegerBitWidth())); return true;
    case Intrinsic::copysign: {
      Expr *x = E(0), *y = E(1);
      if (x->isFC() && y->isFC()) { ret = VE(P.FC(std::copysign(Pool::fcv(x), Pool::fcv(y)))); return true; }
      ret = VE(P.opq("copysign", S_FP, 64, { x, y }));
      return true;
    }
    case Intrinsic::cos: case Intrinsic::sin: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::exp2: case Intrinsic::log2: {
      auto id = II->getIntrinsicID();
      return external(id == Intrinsic::cos ? "cos" : id == Intrinsic::sin ? "sin" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::exp2 ? "exp2" : "log2", d, II, a, ret);
    }
    case Intrinsic::pow: return external("pow", d, II, a, ret);
    case Intrinsic::ldexp: return external("ldexp", d, II, a, ret);
    case Intrinsic::ubsantrap: {
      static const char* kinds[] = { "add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound" };
      uint64_t k = cint(a[0]);
      fail("undefined", std::string("undefined behaviour: ") + (k < 25 ? kinds[k] : "?"));
      return true;
    }
    case Intrinsic::trap: fail("abort", "trap"); return true;
    case Intrinsic::threadlocal_address: ret = a[0]; return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return true;
    default: return false;
  }
}

// execute one instruction; a forked clone re-executes the same instruction
static void step()
{
  Frame& f = S->fr.back();
  const DInst& d = f.fi->bbs[f.bb][f.ip];
  Instruction* I = d.I;
  nInstr++;
  S->steps++;
  switch (d.op) {
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I);
      uint64_t n = cint(getOp(d.ops[0]));
      uint64_t sz = tyalloc(A->getAllocatedType()) * n;
      std::string nm = A->hasName() ? A->getName().str() : "local";
      uint32_t o = nPhase && S->fr.size() == 1 ? harnessObj(sz, nm) : newObj(*S, sz, nm);
      f.allocas.push_back(o);
      reg(d.dst) = VP(o, P.C(0, 64));
      break;
    }
    case Instruction::Load: {
      Val v = doLoad(getOp(d.ops[0]), I->getType());
      reg(d.dst) = v;
      break;
    }
    case Instruction::Store: doStore(getOp(d.ops[1]), getOp(d.ops[0]), I->getOperand(0)->getType()); break;
    case Instruction::GetElementPtr: {
      auto* G = cast<GetElementPtrInst>(I);
      Val b = getOp(d.ops[0]);
      if (b.kind != V_PTR) throw Abort{ "gep on non-pointer in " + curWhere };
      Expr* off = b.e;
      unsigned oi = 1;
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++oi) {
        if (StructType* st = gi.getStructTypeOrNull()) {
          unsigned k = cast<ConstantInt>(gi.getOperand())->getZExtValue();
          off = P.add(off, P.C(DL->getStructLayout(st)->getElementOffset(k), 64));
        } else {
          Expr* ix = exOp(d, oi);
          ix = ix->w < 64 ? P.sext(ix, 64) : ix;
          off = P.add(off, P.mul(ix, P.C(tyalloc(gi.getIndexedType()), 64)));
        }
      }
      reg(d.dst) = VP(b.obj, off);
      break;
    }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional()) { gotoBB(B->getSuccessor(0)); return; }
      bool t = decide(exOp(d, 0));
      gotoBB(B->getSuccessor(t ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* W = cast<SwitchInst>(I);
      Expr* c = exOp(d, 0);
      for (auto cs : W->cases()) {
        if (decide(P.eq(c, P.C(apv(cs.getCaseValue()->getValue()), c->w)))) { gotoBB(cs.getCaseSuccessor()); return; }
      }
      gotoBB(W->getDefaultDest());
      return;
    }
    case Instruction::Ret: {
      Val v;
      if (!d.ops.empty()) v = getOp(d.ops[0]);
      for (uint32_t o : f.allocas) {
        if (S->mem[o].use_count() == 1) { S->mem[o]->b.clear(); S->mem[o]->b.shrink_to_fit(); S->mem[o]->alive = false; }
        else { auto dead = std::make_shared<Obj>(); dead->alive = false; dead->name = S->mem[o]->name; dead->base = S->mem[o]->base; S->mem[o] = dead; }
      }
      int rr = f.retReg;
      S->fr.pop_back();
      if (S->fr.empty()) throw PathEnd{ "done" };
      if (rr >= 0) reg(rr) = v;
      return;
    }
    case Instruction::Unreachable: fail("abort", "unreachable executed"); break;
    case Instruction::ICmp: {
      auto* C = cast<ICmpInst>(I);
      Val x = getOp(d.ops[0]), y = getOp(d.ops[1]);
      if (I->getOperand(0)->getType()->isPointerTy()) {
        if (x.kind == V_PTR && y.kind == V_PTR && x.obj == y.obj) { reg(d.dst) = VE(icmpE(C->getPredicate(), x.e, y.e)); break; }
        if (x.kind == V_FN || y.kind == V_FN) {
          bool same = x.kind == y.kind && x.agg == y.agg;
          reg(d.dst) = VE(P.B(C->getPredicate() == CmpInst::ICMP_EQ ? same : !same));
          break;
        }
        auto ad = [&](const Val& v) { return P.add(v.e, P.C(v.obj ? S->mem[v.obj]->base : 0, 64)); };
        if (C->isEquality()) { reg(d.dst) = VE(P.B(C->getPredicate() != CmpInst::ICMP_EQ)); break; }
        reg(d.dst) = VE(icmpE(C->getPredicate(), ad(x), ad(y)));
        break;
      }
      if (I->getType()->isVectorTy()) throw Abort{ "vector icmp" };
      Expr* a = exOp(d, 0);
      Expr* b = exOp(d, 1);
      if (a->sort != S_BV || b->sort != S_BV) throw Abort{ "icmp on handle" };
      reg(d.dst) = VE(icmpE(C->getPredicate(), a, b));
      break;
    }
    case Instruction::FCmp: {
      Expr *a = exOp(d, 0), *b = exOp(d, 1);
      reg(d.dst) = VE(P.fcmp(fpred(cast<FCmpInst>(I)->getPredicate()), a, b, !ieee));
      break;
    }
    case Instruction::Select: {
      Expr* c = exOp(d, 0);
      if (!c->isC()) {
        auto it = S->lits.find(c->id);
        if (it != S->lits.end()) c = P.B(it->second);
      }
      Val r = selectVal(c, getOp(d.ops[1]), getOp(d.ops[2]), I->getType());
      reg(d.dst) = r;
      break;
    }
    case Instruction::PHI: throw Abort{ "phi" };
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub:
    case Instruction::FMul: case Instruction::FDiv: {
      if (I->getType()->isVectorTy()) {
        Val x = getOp(d.ops[0]), y = getOp(d.ops[1]);
        Type* et = cast<VectorType>(I->getType())->getElementType();
        std::vector<Val> r;
        for (size_t i = 0; i < x.agg->size(); i++) r.push_back(VE(binop(d.op, ex((*x.agg)[i], et), ex((*y.agg)[i], et))));
        reg(d.dst) = VA(r);
        break;
      }
      Expr *a = exOp(d, 0), *b = exOp(d, 1);
      if (I->getType()->isFloatTy()) { // double rounding through double is harmless for one operation
        reg(d.dst) = VE(P.f1(O_F32, binop(d.op, a, b)));
        break;
      }
      if (a->sort == S_INT || b->sort == S_INT) throw Abort{ "arithmetic on handle" };
      if (d.op == Instruction::UDiv || d.op == Instruction::SDiv || d.op == Instruction::URem || d.op == Instruction::SRem) {
        Expr* nz = P.Not(P.eq(b, P.C(0, b->w)));
        if (!nz->isC() || !nz->val) {
          if (nz->isC()) fail("undefined", "division by zero");
          mustHold(nz, "undefined", "division by zero in " + curWhere);
        }
      }
      if (d.op == Instruction::Shl || d.op == Instruction::LShr || d.op == Instruction::AShr) {
        if (!b->isC()) {
          Expr* b2 = substBind(*S, b);
          if (b2->isC()) b = b2;
        }
      }
      reg(d.dst) = VE(binop(d.op, a, b));
      break;
    }
    case Instruction::FNeg: reg(d.dst) = VE(P.f1(O_FNEG, exOp(d, 0))); break;
    case Instruction::Trunc: reg(d.dst) = VE(P.trunc(exOp(d, 0), I->getType()->getIntegerBitWidth())); break;
    case Instruction::ZExt: {
      if (I->getType()->isVectorTy()) throw Abort{ "vector zext" };
      reg(d.dst) = VE(P.zext(exOp(d, 0), I->getType()->getIntegerBitWidth()));
      break;
    }
    case Instruction::SExt: reg(d.dst) = VE(P.sext(exOp(d, 0), I->getType()->getIntegerBitWidth())); break;
    case Instruction::SIToFP: { Expr* x = P.i2f(true, exOp(d, 0)); reg(d.dst) = VE(I->getType()->isFloatTy() ? P.f1(O_F32, x) : x); break; }
    case Instruction::UIToFP: { Expr* x = P.i2f(false, exOp(d, 0)); reg(d.dst) = VE(I->getType()->isFloatTy() ? P.f1(O_F32, x) : x); break; }
    case Instruction::FPToSI: reg(d.dst) = VE(P.f2i(true, exOp(d, 0), I->getType()->getIntegerBitWidth())); break;
    case Instruction::FPToUI: reg(d.dst) = VE(P.f2i(false, exOp(d, 0), I->getType()->getIntegerBitWidth())); break;
    case Instruction::FPExt: case Instruction::FPTrunc: {
      Type *a = I->getOperand(0)->getType(), *b = I->getType();
      if (!(a->isFloatTy() && b->isDoubleTy()) && !(a->isDoubleTy() && b->isFloatTy())) throw Abort{ "float precision change" };
      Expr* x = exOp(d, 0);
      reg(d.dst) = VE(b->isFloatTy() ? P.f1(O_F32, x) : x);
      break;
    }
    case Instruction::BitCast: {
      Val v = getOp(d.ops[0]);
      Type *a = I->getOperand(0)->getType(), *b = I->getType();
      if (a == b) { reg(d.dst) = v; break; }
      if (a->isDoubleTy() && b->isIntegerTy(64)) {
        Expr* x = exOp(d, 0);
        reg(d.dst) = VE(x->isFC() ? P.C(x->val, 64) : x->op == O_BITS2F ? x->k[0] : P.mk(O_FBITS, S_BV, 64, 0, 0, { x }));
        break;
      }
      if (b->isDoubleTy() && a->isIntegerTy(64)) { reg(d.dst) = toVal(exOp(d, 0), b); break; }
      // via memory
      uint32_t o = newObj(*S, tysz(a), "cast");
      storeRaw(*S->mem[o], 0, v, a);
      reg(d.dst) = loadRaw(*S->mem[o], 0, b);
      break;
    }
    case Instruction::PtrToInt: {
      Val v = getOp(d.ops[0]);
      if (v.kind != V_PTR) throw Abort{ "ptrtoint" };
      Expr* e = P.add(v.e, P.C(v.obj ? S->mem[v.obj]->base : 0, 64));
      reg(d.dst) = VE(P.trunc(e, I->getType()->getIntegerBitWidth()));
      break;
    }
    case Instruction::IntToPtr: {
      Expr* e = exOp(d, 0);
      if (e->isC() && e->val == 0) { reg(d.dst) = VP(0, P.C(0, 64)); break; }
      if (e->isC()) {
        for (size_t o = 1; o < S->mem.size(); o++)
          if (S->mem[o] && e->val >= S->mem[o]->base && e->val <= S->mem[o]->base + S->mem[o]->b.size()) {
            reg(d.dst) = VP(o, P.C(e->val - S->mem[o]->base, 64));
            f.ip++;
            return;
          }
      }
      throw Abort{ "inttoptr" };
    }
    case Instruction::ExtractValue: {
      Val v = getOp(d.ops[0]);
      for (unsigned k : cast<ExtractValueInst>(I)->indices()) v = v.kind == V_AGG ? (*v.agg)[k] : Val();
      reg(d.dst) = v;
      break;
    }
    case Instruction::InsertValue: {
      Val v = getOp(d.ops[0]), x = getOp(d.ops[1]);
      auto* IV = cast<InsertValueInst>(I);
      std::function<Val(Val, Type*, unsigned)> go = [&](Val b, Type* t, unsigned lv) -> Val {
        if (lv == IV->getNumIndices()) return x;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        std::vector<Val> e = b.kind == V_AGG ? *b.agg : std::vector<Val>(n);
        unsigned k = IV->getIndices()[lv];
        e[k] = go(e[k], t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), lv + 1);
        return VA(e);
      };
      reg(d.dst) = go(v, I->getType(), 0);
      break;
    }
    case Instruction::ExtractElement: {
      Val v = getOp(d.ops[0]);
      reg(d.dst) = v.kind == V_AGG ? (*v.agg)[cint(getOp(d.ops[1]))] : Val();
      break;
    }
    case Instruction::InsertElement: {
      Val v = getOp(d.ops[0]);
      auto* vt = cast<FixedVectorType>(I->getType());
      std::vector<Val> e = v.kind == V_AGG ? *v.agg : std::vector<Val>(vt->getNumElements());
      e[cint(getOp(d.ops[2]))] = getOp(d.ops[1]);
      reg(d.dst) = VA(e);
      break;
    }
    case Instruction::ShuffleVector: {
      auto* SI = cast<ShuffleVectorInst>(I);
      Val x = getOp(d.ops[0]), y = getOp(d.ops[1]);
      unsigned n = cast<FixedVectorType>(SI->getOperand(0)->getType())->getNumElements();
      std::vector<Val> e;
      for (int m : SI->getShuffleMask()) {
        if (m < 0) e.push_back(Val());
        else if ((unsigned)m < n) e.push_back(x.kind == V_AGG ? (*x.agg)[m] : Val());
        else e.push_back(y.kind == V_AGG ? (*y.agg)[m - n] : Val());
      }
      reg(d.dst) = VA(e);
      break;
    }
    case Instruction::Freeze: reg(d.dst) = getOp(d.ops[0]).kind == V_UNDEF && !I->getType()->isAggregateType() ? VE(exOp(d, 0)) : getOp(d.ops[0]); break;
    case Instruction::Fence: break;
    case Instruction::Call: case Instruction::Invoke: {
      auto* CB = cast<CallBase>(I);
      unsigned na = CB->arg_size();
      std::vector<Val> args(na);
      for (unsigned i = 0; i < na; i++) {
        args[i] = getOp(d.ops[i]);
        // byval copies
        if (CB->isByValArgument(i) && args[i].kind == V_PTR) {
          uint64_t sz = tyalloc(CB->getParamByValType(i));
          uint32_t o = newObj(*S, sz, "byval");
          f.allocas.push_back(o);
          Val np = VP(o, P.C(0, 64));
          copyBytes(np, args[i], sz);
          args[i] = np;
        }
      }
      Val ret;
      if (auto* II = dyn_cast<IntrinsicInst>(CB)) {
        if (!intrinsic(II, d, args, ret)) throw Abort{ "intrinsic " + II->getCalledFunction()->getName().str() };
        if (d.dst >= 0) reg(d.dst) = ret;
        break;
      }
      if (CB->isInlineAsm()) break; // only used as compiler barriers
      Function* F = nullptr;
      Val cv = getOp(d.ops.back());
      if (isa<InvokeInst>(CB)) F = CB->getCalledFunction();
      else if (cv.kind == V_FN) F = cv.fn();
      if (!F) throw Abort{ "indirect call in " + curWhere };
      FnInfo* fi = info(F);
      if (!fi->hookState) hooks(fi);
      bool done = false;
      if (fi->hookState == 2 && f.fi->F != fi->hook) {
        funcsRun["[stubbed] " + fi->dem]++;
        f.ip++;
        pushFrame(fi->hook, args, d.dst);
        return;
      }
      if (fi->hookState == 3) done = tryZq(fi, args, ret);
      if (done) { funcsRun["[Zq op] " + fi->dem]++; }
      if (!done) {
        if (F->isDeclaration()) {
          if (!external(F->getName().str(), d, CB, args, ret)) throw Abort{ "external function " + fi->dem + " (" + F->getName().str() + ")" };
        } else {
          if (isa<InvokeInst>(CB)) throw Abort{ "invoke" };
          std::string nm = F->getName().str();
          if (nm.find("random_device") != std::string::npos && fi->dem.rfind("std::random_device::", 0) == 0) {
            if (external(nm, d, CB, args, ret)) { if (d.dst >= 0) reg(d.dst) = ret; break; }
          }
          f.ip++;
          pushFrame(F, args, d.dst);
          return;
        }
      }
      if (d.dst >= 0) reg(d.dst) = ret;
      break;
    }
    default: {
      std::string s;
      raw_string_ostream o(s);
      I->print(o);
      throw Abort{ "instruction " + s };
    }
  }
  S->fr.back().ip++;
}

static void initGlobals()
{
  base.mem.push_back(nullptr);
  for (auto& g : M->globals()) {
    uint64_t sz = tyalloc(g.getValueType());
    uint32_t o = newObj(base, sz, g.getName().str());
    gObj[&g] = o;
  }
  for (auto& g : M->globals()) {
    if (!g.hasInitializer()) continue;
    if (g.getName().starts_with("llvm.")) continue;
    Obj& o = *base.mem[gObj[&g]];
    try {
      Val v = constVal(g.getInitializer());
      storeRaw(o, 0, v, g.getValueType());
      if (g.getInitializer()->isNullValue()) for (auto& s : o.b) if (s.kind == V_UNDEF) { s.kind = V_EX; s.e = P.C(0, 8); s.size = 1; s.off = 0; }
    } catch (Abort& a) {
      // vtables etc.: left undefined
    }
    o.ro = g.isConstant();
  }
}
static void dumpAll()
{
  if (dumpFile.empty()) return;
  FILE* f = fopen(dumpFile.c_str(), "w");
  std::vector<char> seen(P.all.size(), 0);
  std::function<void(Expr*)> mark = [&](Expr* r) {
    std::vector<Expr*> st{ r };
    while (!st.empty()) {
      Expr* e = st.back();
      st.pop_back();
      if (!e || seen[e->id]) continue;
      seen[e->id] = 1;
      for (unsigned i = 0; i < e->nk; i++) st.push_back(e->k[i]);
    }
  };
  for (auto& d : dumps) { if (d.cond) mark(d.cond); if (d.a) mark(d.a); if (d.b) mark(d.b); for (Expr* p : d.pc) mark(p); }
  for (auto& o : outRecs) mark(o.e);
  for (Expr* e : P.all) {
    if (!seen[e->id]) continue;
    fprintf(f, "N %u %s %u %u %u ", e->id, opnames[e->op], (unsigned)e->sort, (unsigned)e->w, (unsigned)e->aux);
    if (e->op == O_VAR || e->op == O_FVAR || e->op == O_IVAR || e->op == O_ICONST || e->op == O_OPQ) fprintf(f, "%s", P.names[(size_t)e->val].c_str());
    else fprintf(f, "%s", u128s(e->val).c_str());
    for (unsigned i = 0; i < e->nk; i++) fprintf(f, " %u", e->k[i]->id);
    fprintf(f, "\n");
    if (e->sort == S_FP && e->fb() && !e->isFC()) fprintf(f, "F %u %.17g %.17g\n", e->id, e->flo, e->fhi);
    if (e->op == O_VAR && e->w <= 64) {
      if (e->slo < 0) fprintf(f, "R %u s %lld %lld\n", e->id, (long long)e->slo, (long long)e->shi);
      else fprintf(f, "R %u u %llu %llu\n", e->id, (unsigned long long)e->ulo, (unsigned long long)e->uhi);
    }
  }
  for (auto& d : dumps) {
    std::string msg = d.msg;
    for (char& ch : msg) if (ch == ' ') ch = '_';
    fprintf(f, "D %llu %s %s %d %d %d", (unsigned long long)d.path, d.kind.c_str(), msg.c_str(), d.cond ? (int)d.cond->id : -1, d.a ? (int)d.a->id : -1, d.b ? (int)d.b->id : -1);
    for (Expr* p : d.pc) fprintf(f, " %u", p->id);
    fprintf(f, "\nM %s\n", d.model.c_str());
  }
  for (auto& o : outRecs) fprintf(f, "O %llu %s %llu %u\n", (unsigned long long)o.path, o.name.c_str(), (unsigned long long)o.idx, o.e->id);
  fclose(f);
}

// mutable state that belongs to the library, not to the harness or the standard library
static bool libState(const GlobalVariable& g)
{
  std::string d = demangle(g.getName().str());
  for (const char* p : { "guard variable for ", "reference temporary #0 for ", "TLS guard for " })
    if (d.rfind(p, 0) == 0) d = d.substr(strlen(p));
  std::string h = d.substr(0, d.find('('));
  if (h.find("::") == std::string::npos) return false;
  // "double foo<N>(...)": drop a leading return type
  size_t sp = h.substr(0, h.find('<')).rfind(' ');
  if (sp != std::string::npos) h = h.substr(sp + 1);
  for (const char* p : { "std::", "__gnu", "__cxx", "shake256::", "e_", "hk_" })
    if (h.rfind(p, 0) == 0) return false;
  return true;
}
int main(int argc, char** argv)
{
  { // deep terms: raise the stack limit and start again
    struct rlimit rl;
    if (!getenv("FSE_STACK") && getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (2ull << 30)) {
      rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (2ull << 30) : std::min<rlim_t>(rl.rlim_max, 2ull << 30);
      setenv("FSE_STACK", "1", 1);
      if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv);
    }
  }
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryFn = nx();
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, nullptr, 0); }
    else if (a == "--replace") { std::string p = nx(); size_t e = p.rfind('='); replaces[p.substr(0, e)] = p.substr(e + 1); }
    else if (a == "--zq") useZq = true;
    else if (a == "--zq-off") zqoff.insert(nx());
    else if (a == "--zexact") zexact = true;
    else if (a == "--ieee") ieee = true, P.foldF = false;
    else if (a == "--no-defer") noDefer = true;
    else if (a == "--defer-all") deferAll = true;
    else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-time") maxTime = atof(nx().c_str());
    else if (a == "--timeout") qTimeout = atoi(nx().c_str());
    else if (a == "--quick") qQuick = atoi(nx().c_str());
    else if (a == "--out") outFile = nx();
    else if (a == "--dump") dumpFile = nx();
    else if (a == "--phase") nPhase = atoi(nx().c_str());
    else if (a == "--statics") { entryFn = "??"; }
    else if (a == "--list") { /* list function names */ entryFn = "?"; }
    else file = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("fse", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  if (entryFn == "?") {
    for (auto& F : *M) printf("%d %s | %s | %s\n", (int)F.isDeclaration(), fnName(&F, true).c_str(), fnName(&F, false).c_str(), F.getName().str().c_str());
    return 0;
  }
  if (entryFn == "??") {
    for (auto& g : M->globals())
      if (!g.isConstant() && g.hasInitializer() && !g.getName().starts_with("llvm.") && !g.getName().starts_with("_ZSt") && !g.getName().starts_with("_ZNSt"))
        printf("%s %s %s\n", libState(g) ? "L" : "H", g.getName().str().c_str(), demangle(g.getName().str()).c_str());
    return 0;
  }
  Solver sv(P, qTimeout, ieee, zexact);
  sv.quickTo = qQuick;
  SV = &sv;
  std::string status = "ok";
  try {
    initGlobals();
    Function* E = M->getFunction(entryFn);
    if (!E) throw Abort{ "no entry " + entryFn };
    State* s0 = new State(base);
    S = s0;
    // dynamic initialisers
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors", true))
      if (auto* arr = dyn_cast_or_null<ConstantArray>(gc->getInitializer()))
        for (auto& o : arr->operands())
          if (auto* st = dyn_cast<ConstantStruct>(o))
            if (auto* F = dyn_cast<Function>(st->getOperand(1))) {
              pushFrame(F, {}, -1);
              try { for (;;) { curWhere = S->fr.back().fi->dem; step(); } } catch (PathEnd&) { S->fr.clear(); }
            }
    if (nPhase) {
      std::vector<ObjP> init = S->mem;
      for (auto& o : init) if (o) o = std::make_shared<Obj>(*o);
      for (int r = 0; r < nPhase; r++) {
        phase1 = true;
        phaseSeed = r + 1;
        S->harnessNext = 0;
        harnessMem.clear();
        pushFrame(E, {}, -1);
        try {
          for (;;) {
            curWhere = S->fr.back().fi->dem;
            step();
            if ((nInstr & 0xffff) == 0 && (now() > maxTime || nInstr > maxSteps)) throw Abort{ "time or step limit" };
          }
        } catch (PathEnd&) {
        }
        if (!worklist.empty()) throw Abort{ "first run is not concrete" };
        phase1 = false;
        S->fr.clear();
        for (auto& g : M->globals())
          if (!g.isConstant() && !libState(g)) {
            uint32_t o = gObj[&g];
            if (init[o]) S->mem[o] = std::make_shared<Obj>(*init[o]);
          }
        S->pc.clear(), S->lits.clear(), S->bind.clear(), S->ctr.clear(), S->trace.clear();
        S->steps = 0;
      }
      S->harnessNext = 0;
      nChecks = nTriv = nProved = nDeferred = nUnknown = nViol = 0;
      viols.clear(), dumps.clear(), outRecs.clear(), violSeen.clear();
      S->model = Model();
    }
    pushFrame(E, {}, -1);
    worklist.push_back(s0);
    while (!worklist.empty()) {
      S = worklist.back();
      worklist.pop_back();
      try {
        for (;;) {
          curWhere = S->fr.back().fi->dem;
          step();
          if (nViol && (nInstr & 0xff) == 0 && enough()) throw Abort{ "stopped after violations" };
          if ((nInstr & 0xffff) == 0 && (now() > maxTime || nInstr > maxSteps)) throw Abort{ "time or step limit" };
        }
      } catch (PathEnd& p) {
        if (p.what == "done" || p.what == "stop") nPaths++;
        else nStopped++;
      }
      delete S;
      if (enough()) throw Abort{ "stopped after violations" };
      if (nPaths > maxPaths) throw Abort{ "path limit" };
      if (now() > maxTime) throw Abort{ "time limit" };
    }
  } catch (Abort& a) {
    status = "incomplete";
    errors.push_back(a.what);
  }
  dumpAll();
  FILE* o = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
  fprintf(o, "{\"status\":\"%s\",\"errors\":[", status.c_str());
  for (size_t i = 0; i < errors.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(errors[i]).c_str());
  fprintf(o, "],\"paths\":%llu,\"infeasible_paths\":%llu,\"checks\":%llu,\"trivial\":%llu,\"proved\":%llu,\"deferred\":%llu,\"unknown\":%llu,\"instructions\":%llu,\"forks\":%llu,\"terms\":%llu,",
          (unsigned long long)nPaths, (unsigned long long)nStopped, (unsigned long long)nChecks, (unsigned long long)nTriv, (unsigned long long)nProved, (unsigned long long)nDeferred, (unsigned long long)nUnknown, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)P.all.size());
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"int_queries\":%llu,\"int_proved\":%llu,\"sat_solver_queries\":%llu,\"max_query_s\":%.3f,\"wall_s\":%.3f,", (unsigned long long)sv.queries, (unsigned long long)sv.nsat, (unsigned long long)sv.nunsat, sv.secs, (unsigned long long)sv.iqueries, (unsigned long long)sv.iproved, (unsigned long long)sv.kqueries, sv.maxq, now());
  fprintf(o, "\"covers\":{");
  bool fst = true;
  for (auto& c : covers) { fprintf(o, "%s\"%s\":%llu", fst ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); fst = false; }
  fprintf(o, "},\"functions\":{");
  fst = true;
  for (auto& c : funcsRun) { fprintf(o, "%s\"%s\":%llu", fst ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); fst = false; }
  fprintf(o, "},\"undef_reads\":{");
  fst = true;
  for (auto& c : undefReads) { fprintf(o, "%s\"%s\":%llu", fst ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); fst = false; }
  fprintf(o, "},\"violations\":[");
  for (size_t i = 0; i < viols.size(); i++)
    fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"model\":%s}", i ? "," : "", viols[i].kind.c_str(), jesc(viols[i].msg).c_str(), viols[i].model.c_str());
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  return 0;
}
