// cmai: abstract interpreter over LLVM IR.  Walks the control flow graph of the code under
// analysis once per abstract state, joining the states at immediate post-dominators (gated by the
// branch condition), for all values of the declared input symbols at once.
#include "dom.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <pthread.h>
#include <chrono>
#include <atomic>
#include <unistd.h>
#include <semaphore.h>
#include "alloc.inc"
#include <malloc.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>

using namespace llvm;
typedef ::N NV;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ memory
struct Cell { int size; NV v; };
struct Obj {
  int64_t size = 0; bool ro = false; char kind = 'h'; // h heap, s stack, g global, f function
  int freed = 0; std::string name; std::map<int64_t, Cell> cells; const void *site = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;
struct State {
  std::map<int, ObjP> objs;
  const Ctx *ctx = &rootCtx;
  NV pc = nullptr;
};
static std::map<int, ObjP> baseObjs;        // state after static initialisation
static std::map<const GlobalValue *, int> gvObj;
static std::vector<const GlobalValue *> objGv; // obj id -> global (or null)
static int nextObj = 1;
static std::string repoPrefix = "/repo/";

static const Obj *getObj(const State &st, int id) {
  auto it = st.objs.find(id);
  if (it != st.objs.end()) return it->second.get();
  auto b = baseObjs.find(id);
  return b == baseObjs.end() ? nullptr : b->second.get();
}
static Obj *wObj(State &st, int id) {
  auto it = st.objs.find(id);
  if (it == st.objs.end()) {
    auto b = baseObjs.find(id);
    if (b == baseObjs.end()) return nullptr;
    auto c = std::make_shared<Obj>(*b->second);
    st.objs[id] = c;
    return c.get();
  }
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}

// ------------------------------------------------------------------ results
struct Oblig { std::string entry, label, what, why, loc, hloc, kind; int verdict; long cases; };
static std::vector<Oblig> obligs;
struct Event { std::string kind, detail; const Instruction *inst; const Ctx *ctx; NV pc; std::string stack; bool after = false; };
struct CaseRec {
  std::string label; std::vector<Event> events; bool expectThrow = false, allowThrow = false; std::string throwType;
  long instrs = 0; double t0 = 0; bool aborted = false; std::string abortWhy; CaseRec *parent = nullptr; long obl = 0; bool allowFault = false;
  bool lost = false; // a call whose effects are not modelled was met: nothing after it is refuted
};
static CaseRec *curCase = nullptr;
static std::string curEntry;
static int jobs = 8, caseMem = 2500; static std::string onlyCase;
static double caseTime = 120; static long caseInstr = 30000000;
static std::set<const Function *> visitedFns;
static std::set<const Instruction *> visitedCalls;
static long totalInstr = 0, totalForks = 0;
static std::set<std::string> globalWrites;
static int havocs = 0;
struct Abort { std::string why; };

static std::vector<const Instruction *> callStack;
static std::string locOf(const Instruction *I, std::string *file = nullptr) {
  if (!I) return "";
  const DebugLoc &d = I->getDebugLoc();
  std::string f, fn;
  int line = 0;
  if (d) {
    auto *sc = cast<DILocalScope>(d.getScope());
    f = sc->getFilename().str(); line = d.getLine();
    if (auto *sp = sc->getSubprogram()) fn = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
    if (!f.empty() && f[0] != '/') f = (sc->getDirectory() + "/" + f).str();
    std::replace(f.begin(), f.end(), '\\', '/');
  } else if (I->getFunction()) {
    fn = demangle(I->getFunction()->getName().str());
    if (auto *sp = I->getFunction()->getSubprogram()) { f = sp->getFilename().str(); line = sp->getLine(); std::replace(f.begin(), f.end(), '\\', '/'); }
  }
  if (file) *file = f;
  size_t p = fn.find('('); if (p != std::string::npos) fn = fn.substr(0, p);
  return f + ":" + std::to_string(line) + " (" + fn + ")";
}
static bool inRepo(const Instruction *I) {
  if (!I) return false;
  std::string f; locOf(I, &f);
  // canonicalise a/../b
  return f.compare(0, repoPrefix.size(), repoPrefix) == 0;
}
static std::string stackStr() {
  std::string s; int n = 0;
  for (auto it = callStack.rbegin(); it != callStack.rend() && n < 4; ++it) if (inRepo(*it)) { s += (n ? " <- " : "") + locOf(*it); ++n; }
  return s;
}
static std::string lastRepoCall;   // library function most recently called by the specification
static std::string bestLoc(NV v) {
  if (isC(v) || v->k == KPtr) return lastRepoCall;
  // breadth first over the value graph: the first node created by code of the repository
  std::vector<NV> q = {v}; std::set<uint32_t> seen; size_t h = 0;
  while (h < q.size() && h < 4000) {
    NV x = q[h++];
    if (!seen.insert(x->id).second) continue;
    if (x->inst && inRepo((const Instruction *)x->inst)) return locOf((const Instruction *)x->inst);
    for (auto &t : x->terms) for (auto &m : t.m) q.push_back(P.nodes[m.first]);
    for (NV y : x->a) q.push_back(y);
  }
  return lastRepoCall;
}
static bool lostNow() { for (CaseRec *c = curCase; c; c = c->parent) if (c->lost) return true; return false; }
static void event(State &st, const std::string &kind, const std::string &detail, const Instruction *I) {
  if (!curCase) { fprintf(stderr, "cmai: event outside a case: %s %s at %s [%s]\n", kind.c_str(), detail.c_str(), locOf(I).c_str(), stackStr().c_str()); return; }
  // attribute to the innermost repository frame
  const Instruction *at = I;
  if (!inRepo(at)) for (auto it = callStack.rbegin(); it != callStack.rend(); ++it) if (inRepo(*it)) { at = *it; break; }
  if (kind.compare(0, 10, "unmodelled") == 0) curCase->lost = true;
  for (auto &e : curCase->events) if (e.kind == kind && e.inst == at && e.detail == detail && e.ctx == st.ctx) return;
  curCase->events.push_back(Event{kind, detail, at, st.ctx, st.pc, stackStr(), lostNow()});
}

// ------------------------------------------------------------------ types, constants
static int tsize(Type *t) { return (int)DL->getTypeStoreSize(t).getFixedValue(); }
static Ty tyOf(Type *t) { if (t->isFloatingPointTy()) return TF; if (t->isPointerTy()) return TP; if (t->isIntegerTy()) return TI; return TT; }
static int widthOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 32; }
static NV undefOf(Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) { std::vector<NV> v; for (auto *e : s->elements()) v.push_back(undefOf(e)); return mkTuple(v); }
  if (auto *a = dyn_cast<ArrayType>(t)) { std::vector<NV> v(a->getNumElements(), undefOf(a->getElementType())); return mkTuple(v); }
  if (auto *a = dyn_cast<FixedVectorType>(t)) { std::vector<NV> v(a->getNumElements(), undefOf(a->getElementType())); return mkTuple(v); }
  return mkUndef(tyOf(t), widthOf(t));
}
static int objOfGv(const GlobalValue *g);
static NV constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? mkI(i->getBitWidth(), i->getSExtValue()) : mkUnknown(TI, 64, "wide");
  if (auto *f = dyn_cast<ConstantFP>(c)) { bool li; APFloat v = f->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return mkF(v.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return mkPtr(0, 0);
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    std::vector<NV> v; unsigned n;
    if (auto *s = dyn_cast<StructType>(c->getType())) n = s->getNumElements();
    else if (auto *a = dyn_cast<ArrayType>(c->getType())) n = a->getNumElements();
    else n = cast<FixedVectorType>(c->getType())->getNumElements();
    for (unsigned i = 0; i < n; ++i) v.push_back(constVal(c->getAggregateElement(i)));
    return mkTuple(v);
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee());
    return mkPtr(objOfGv(g), 0);
  }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(e)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) { NV b = constVal(cast<Constant>(gep->getPointerOperand())); return b->k == KPtr ? mkPtr(b->obj, b->i + off.getSExtValue()) : b; }
    }
    if (e->isCast()) return constVal(e->getOperand(0));
    if (e->getOpcode() == Instruction::Sub) {
      NV a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1));
      if (a->k == KPtr && b->k == KPtr && a->obj == b->obj) return mkI(64, a->i - b->i);
      if (a->ty == TI && b->ty == TI) return nsub(a, b, TI, 64);
    }
  }
  return mkUnknown(tyOf(c->getType()), widthOf(c->getType()), "constant");
}
static void storeRaw(Obj &o, int64_t off, int size, NV v);
static void initCells(Obj &o, int64_t off, const Constant *c) {
  Type *t = c->getType();
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) initCells(o, off + (int64_t)sl->getElementOffset(i).getFixedValue(), c->getAggregateElement(i));
    return;
  }
  if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    int64_t es = DL->getTypeAllocSize(et).getFixedValue();
    if (n > 20000) return;
    for (uint64_t i = 0; i < n; ++i) initCells(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  o.cells[off] = Cell{tsize(t), constVal(c)};
}
static int objOfGv(const GlobalValue *g) {
  auto it = gvObj.find(g);
  if (it != gvObj.end()) return it->second;
  int id = nextObj++;
  gvObj[g] = id;
  auto o = std::make_shared<Obj>();
  o->name = g->getName().str();
  if ((int)objGv.size() <= id) objGv.resize(id + 1, nullptr);
  objGv[id] = g;
  if (isa<Function>(g)) { o->kind = 'f'; baseObjs[id] = o; return id; }
  o->kind = 'g';
  auto *v = cast<GlobalVariable>(g);
  o->size = DL->getTypeAllocSize(v->getValueType()).getFixedValue();
  o->ro = v->isConstant();
  baseObjs[id] = o;
  if (v->hasInitializer()) initCells(*o, 0, v->getInitializer());
  else if (o->name.compare(0, 4, "_ZTI") == 0) { // type_info of a type defined elsewhere: vtable pointer and name
    o->size = 16; auto n = std::make_shared<Obj>(); std::string t = o->name.substr(4); int nid = nextObj++; n->kind = 'g'; n->ro = true; n->name = "_ZTS" + t; n->size = t.size() + 1;
    for (size_t i = 0; i <= t.size(); ++i) n->cells[i] = Cell{1, mkI(8, i < t.size() ? t[i] : 0)};
    if ((int)objGv.size() <= nid) objGv.resize(nid + 1, nullptr);
    baseObjs[nid] = n; o->cells[8] = Cell{8, mkPtr(nid, 0)};
  }
  return id;
}

static bool startsWith(const std::string &s, const char *p);
// variables that keep a value between calls of the library: stored to outside static initialisation, not guarded
static const std::vector<const GlobalVariable *> &keptState() {
  static std::vector<const GlobalVariable *> r; static bool done = false;
  if (done) return r;
  done = true;
  for (auto &g : M->globals()) {
    if (g.isConstant() || g.isDeclaration() || startsWith(g.getName().str(), "_ZGV") || startsWith(g.getName().str(), "llvm.")) continue;
    if (!g.getValueType()->isIntegerTy() && !g.getValueType()->isFloatingPointTy()) continue;
    std::string n = g.getName().str();
    if (n.size() > 2 && n[0] == '_' && n[1] == 'Z' && M->getNamedValue("_ZGV" + n.substr(2))) continue;
    bool w = false;
    for (auto *u : g.users()) if (auto *si = dyn_cast<StoreInst>(u)) { std::string f = si->getFunction()->getName().str(); if (si->getPointerOperand() == &g && !startsWith(f, "__cxx_global") && !startsWith(f, "_GLOBAL__")) w = true; }
    if (w) r.push_back(&g);
  }
  return r;
}
// ------------------------------------------------------------------ cells
static void removeRange(Obj &o, int64_t off, int64_t size) {
  auto it = o.cells.lower_bound(off);
  if (it != o.cells.begin()) {
    auto p = std::prev(it);
    if (p->first + p->second.size > off) {
      // partially overwritten cell: split constants and byte-uniform cells, otherwise poison
      int64_t po = p->first; Cell pc = p->second;
      o.cells.erase(p);
      bool isK = isC(pc.v) && pc.v->ty == TI && pc.size <= 8;
      for (int64_t b = po; b < po + pc.size; ++b) if (b < off || b >= off + size)
        o.cells[b] = Cell{1, isK ? mkI(8, pc.v->i >> (8 * (b - po))) : mkUnknown(TI, 8, "partial-overwrite")};
    }
  }
  it = o.cells.lower_bound(off);
  while (it != o.cells.end() && it->first < off + size) {
    int64_t po = it->first; Cell pc = it->second;
    it = o.cells.erase(it);
    if (po + pc.size > off + size) {
      bool isK = isC(pc.v) && pc.v->ty == TI && pc.size <= 8;
      for (int64_t b = off + size; b < po + pc.size; ++b) o.cells[b] = Cell{1, isK ? mkI(8, pc.v->i >> (8 * (b - po))) : mkUnknown(TI, 8, "partial-overwrite")};
      it = o.cells.lower_bound(off + size);
      break;
    }
  }
}
static void storeRaw(Obj &o, int64_t off, int size, NV v) {
  auto f = o.cells.find(off);
  if (f != o.cells.end() && f->second.size == size && v->k != KConcat) { f->second.v = v; return; }
  removeRange(o, off, size);
  if (v->k == KConcat) { int n = v->a.size(), s = size / n; for (int i = 0; i < n; ++i) o.cells[off + i * s] = Cell{s, v->a[i]}; return; }
  o.cells[off] = Cell{size, v};
}
static NV convLoad(NV v, Type *t) {
  Ty want = tyOf(t);
  if (v->k == KUndef) return undefOf(t);
  if (v->ty == want || v->k == KIte) return v;
  if (isC(v)) {
    if (v->ty == TI && want == TF) { if (t->isFloatTy()) { float f; int32_t i = (int32_t)v->i; memcpy(&f, &i, 4); return mkF(f); } double d; memcpy(&d, &v->i, 8); return mkF(d); }
    if (v->ty == TI && want == TP && v->i == 0) return mkPtr(0, 0);
    if (v->ty == TF && want == TI) { if (t->getIntegerBitWidth() == 32) { float f = (float)v->f; int32_t i; memcpy(&i, &f, 4); return v->f == 0 ? mkI(32, 0) : v; } return v; }
  }
  return v;
}
// the low bytes of a gated integer
static NV lowPart(NV v, int size) {
  if (isC(v) && v->ty == TI) return mkI(size * 8, v->i);
  if (v->k != KIte) return nullptr;
  NV x = lowPart(v->a[1], size), y = x ? lowPart(v->a[2], size) : nullptr;
  return y ? mkIte(v->a[0], x, y) : nullptr;
}
static NV loadScalar(const Obj &o, int64_t off, Type *t, bool &uninit) {
  int size = tsize(t);
  auto f = o.cells.find(off);
  if (f != o.cells.end() && f->second.size == size) return convLoad(f->second.v, t);
  if (f != o.cells.end() && f->second.size > size) { // sub-cell at the front
    NV v = f->second.v;
    if (NV l = tyOf(t) == TI || isC(v) ? lowPart(v, size) : nullptr) return convLoad(l, t);
    return mkUnknown(tyOf(t), widthOf(t), "subcell");
  }
  // gather
  std::vector<NV> parts; std::vector<int> sz; int64_t p = off; bool ok = true; bool any = false;
  while (p < off + size) {
    auto c = o.cells.find(p);
    if (c == o.cells.end() || p + c->second.size > off + size) { ok = false; if (c != o.cells.end()) any = true; break; }
    parts.push_back(c->second.v); sz.push_back(c->second.size); p += c->second.size; any = true;
  }
  if (!ok) {
    auto lb = o.cells.lower_bound(off - 16);
    for (; lb != o.cells.end() && lb->first < off + size; ++lb) if (lb->first + lb->second.size > off) {
      any = true;
      if (lb->first < off && isC(lb->second.v) && lb->second.v->ty == TI && lb->first + lb->second.size >= off + size)
        return convLoad(mkI(size * 8, lb->second.v->i >> (8 * (off - lb->first))), t);
    }
    if (any) return mkUnknown(tyOf(t), widthOf(t), "partial");
    uninit = true;
    return undefOf(t);
  }
  bool allC = true, allU = true;
  for (NV v : parts) { if (!(isC(v) && v->ty == TI)) allC = false; if (v->k != KUndef) allU = false; }
  if (allU) { uninit = true; return undefOf(t); }
  if (allC) { uint64_t r = 0; int sh = 0; for (size_t i = 0; i < parts.size(); ++i) { r |= zext(parts[i]->i, sz[i] * 8) << sh; sh += sz[i] * 8; } return convLoad(mkI(size * 8, (int64_t)r), t); }
  for (size_t i = 1; i < sz.size(); ++i) if (sz[i] != sz[0]) return mkUnknown(tyOf(t), widthOf(t), "mixed");
  return mkTuple(parts, KConcat);
}

// ------------------------------------------------------------------ pointers
struct Leaf { NV cond; NV ptr; const Ctx *ctx; };
static void leaves(NV p, const Ctx *c, NV cond, std::vector<Leaf> &out) {
  if (p->k == KIte) {
    int d = decide(p->a[0], c, 2);
    if (d == 1) return leaves(p->a[1], c, cond, out);
    if (d == 0) return leaves(p->a[2], c, cond, out);
    const Ctx *ct = withLit(c, p->a[0], true), *ce = withLit(c, p->a[0], false);
    if (!ct->infeasible) leaves(p->a[1], ct, mkAnd(cond, p->a[0]), out);
    if (!ce->infeasible) leaves(p->a[2], ce, mkAnd(cond, mkNot(p->a[0])), out);
    return;
  }
  out.push_back(Leaf{cond, p, c});
}
// maps f over the leaves of a gated pointer value
static NV mapPtr(NV p, const std::function<NV(NV)> &f) {
  if (p->k == KIte) {
    int d = decide(p->a[0], cur, 2);
    if (d == 1) return mapPtr(p->a[1], f);
    if (d == 0) return mapPtr(p->a[2], f);
    NV x, y;
    { WithCtx w(withLit(cur, p->a[0], true)); x = mapPtr(p->a[1], f); }
    { WithCtx w(withLit(cur, p->a[0], false)); y = mapPtr(p->a[2], f); }
    return mkIte(p->a[0], x, y);
  }
  return f(p);
}
static NV ptrAdd(NV p, NV off) {
  if (off->k == KIte) {
    NV c = off->a[0]; NV t, e;
    { WithCtx w(withLit(cur, c, true)); t = ptrAdd(p, off->a[1]); }
    { WithCtx w(withLit(cur, c, false)); e = ptrAdd(p, off->a[2]); }
    return mkIte(c, t, e);
  }
  NV o = off;
  if (!isC(o)) o = rebuild(off, cur);
  if (!isC(o)) {
    if (o->split && o->k == KPoly) { // offset computed from a gated index
      for (auto &t : o->terms) for (auto &q : t.m) { NV a = P.nodes[q.first]; if (a->k == KIte) {
        NV c = a->a[0]; NV x, y; const Ctx *ct = withLit(cur, c, true), *ce = withLit(cur, c, false);
        if (ct->infeasible) { WithCtx w(ce); return ptrAdd(p, rebuild(o, ce)); }
        if (ce->infeasible) { WithCtx w(ct); return ptrAdd(p, rebuild(o, ct)); }
        { WithCtx w(ct); x = ptrAdd(p, rebuild(o, ct)); }
        { WithCtx w(ce); y = ptrAdd(p, rebuild(o, ce)); }
        return mkIte(c, x, y); } }
    }
    // enumerate the values of a bounded integer symbol
    Poly q = polyOf(o);
    for (auto &t : q) if (t.m.size() == 1 && t.m[0].second == 1) {
      NV a = P.nodes[t.m[0].first]; Iv v = eval(a, cur);
      if (a->ty == TI && !v.nan && v.hi - v.lo <= 64) {
        NV r = nullptr;
        for (double k = v.lo; k <= v.hi; k += 1) {
          NV c = mkSign(nsub(a, mkI(32, (int64_t)k), TF, 32), 2);
          const Ctx *ct = withLit(cur, c, true);
          if (ct->infeasible) continue;
          NV x; { WithCtx w(ct); NV o2 = rebuild(o, ct); if (!isC(o2)) { Poly s; for (auto &u : polyOf(o)) { Term z = u; for (size_t i = 0; i < z.m.size();) if (z.m[i].first == (int)a->id) { z.c *= std::pow(k, z.m[i].second); z.m.erase(z.m.begin() + i); } else ++i; s = padd(s, {z}, 1); } o2 = mkPoly(s, TI, 64); } x = isC(o2) ? ptrAdd(p, mkI(64, (int64_t)cval(o2))) : mkUnknown(TP, 64, "pointer"); }
          r = r ? mkIte(c, x, r) : x;
        }
        if (r) return r;
      }
    }
    return mkUnknown(TP, 64, "symbolic-offset");
  }
  int64_t d = (int64_t)cval(o);
  if (d == 0) return p;
  return mapPtr(p, [&](NV q) { return q->k == KPtr ? mkPtr(q->obj, q->i + d) : mkUnknown(TP, 64, "pointer"); });
}

static bool checkAccess(State &st, NV p, int size, const Instruction *I, const char *what) {
  // one leaf pointer; false: invalid
  if (p->k == KUndef) { event(st, "uninitialised-pointer", what, I); return false; }
  if (p->k != KPtr) { event(st, "unmodelled-pointer", std::string(what) + " " + show(p, 2), I); return false; }
  if (p->obj == 0) { event(st, "null-dereference", what, I); return false; }
  const Obj *o = getObj(st, p->obj);
  if (!o) { event(st, "dangling-pointer", std::string(what) + " through a pointer to a dead object", I); return false; }
  if (o->freed == 1) { event(st, "use-after-free", what, I); return false; }
  if (o->kind == 'f') { event(st, "bad-access", what, I); return false; }
  if (p->i < 0 || p->i + size > o->size) { event(st, "out-of-bounds", std::string(what) + " at offset " + std::to_string(p->i) + " of an object of " + std::to_string(o->size) + " bytes" + (o->name.empty() ? "" : " (" + o->name + ")"), I); return false; }
  return true;
}
static const Ctx *conjCtx(const Ctx *c) { return c; }
// returns null when no leaf is valid
static NV memLoad(State &st, NV p, Type *t, const Instruction *I) {
  if (t->isAggregateType() || t->isVectorTy()) {
    std::vector<NV> v;
    if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) { NV x = memLoad(st, ptrAdd(p, mkI(64, sl->getElementOffset(i).getFixedValue())), s->getElementType(i), I); if (!x) return nullptr; v.push_back(x); } }
    else {
      Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
      uint64_t n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
      int64_t es = DL->getTypeAllocSize(et).getFixedValue();
      for (uint64_t i = 0; i < n; ++i) { NV x = memLoad(st, ptrAdd(p, mkI(64, i * es)), et, I); if (!x) return nullptr; v.push_back(x); }
    }
    return mkTuple(v);
  }
  std::vector<Leaf> ls; leaves(p, st.ctx, mkB(true), ls);
  NV r = nullptr; int size = tsize(t);
  std::vector<std::pair<NV, NV>> vals; const Ctx *good = nullptr; int nbad = 0;
  for (auto &l : ls) {
    State *s = &st; const Ctx *old = st.ctx; st.ctx = l.ctx; // report under the leaf's own condition
    bool ok = checkAccess(*s, l.ptr, size, I, "load");
    st.ctx = old;
    if (!ok) { ++nbad; continue; }
    bool un = false;
    NV v = loadScalar(*getObj(st, l.ptr->obj), l.ptr->i, t, un);
    vals.push_back({l.cond, v}); good = l.ctx;
  }
  if (vals.empty()) return nullptr;
  if (nbad && vals.size() == 1) { st.ctx = good; cur = good; }
  r = vals.back().second;
  for (int i = (int)vals.size() - 2; i >= 0; --i) r = mkIte(vals[i].first, vals[i].second, r);
  return r;
}
static bool memStore(State &st, NV p, NV v, Type *t, const Instruction *I) {
  if (v->k == KTuple) {
    for (size_t i = 0; i < v->a.size(); ++i) {
      Type *et; int64_t off;
      if (auto *s = dyn_cast<StructType>(t)) { et = s->getElementType(i); off = DL->getStructLayout(s)->getElementOffset(i).getFixedValue(); }
      else { et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType(); off = i * DL->getTypeAllocSize(et).getFixedValue(); }
      if (!memStore(st, ptrAdd(p, mkI(64, off)), v->a[i], et, I)) return false;
    }
    return true;
  }
  std::vector<Leaf> ls; leaves(p, st.ctx, mkB(true), ls);
  int size = tsize(t); bool any = false;
  for (auto &l : ls) {
    const Ctx *old = st.ctx; st.ctx = l.ctx;
    bool ok = checkAccess(st, l.ptr, size, I, "store");
    st.ctx = old;
    if (!ok) continue;
    const Obj *ro = getObj(st, l.ptr->obj);
    if (ro->ro) { event(st, "write-to-constant", ro->name, I); continue; }
    if (ro->kind == 'g' && curCase && inRepo(I)) globalWrites.insert(ro->name + " at " + locOf(I));
    any = true;
    NV nv = v;
    if (!isTrue(l.cond)) { bool un = false; NV o = loadScalar(*ro, l.ptr->i, t, un); nv = mkIte(l.cond, v, o); }
    storeRaw(*wObj(st, l.ptr->obj), l.ptr->i, size, nv);
  }
  return any;
}
static NV allocObj(State &st, int64_t size, char kind, const std::string &name, const void *site) {
  auto o = std::make_shared<Obj>();
  o->size = size; o->kind = kind; o->name = name; o->site = site;
  int id = nextObj++;
  st.objs[id] = o;
  return mkPtr(id, 0);
}
static void memCopy(State &st, NV d, NV s, NV n, const Instruction *I) {
  if (!isC(n)) n = rebuild(n, st.ctx);
  if (!isC(n)) {
    if (n->k == KIte) { // gated length
      NV c = n->a[0]; (void)c;
    }
    event(st, "unmodelled-memcpy", "symbolic length", I); return; }
  int64_t len = (int64_t)cval(n);
  if (len == 0) return;
  std::vector<Leaf> ss; leaves(s, st.ctx, mkB(true), ss);
  // read
  std::vector<std::pair<NV, std::map<int64_t, Cell>>> srcs;
  for (auto &l : ss) {
    const Ctx *old = st.ctx; st.ctx = l.ctx; bool ok = checkAccess(st, l.ptr, (int)len, I, "memcpy read"); st.ctx = old;
    if (!ok) continue;
    const Obj *o = getObj(st, l.ptr->obj);
    std::map<int64_t, Cell> m;
    for (auto it = o->cells.lower_bound(l.ptr->i); it != o->cells.end() && it->first < l.ptr->i + len; ++it) {
      if (it->first + it->second.size > l.ptr->i + len) { m[it->first - l.ptr->i] = Cell{(int)(l.ptr->i + len - it->first), mkUnknown(TI, 8, "memcpy-cut")}; continue; }
      m[it->first - l.ptr->i] = it->second;
    }
    srcs.push_back({l.cond, m});
  }
  if (srcs.empty()) return;
  std::map<int64_t, Cell> m = srcs.back().second;
  for (int i = (int)srcs.size() - 2; i >= 0; --i) {
    auto &x = srcs[i].second;
    for (auto &c : x) { auto it = m.find(c.first); NV e = it != m.end() && it->second.size == c.second.size ? it->second.v : mkUndef(c.second.v->ty, c.second.v->w); m[c.first] = Cell{c.second.size, mkIte(srcs[i].first, c.second.v, e)}; }
  }
  std::vector<Leaf> ds; leaves(d, st.ctx, mkB(true), ds);
  for (auto &l : ds) {
    const Ctx *old = st.ctx; st.ctx = l.ctx; bool ok = checkAccess(st, l.ptr, (int)len, I, "memcpy write"); st.ctx = old;
    if (!ok) continue;
    Obj *o = wObj(st, l.ptr->obj);
    if (!isTrue(l.cond)) { for (auto &c : m) { auto it = o->cells.find(l.ptr->i + c.first); NV e = it != o->cells.end() && it->second.size == c.second.size ? it->second.v : mkUndef(c.second.v->ty, c.second.v->w); storeRaw(*o, l.ptr->i + c.first, c.second.size, mkIte(l.cond, c.second.v, e)); } continue; }
    removeRange(*o, l.ptr->i, len);
    for (auto &c : m) o->cells[l.ptr->i + c.first] = c.second;
  }
}
static std::string cstr(State &st, NV p) {
  if (p->k != KPtr) return "?";
  const Obj *o = getObj(st, p->obj); std::string s;
  if (!o) return "?";
  for (int64_t i = p->i; i < o->size; ++i) { auto it = o->cells.find(i); if (it == o->cells.end() || !isC(it->second.v) || it->second.size != 1) break; char c = (char)it->second.v->i; if (!c) break; s += c; }
  return s;
}

// ------------------------------------------------------------------ function info
struct FnInfo {
  std::unordered_map<const Value *, int> num; int n = 0;
  std::unordered_map<const BasicBlock *, const BasicBlock *> ipdom;
  std::unordered_set<const BasicBlock *> live;   // can reach a return
  std::string dem; bool repo = false;
};
static std::unordered_map<const Function *, FnInfo *> fnInfos;
static std::vector<const BasicBlock *> succs(const BasicBlock *b) {
  std::vector<const BasicBlock *> v; auto *t = b->getTerminator();
  if (auto *iv = dyn_cast<InvokeInst>(t)) { v.push_back(iv->getNormalDest()); return v; }
  for (unsigned i = 0; i < t->getNumSuccessors(); ++i) if (std::find(v.begin(), v.end(), t->getSuccessor(i)) == v.end()) v.push_back(t->getSuccessor(i));
  return v;
}
static FnInfo *infoOf(const Function *F) {
  auto it = fnInfos.find(F);
  if (it != fnInfos.end()) return it->second;
  auto *fi = new FnInfo(); fnInfos[F] = fi;
  fi->dem = demangle(F->getName().str());
  for (auto &a : F->args()) fi->num[&a] = fi->n++;
  std::vector<const BasicBlock *> bbs;
  for (auto &b : *F) { bbs.push_back(&b); for (auto &i : b) fi->num[&i] = fi->n++; }
  // liveness with respect to returns
  bool ch = true;
  for (auto *b : bbs) if (isa<ReturnInst>(b->getTerminator())) fi->live.insert(b);
  while (ch) { ch = false; for (auto it2 = bbs.rbegin(); it2 != bbs.rend(); ++it2) { auto *b = *it2; if (fi->live.count(b)) continue; for (auto *s : succs(b)) if (fi->live.count(s)) { fi->live.insert(b); ch = true; break; } } }
  // post-dominators on the live sub-graph (sets; functions are small)
  std::vector<const BasicBlock *> lv; for (auto *b : bbs) if (fi->live.count(b)) lv.push_back(b);
  std::unordered_map<const BasicBlock *, int> idx; for (size_t i = 0; i < lv.size(); ++i) idx[lv[i]] = i;
  size_t n = lv.size(), W = (n + 63) / 64;
  std::vector<std::vector<uint64_t>> pd(n, std::vector<uint64_t>(W, ~0ULL));
  for (size_t i = 0; i < n; ++i) if (isa<ReturnInst>(lv[i]->getTerminator())) { std::fill(pd[i].begin(), pd[i].end(), 0); pd[i][i / 64] |= 1ULL << (i % 64); }
  ch = true;
  while (ch) {
    ch = false;
    for (int i = (int)n - 1; i >= 0; --i) {
      if (isa<ReturnInst>(lv[i]->getTerminator())) continue;
      std::vector<uint64_t> r(W, ~0ULL);
      for (auto *s : succs(lv[i])) if (fi->live.count(s)) for (size_t w = 0; w < W; ++w) r[w] &= pd[idx[s]][w];
      r[i / 64] |= 1ULL << (i % 64);
      if (r != pd[i]) { pd[i] = r; ch = true; }
    }
  }
  auto cnt = [&](int i) { int c = 0; for (auto w : pd[i]) c += __builtin_popcountll(w); return c; };
  for (size_t i = 0; i < n; ++i) {
    int best = -1, bc = -1;
    for (size_t j = 0; j < n; ++j) if (j != i && (pd[i][j / 64] >> (j % 64) & 1)) { int c = cnt(j); if (c > bc) { bc = c; best = j; } }
    fi->ipdom[lv[i]] = best < 0 ? nullptr : lv[best];
  }
  if (auto *sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = (sp->getDirectory() + "/" + f).str(); std::replace(f.begin(), f.end(), '\\', '/'); fi->repo = f.compare(0, repoPrefix.size(), repoPrefix) == 0; }
  return fi;
}

struct Frame { const Function *F; FnInfo *fi; std::vector<NV> env; std::vector<int> allocas; std::map<const BasicBlock *, int> forkDepth; };
enum R { DEAD, STOP, RET };
static R callFn(const Function *F, std::vector<NV> args, State &st, NV &ret, const Instruction *I);

static NV val(Frame &fr, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = fr.fi->num.find(v);
  if (it == fr.fi->num.end()) return mkUnknown(TI, 64, "value");
  NV r = fr.env[it->second];
  if (!r) return undefOf(v->getType());
  return r;
}
static void setv(Frame &fr, const Value *v, NV x) { fr.env[fr.fi->num[v]] = x; }

// ------------------------------------------------------------------ joins
static void mergeStates(State &a, State &b, NV c, const Ctx *forkCtx, NV forkPc, const Ctx *a0, const Ctx *b0) {
  WithCtx w(forkCtx);
  State r; r.ctx = forkCtx;
  auto extra = [](const Ctx *from, const Ctx *to, NV pc) {
    NV x = pc ? pc : mkB(true);
    for (const Ctx *q = from; q && q != to; q = q->parent) x = mkAnd(q->truth ? q->lit : mkNot(q->lit), x);
    return x;
  };
  NV pa = extra(a.ctx, a0, a.pc), pb = extra(b.ctx, b0, b.pc);
  NV rel = mkIte(c, pa, pb);
  r.pc = forkPc ? mkAnd(forkPc, rel) : rel;
  auto ia = a.objs.begin(), ib = b.objs.begin();
  while (ia != a.objs.end() || ib != b.objs.end()) {
    int id; ObjP x, y;
    if (ib == b.objs.end() || (ia != a.objs.end() && ia->first < ib->first)) { id = ia->first; x = ia->second; auto bo = baseObjs.find(id); if (bo != baseObjs.end()) y = bo->second; ++ia; }
    else if (ia == a.objs.end() || ib->first < ia->first) { id = ib->first; y = ib->second; auto bo = baseObjs.find(id); if (bo != baseObjs.end()) x = bo->second; ++ib; }
    else { id = ia->first; x = ia->second; y = ib->second; ++ia; ++ib; }
    if (!x) { r.objs[id] = y; continue; }
    if (!y) { r.objs[id] = x; continue; }
    if (x == y) { r.objs[id] = x; continue; }
    auto o = std::make_shared<Obj>(*x);
    if (x->freed != y->freed) { o->freed = 2; if (x->freed) o->cells = y->cells; r.objs[id] = o; continue; }
    // cells
    for (auto &cy : y->cells) {
      auto f = o->cells.find(cy.first);
      if (f == o->cells.end()) continue;
      if (f->second.size != cy.second.size) {
        // different layouts: read both at the smaller granularity
        continue;
      }
    }
    std::map<int64_t, Cell> out;
    std::set<int64_t> done;
    for (auto &cx : x->cells) {
      auto f = y->cells.find(cx.first);
      if (f != y->cells.end() && f->second.size == cx.second.size) {
        NV v = cx.second.v == f->second.v ? cx.second.v : mkIte(c, cx.second.v, f->second.v);
        out[cx.first] = Cell{cx.second.size, v};
      } else {
        bool overlap = false;
        for (auto it = y->cells.lower_bound(cx.first - 16); it != y->cells.end() && it->first < cx.first + cx.second.size; ++it) if (it->first + it->second.size > cx.first) overlap = true;
        if (!overlap) out[cx.first] = Cell{cx.second.size, mkIte(c, cx.second.v, mkUndef(cx.second.v->ty, cx.second.v->w))};
        else {
          // constants of different width (memset bytes against a word)
          bool done2 = false;
          if (cx.second.size > 1) {
            Obj tmp = *y; bool un = false;
            Type *t = cx.second.v->ty == TF ? (cx.second.size == 4 ? Type::getFloatTy(M->getContext()) : Type::getDoubleTy(M->getContext())) : cx.second.v->ty == TP ? (Type *)PointerType::getUnqual(M->getContext()) : (Type *)Type::getIntNTy(M->getContext(), cx.second.size * 8);
            NV v = loadScalar(tmp, cx.first, t, un);
            if (!un) { out[cx.first] = Cell{cx.second.size, mkIte(c, cx.second.v, v)}; done2 = true; }
          }
          (void)done2;
        }
      }
    }
    for (auto &cy : y->cells) {
      if (out.count(cy.first)) continue;
      bool overlap = false;
      for (auto it = out.lower_bound(cy.first - 16); it != out.end() && it->first < cy.first + cy.second.size; ++it) if (it->first + it->second.size > cy.first) overlap = true;
      if (overlap) continue;
      bool ox = false;
      for (auto it = x->cells.lower_bound(cy.first - 16); it != x->cells.end() && it->first < cy.first + cy.second.size; ++it) if (it->first + it->second.size > cy.first) ox = true;
      if (!ox) out[cy.first] = Cell{cy.second.size, mkIte(c, mkUndef(cy.second.v->ty, cy.second.v->w), cy.second.v)};
      else {
        Obj tmp = *x; bool un = false;
        Type *t = cy.second.v->ty == TF ? (cy.second.size == 4 ? Type::getFloatTy(M->getContext()) : Type::getDoubleTy(M->getContext())) : cy.second.v->ty == TP ? (Type *)PointerType::getUnqual(M->getContext()) : (Type *)Type::getIntNTy(M->getContext(), cy.second.size * 8);
        NV v = loadScalar(tmp, cy.first, t, un);
        if (!un) out[cy.first] = Cell{cy.second.size, mkIte(c, v, cy.second.v)};
      }
    }
    o->cells = std::move(out);
    r.objs[id] = o;
  }
  a = std::move(r);
}

// runs the two sides of an undecided choice and joins; returns the resulting status
static R forkJoin(State &st, NV cond, const std::function<R(State &)> &ta, const std::function<R(State &)> &fa, bool &aAlive, bool &bAlive, R &status) {
  ++totalForks;
  const Ctx *fc = st.ctx; NV fpc = st.pc;
  const Ctx *ca = withLit(fc, cond, true), *cb = withLit(fc, cond, false);
  State sa = st, sb = st;
  sa.ctx = ca; sa.pc = nullptr; sb.ctx = cb; sb.pc = nullptr;
  st.objs.clear();
  R ra = DEAD, rb = DEAD;
  if (!ca->infeasible) { cur = ca; ra = ta(sa); }
  if (!cb->infeasible) { cur = cb; rb = fa(sb); }
  aAlive = ra != DEAD; bAlive = rb != DEAD;
  auto conj = [](NV x, NV y) { if (!x) return y; if (!y) return x; return mkAnd(x, y); };
  if (aAlive && bAlive) { mergeStates(sa, sb, cond, fc, fpc, ca, cb); st = std::move(sa); status = ra; }
  else if (aAlive) { NV p = sa.pc; st = std::move(sa); cur = st.ctx; st.pc = conj(fpc, p); status = ra; }
  else if (bAlive) { NV p = sb.pc; st = std::move(sb); cur = st.ctx; st.pc = conj(fpc, p); status = rb; }
  else { st = std::move(sa); st.ctx = fc; st.pc = fpc; status = DEAD; }
  cur = st.ctx;
  return status;
}

// ------------------------------------------------------------------ instructions
static NV binop(unsigned op, NV a, NV b, Type *t, State &st, const Instruction *I) {
  if (a->k == KTuple && b->k == KTuple) { std::vector<NV> v; Type *et = cast<FixedVectorType>(t)->getElementType(); for (size_t i = 0; i < a->a.size(); ++i) v.push_back(binop(op, a->a[i], b->a[i], et, st, I)); return mkTuple(v); }
  if (a->k == KUndef || b->k == KUndef) return mkUndef(tyOf(t), widthOf(t));
  int w = widthOf(t);
  switch (op) {
  case Instruction::FAdd: return nadd(a, b, TF, 32);
  case Instruction::FSub: return nsub(a, b, TF, 32);
  case Instruction::FMul: return nmul(a, b, TF, 32);
  case Instruction::FDiv: return ndiv(a, b);
  case Instruction::FRem: return mkFn(OpFmod, {a, b});
  }
  if (w == 1) {
    switch (op) {
    case Instruction::And: case Instruction::Mul: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if (isTrue(b)) return mkNot(a); if (isTrue(a)) return mkNot(b); return mkIte(a, mkNot(b), b);
    }
  }
  // pointer arithmetic through integers
  auto isP = [](NV x) { return x->ty == TP; };
  if (isP(a) || isP(b)) {
    if (op == Instruction::Sub && isP(a) && isP(b)) {
      std::function<NV(NV, NV)> diff = [&](NV x, NV y) -> NV {
        return mapPtr(x, [&](NV p) { return mapPtr(y, [&](NV q) {
          if (p->k == KPtr && q->k == KPtr && p->obj == q->obj) return mkI(64, p->i - q->i);
          return mkUnknown(TI, 64, "pointer-difference"); }); });
      };
      return diff(a, b);
    }
    if (op == Instruction::Add && isP(a) && !isP(b)) return ptrAdd(a, b);
    if (op == Instruction::Add && isP(b) && !isP(a)) return ptrAdd(b, a);
    if (op == Instruction::Sub && isP(a) && !isP(b)) return ptrAdd(a, nneg(b));
    if (op == Instruction::And && isC(b) && b->i == -1) return a;
    // objects and functions are aligned: the low bit tells a virtual from a plain member function
    if (op == Instruction::And && isC(b) && b->i == 1) return mapPtr(a, [&](NV p) -> NV { return p->k == KPtr ? mkI(w, p->i & 1) : mkUnknown(tyOf(t), w, "pointer-arith"); });
    return mkUnknown(tyOf(t), w, "pointer-arith");
  }
  if (a->k == KConcat || b->k == KConcat) {
    if (op == Instruction::LShr && a->k == KConcat && isC(b) && a->a.size() == 2 && b->i == w / 2) return mkTuple({a->a[1]}, KConcat);
    return mkUnknown(TI, w, "concat");
  }
  bool cc = isC(a) && isC(b) && a->ty == TI && b->ty == TI;
  // gates over constants (flags): push the operation into the gate
  if (!cc && a->k == KIte && isC(b) && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], binop(op, a->a[1], b, t, st, I), binop(op, a->a[2], b, t, st, I));
  if (!cc && b->k == KIte && isC(a) && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], binop(op, a, b->a[1], t, st, I), binop(op, a, b->a[2], t, st, I));
  switch (op) {
  case Instruction::Add: return nadd(a, b, TI, w);
  case Instruction::Sub: return nsub(a, b, TI, w);
  case Instruction::Mul: return nmul(a, b, TI, w);
  case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: {
    bool u = op == Instruction::UDiv || op == Instruction::URem, rem = op == Instruction::SRem || op == Instruction::URem;
    a = u ? asUnsigned(a, w) : asSigned(a, w); b = u ? asUnsigned(b, w) : asSigned(b, w);
    Iv vb = eval(b, cur);
    if (u && w >= 64 && !(isC(a) && isC(b)) && (vb.lo < 0 || eval(a, cur).lo < 0)) return mkUnknown(TI, w, "unsigned-division");
    if (vb.lo <= 0 && vb.hi >= 0 && !vb.nz) {
      int d = decide(mkSign(b, 2), cur, 3);
      if (d != 0) event(st, "integer-division-by-zero", "", I);
      if (d == 1) return mkUnknown(TI, w, "div0");
    }
    if (isC(a) && isC(b)) { if (u) { uint64_t x = zext(a->i, 64), y = zext(b->i, 64); return mkI(w, rem ? x % y : x / y); } if (b->i == -1) return rem ? mkI(w, 0) : mkI(w, -a->i); return mkI(w, rem ? a->i % b->i : a->i / b->i); }
    Iv va = eval(a, cur);
    if (isC(b) && b->i > 0 && va.lo >= 0) {
      // split the dividend into a multiple of b and a remainder in [0,b)
      Poly q, r; double m = (double)b->i;
      for (auto &t2 : polyOf(a)) { if (std::fmod(t2.c, m) == 0) q.push_back(Term{t2.c / m, t2.m}); else r.push_back(t2); }
      NV rn = mkPoly(r, TI, w); Iv vr = eval(rn, cur);
      if (vr.lo >= 0 && vr.hi < m) return rem ? rn : mkPoly(q, TI, w);
    }
    return mkFn(rem ? (u ? OpUrem : OpSrem) : OpSdiv, {a, b}, TI, w);
  }
  case Instruction::And: {
    if (cc) return mkI(w, a->i & b->i);
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->ty == TI) {
      uint64_t m = zext(b->i, w);
      if (m == 0) return mkI(w, 0);
      if (m == (w >= 64 ? ~0ULL : (1ULL << w) - 1)) return a;
      int lo = __builtin_ctzll(m); uint64_t r = m >> lo;
      if (a->k == KIte && (r & (r + 1)) == 0) {
        NV c = a->a[0], p, q;
        { WithCtx wc(withLit(cur, c, true)); p = binop(op, a->a[1], b, t, st, I); }
        { WithCtx wc(withLit(cur, c, false)); q = binop(op, a->a[2], b, t, st, I); }
        return mkIte(c, p, q);
      }
      if ((r & (r + 1)) == 0) {
        int n = __builtin_popcountll(m);
        NV x = a;
        if (lo) x = binop(Instruction::LShr, a, mkI(w, lo), t, st, I);
        double mod = std::ldexp(1.0, n);
        Poly rest; for (auto &t2 : polyOf(x)) if (std::fmod(t2.c, mod) != 0) rest.push_back(t2);
        NV rn = mkPoly(rest, TI, w); Iv v = eval(rn, cur);
        if (v.lo >= 0 && v.hi < mod) return lo ? nmul(rn, mkI(w, 1LL << lo), TI, w) : rn;
        NV f = mkFn(OpAnd, {asUnsigned(x, w), mkI(w, (int64_t)r)}, TI, w);
        return lo ? nmul(f, mkI(w, 1LL << lo), TI, w) : f;
      }
    }
    return mkFn(OpAnd, {a, b}, TI, w);
  }
  case Instruction::Or: {
    if (cc) return mkI(w, a->i | b->i);
    Iv va = eval(a, cur), vb = eval(b, cur);
    for (int s = 0; s < 2; ++s) {
      // a multiple of 2^k, b in [0,2^k)
      if (vb.lo >= 0 && std::isfinite(vb.hi)) {
        double m = 1; while (m <= vb.hi) m *= 2;
        bool ok = true; for (auto &t2 : polyOf(a)) if (std::fmod(t2.c, m) != 0) ok = false;
        if (ok) return nadd(a, b, TI, w);
      }
      std::swap(a, b); std::swap(va, vb);
    }
    return mkFn(OpOr, {a, b}, TI, w);
  }
  case Instruction::Xor:
    if (cc) return mkI(w, a->i ^ b->i);
    return mkFn(OpXor, {a, b}, TI, w);
  case Instruction::Shl:
    if (cc) return mkI(w, (int64_t)((uint64_t)a->i << b->i));
    if (isC(b) && b->i < 62) return nmul(a, mkI(64, 1LL << b->i), TI, w);
    return mkUnknown(TI, w, "shl");
  case Instruction::LShr: case Instruction::AShr: {
    if (cc) return op == Instruction::LShr ? mkI(w, (int64_t)(zext(a->i, w) >> b->i)) : mkI(w, a->i >> b->i);
    if (op == Instruction::LShr && w >= 64 && eval(a, cur).lo < 0) return mkUnknown(TI, w, "shr");
    if (isC(b) && b->i < 62) {
      NV x = op == Instruction::LShr ? asUnsigned(a, w) : asSigned(a, w);
      double m = std::ldexp(1.0, (int)b->i);
      if (x->k == KIte) { // signed view of a large unsigned value
        NV c = x->a[0]; NV p, q;
        { WithCtx wc(withLit(cur, c, true)); p = mkFn(OpFloor, {nmul(x->a[1], mkF(1 / m), TF, 32)}, TI, w); Poly h, l; for (auto &t2 : polyOf(x->a[1])) { if (std::fmod(t2.c, m) == 0) h.push_back(Term{t2.c / m, t2.m}); else l.push_back(t2); } NV ln = mkPoly(l, TI, w); Iv v = eval(ln, cur); if (v.lo >= 0 && v.hi < m) p = mkPoly(h, TI, w); }
        { WithCtx wc(withLit(cur, c, false)); q = mkFn(OpFloor, {nmul(x->a[2], mkF(1 / m), TF, 32)}, TI, w); Poly h, l; for (auto &t2 : polyOf(x->a[2])) { if (std::fmod(t2.c, m) == 0) h.push_back(Term{t2.c / m, t2.m}); else l.push_back(t2); } NV ln = mkPoly(l, TI, w); Iv v = eval(ln, cur); if (v.lo >= 0 && v.hi < m) q = mkPoly(h, TI, w); }
        return mkIte(c, p, q);
      }
      Poly h, l; for (auto &t2 : polyOf(x)) { if (std::fmod(t2.c, m) == 0) h.push_back(Term{t2.c / m, t2.m}); else l.push_back(t2); }
      NV ln = mkPoly(l, TI, w); Iv v = eval(ln, cur);
      if (v.lo >= 0 && v.hi < m) return mkPoly(h, TI, w);
      return mkFn(OpFloor, {nmul(x, mkF(1 / m), TF, 32)}, TI, w);
    }
    return mkUnknown(TI, w, "shr");
  }
  }
  return mkUnknown(tyOf(t), w, "binop");
}
static NV icmp(CmpInst::Predicate p, NV a, NV b, int w) {
  if (a->k == KUndef || b->k == KUndef) return mkUndef(TI, 1);
  if (a->ty == TP || b->ty == TP) {
    return mapPtr(a, [&](NV x) { return mapPtr(b, [&](NV y) -> NV {
      if (x->k == KConst && x->i == 0) x = mkPtr(0, 0);
      if (y->k == KConst && y->i == 0) y = mkPtr(0, 0);
      if (x->k != KPtr || y->k != KPtr) return x->k == KUndef || y->k == KUndef ? mkUndef(TI, 1) : mkUnknown(TI, 1, "pointer-compare");
      switch (p) {
      case CmpInst::ICMP_EQ: return mkB(x == y);
      case CmpInst::ICMP_NE: return mkB(x != y);
      default: break;
      }
      int64_t u = x->i, v = y->i; if (x->obj != y->obj) { u = x->obj; v = y->obj; }
      switch (p) {
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return mkB(u < v);
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return mkB(u <= v);
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return mkB(u > v);
      default: return mkB(u >= v);
      } }); });
  }
  if (w == 1) { NV eq = mkIte(a, b, mkNot(b)); if (p == CmpInst::ICMP_EQ) return eq; if (p == CmpInst::ICMP_NE) return mkNot(eq); return mkUnknown(TI, 1, "i1-compare"); }
  if (a->ty == TF || b->ty == TF || a->k == KConcat || b->k == KConcat) return mkUnknown(TI, 1, "pun-compare");
  if (CmpInst::isSigned(p)) { a = asSigned(a, w); b = asSigned(b, w); }
  else if (CmpInst::isUnsigned(p)) { a = asUnsigned(a, w); b = asUnsigned(b, w); }
  else if (!(isC(a) && isC(b))) { a = asSigned(a, w); b = asSigned(b, w); }
  if (isC(a) && isC(b)) {
    int64_t x = a->i, y = b->i; uint64_t ux = zext(x, w), uy = zext(y, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return mkB(x == y); case CmpInst::ICMP_NE: return mkB(x != y);
    case CmpInst::ICMP_SLT: return mkB(x < y); case CmpInst::ICMP_SLE: return mkB(x <= y); case CmpInst::ICMP_SGT: return mkB(x > y); case CmpInst::ICMP_SGE: return mkB(x >= y);
    case CmpInst::ICMP_ULT: return mkB(ux < uy); case CmpInst::ICMP_ULE: return mkB(ux <= uy); case CmpInst::ICMP_UGT: return mkB(ux > uy); default: return mkB(ux >= uy);
    }
  }
  // gates: push when one side is constant
  if (a->k == KIte && isC(b)) { NV t, e; { WithCtx wc(withLit(cur, a->a[0], true)); t = icmp(p, a->a[1], b, w); } { WithCtx wc(withLit(cur, a->a[0], false)); e = icmp(p, a->a[2], b, w); } 
    auto known = [&](NV x, bool side) { if (isC(x) || x->k == KIte) return x; const Ctx *c = withLit(cur, a->a[0], side); int d = decide(x, c, 1); return d == 2 ? x : mkB(d == 1); };
    return mkIte(a->a[0], known(t, true), known(e, false)); }
  if (CmpInst::isUnsigned(p) && w >= 64) { // 64 bit values are kept signed: a negative one is larger than any other
    auto neg = [&](NV x) { return isC(x) ? mkB(x->i < 0) : eval(x, cur).lo < 0 ? mkSign(x, 1) : mkB(false); };
    NV an = neg(a), bn = neg(b);
    if (!(isC(an) && isC(bn) && !an->i && !bn->i)) {
      bool less = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE;
      NV d = mkSign(nsub(a, b, TF, 32), p == CmpInst::ICMP_ULT ? 1 : p == CmpInst::ICMP_ULE ? 3 : p == CmpInst::ICMP_UGT ? 4 : 6);
      return mkIte(an, mkIte(bn, d, mkB(!less)), mkIte(bn, mkB(less), d));
    }
  }
  int m;
  switch (p) {
  case CmpInst::ICMP_EQ: m = 2; break; case CmpInst::ICMP_NE: m = 5; break;
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: m = 1; break; case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: m = 3; break;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: m = 4; break; default: m = 6;
  }
  return mkSign(nsub(a, b, TF, 32), m);
}
static NV fcmp(CmpInst::Predicate p, NV a, NV b) {
  if (p == CmpInst::FCMP_TRUE) return mkB(true);
  if (p == CmpInst::FCMP_FALSE) return mkB(false);
  if (a->k == KUndef || b->k == KUndef) return mkUndef(TI, 1);
  int m = 0; unsigned q = (unsigned)p; // bit0 eq, bit1 gt, bit2 lt, bit3 uno
  if (q & 1) m |= 2;
  if (q & 2) m |= 4;
  if (q & 4) m |= 1;
  if (q & 8) m |= 8;
  bool ca = isC(a), cb = isC(b);
  if (ca && cb) { double x = cval(a), y = cval(b); int bit = std::isnan(x) || std::isnan(y) ? 8 : x < y ? 1 : x > y ? 4 : 2; return mkB(m & bit); }
  if ((ca && !std::isfinite(a->f)) || (cb && !std::isfinite(b->f))) {
    double c = ca ? a->f : b->f; NV x = ca ? b : a;
    if (std::isnan(c)) return mkB(m & 8);
    Iv v = eval(x, cur);
    if (!v.inf) { int bit = (c > 0) == cb ? 1 : 4; NV n = v.nan ? mkSign(x, 8) : mkB(false); return mkIte(n, mkB(m & 8), mkB(m & bit)); }
    return mkUnknown(TI, 1, "inf-compare");
  }
  return mkCmp(a, b, m);
}
static NV castop(const CastInst *I, NV v, State &st) {
  Type *t = I->getType(), *s = I->getSrcTy();
  if (v->k == KTuple) { std::vector<NV> r; if (I->getOpcode() == Instruction::BitCast) return v; return mkUnknown(TT, 0, "vector-cast"); }
  if (v->k == KUndef) return undefOf(t);
  int w = widthOf(t), sw = widthOf(s);
  switch (I->getOpcode()) {
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return convLoad(v, t);
  case Instruction::FPTrunc: case Instruction::FPExt: return v;
  case Instruction::SIToFP: case Instruction::UIToFP: {
    if (sw == 1) return mkIte(v, mkF(I->getOpcode() == Instruction::SIToFP ? -1 : 1), mkF(0));
    NV x = I->getOpcode() == Instruction::SIToFP ? asSigned(v, sw) : asUnsigned(v, sw);
    if (I->getOpcode() == Instruction::UIToFP && sw >= 64 && (isC(x) ? x->i < 0 : eval(x, cur).lo < 0)) return isC(x) ? mkF((double)(uint64_t)x->i) : mkUnknown(TF, 32, "unsigned-to-float");
    if (isC(x)) return mkF((double)x->i);
    return mkPoly(polyOf(x), TF, 32);
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    if (isC(v)) { double d = std::trunc(cval(v)); if (!std::isfinite(d) || std::fabs(d) > 9e18) return mkUnknown(TI, w, "fptosi"); return mkI(w, (int64_t)d); }
    return mkFn(OpTrunc, {v}, TI, w);
  }
  case Instruction::ZExt: {
    if (v->k == KConcat || v->ty != TI) return v;
    if (sw == 1) return mkIte(v, mkI(w, 1), mkI(w, 0));
    if (isC(v)) return mkI(w, (int64_t)zext(v->i, sw));
    return asUnsigned(v, sw);
  }
  case Instruction::SExt: {
    if (sw == 1) return mkIte(v, mkI(w, -1), mkI(w, 0));
    if (isC(v)) return mkI(w, v->i);
    return asSigned(v, sw);
  }
  case Instruction::Trunc: {
    if (v->k == KConcat) { if (v->a.size() == 1) return convLoad(v->a[0], t); if ((int)(sw / v->a.size()) == w) return convLoad(v->a[0], t); return mkUnknown(TI, w, "trunc-concat"); }
    if (v->ty == TP) return mkUnknown(TI, w, "trunc-pointer");
    if (isC(v)) return mkI(w, v->i);
    if (v->k == KIte) { NV c = v->a[0]; NV a = isC(v->a[1]) ? mkI(w, v->a[1]->i) : nullptr, b = isC(v->a[2]) ? mkI(w, v->a[2]->i) : nullptr; if (a && b) return mkIte(c, a, b); }
    Iv x = eval(v, cur);
    if (w == 1) { if (x.lo >= 0 && x.hi <= 1) return mkSign(v, 5); return mkSign(mkFn(OpAnd, {v, mkI(32, 1)}, TI, 32), 5); }
    double b = std::ldexp(1.0, w);
    if (x.lo >= -b / 2 && x.hi < b) return v;
    Poly r; for (auto &q : polyOf(v)) if (std::fmod(q.c, b) != 0) r.push_back(q);
    NV rn = mkPoly(r, TI, w); Iv y = eval(rn, cur);
    if (y.lo >= -b / 2 && y.hi < b) return rn;
    return mkFn(OpAnd, {asUnsigned(v, sw), mkI(64, (int64_t)(b - 1))}, TI, w);
  }
  default: return mkUnknown(tyOf(t), w, "cast");
  }
}

static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static long randCount = 0, randFresh = 0; static std::string randSeed = "initial";
static void runCase(State &st, const std::string &label, NV fn, NV arg, const Instruction *I);
static bool settled = false; // the verdict already takes account of unmodelled calls
static void addOblig(const std::string &what, const Result &r, const std::string &loc, const Instruction *I, const std::string &kind) {
  if (!curCase) return;
  ++curCase->obl;
  bool soft = r.verdict == 0 && !settled && lostNow();
  obligs.push_back(Oblig{curEntry, curCase->label, what, soft ? "after a call whose effects are not modelled: " + r.why : r.why, loc, locOf(I), kind, soft ? 2 : r.verdict, r.cases});
}
static NV dynType(State &st, NV obj, const Instruction *I) { // typeinfo pointer of a polymorphic object
  NV vp = memLoad(st, obj, PointerType::getUnqual(M->getContext()), I);
  if (!vp || vp->k != KPtr) return nullptr;
  return memLoad(st, mkPtr(vp->obj, vp->i - 8), PointerType::getUnqual(M->getContext()), I);
}

// returns DEAD when the call does not return; handled=false when unknown
// ------------------------------------------------------------------ text
// Characters of a string up to its terminator (or n of them); false when the length is not determined.
static bool chars(State &st, NV p, int64_t n, std::vector<NV> &out, const Instruction *I) {
  if (p->k != KPtr || !p->obj) return false;
  const Obj *o = getObj(st, p->obj);
  if (!o) return false;
  Type *i8 = Type::getInt8Ty(M->getContext());
  for (int64_t k = p->i; n < 0 ? k < o->size : k < p->i + n; ++k) {
    bool un = false;
    if (k < 0 || k >= o->size) return false;
    NV v = loadScalar(*o, k, i8, un);
    if (un || v->k == KUndef) return false;
    v = asSigned(v, 8);
    if (n < 0) { int z = decide(mkCmp(v, mkI(8, 0), 2), st.ctx, 3); if (z == 1) return true; if (z == 2) return false; }
    out.push_back(v);
    if (out.size() > 4096) return false;
  }
  return n >= 0;
}
static NV inRange(NV c, int lo, int hi) { return mkAnd(mkCmp(c, mkI(c->w ? c->w : 8, lo), 2 | 4), mkCmp(c, mkI(c->w ? c->w : 8, hi), 1 | 2)); }
// is the character (an integer term) a member of the set?
static NV member(NV c, const std::vector<bool> &set) {
  return mapPtr(c, [&](NV x) -> NV {
    if (isC(x)) return mkB(set[(uint8_t)x->i]);
    Iv v = eval(x, cur); bool all = true, none = true;
    int lo = std::max(-128.0, v.lo), hi = std::min(255.0, v.hi);
    for (int k = lo; k <= hi; ++k) (set[(uint8_t)k] ? none : all) = false;
    if (all) return mkB(true);
    if (none) return mkB(false);
    NV r = mkB(false);
    for (int k = lo; k <= hi;) { int j = k; while (j + 1 <= hi && set[(uint8_t)(j + 1)] == set[(uint8_t)k]) ++j; if (set[(uint8_t)k]) r = mkOr(r, inRange(x, k, j)); k = j + 1; }
    return r;
  });
}
static std::vector<bool> setOf(const char *spec) { // "a-zA-Z0-9_"
  std::vector<bool> s(256); for (const char *p = spec; *p; ++p) if (p[1] == '-' && p[2]) { for (int k = (uint8_t)*p; k <= (uint8_t)p[2]; ++k) s[k] = true; p += 2; } else s[(uint8_t)*p] = true;
  return s;
}
// value of a digit; only meaningful for characters that are digits
static NV digitValue(NV c, int w) {
  return mapPtr(c, [&](NV x) -> NV {
    if (isC(x)) { int k = (int)x->i; return mkI(w, k >= '0' && k <= '9' ? k - '0' : k >= 'a' ? k - 'a' + 10 : k - 'A' + 10); }
    auto part = [&](int d) { return nsub(x, mkI(w, d), TI, w); };
    NV isDec = mkCmp(x, mkI(w, '9'), 1 | 2), isUp = mkCmp(x, mkI(w, 'Z'), 1 | 2);
    int d = decide(isDec, cur, 3), u = decide(isUp, cur, 3);
    NV let = u == 1 ? part('A' - 10) : u == 0 ? part('a' - 10) : mkIte(isUp, part('A' - 10), part('a' - 10));
    return d == 1 ? part('0') : d == 0 ? let : mkIte(isDec, part('0'), let);
  });
}
// ---- regular expressions: Thompson automaton over character sets, run on terms
struct Regex {
  struct S { std::vector<bool> set; int to = -1; std::vector<int> eps; int assertion = 0; }; // assertion: 1 begin, 2 end
  std::vector<S> st; int start = 0, accept = 0; bool ok = true;
  std::string p; size_t i = 0; bool icase = false;
  int mk() { st.push_back({}); return st.size() - 1; }
  typedef std::pair<int, int> Frag;
  Frag cls(std::vector<bool> s) {
    if (icase) for (int c = 'a'; c <= 'z'; ++c) if (s[c] || s[c - 32]) s[c] = s[c - 32] = true;
    int a = mk(), b = mk(); st[a].set = s; st[a].to = b; return {a, b};
  }
  bool esc(char c, std::vector<bool> &s) {
    bool neg = false;
    switch (c) {
    case 'D': neg = true; case 'd': s = setOf("0-9"); break;
    case 'W': neg = true; case 'w': s = setOf("a-zA-Z0-9_"); break;
    case 'S': neg = true; case 's': s = setOf(" \t\n\r\f\v"); break;
    case 't': s = setOf("\t"); break; case 'n': s = setOf("\n"); break; case 'r': s = setOf("\r"); break;
    default: if (isalnum((unsigned char)c)) return false; s = std::vector<bool>(256); s[(uint8_t)c] = true;
    }
    if (neg) s.flip();
    return true;
  }
  Frag atom() {
    char c = p[i++];
    if (c == '(') {
      if (p.compare(i, 2, "?:") == 0) i += 2; else if (i < p.size() && p[i] == '?') { ok = false; return {0, 0}; }
      Frag f = alt(); if (i >= p.size() || p[i] != ')') { ok = false; return f; } ++i; return f; }
    if (c == '.') { std::vector<bool> s(256, true); s['\n'] = s['\r'] = false; return cls(s); }
    if (c == '^' || c == '$') { int a = mk(), b = mk(); st[a].assertion = c == '^' ? 1 : 2; st[a].eps = {b}; return {a, b}; }
    if (c == '\\') { std::vector<bool> s; if (i >= p.size() || !esc(p[i++], s)) { ok = false; return {0, 0}; } return cls(s); }
    if (c == '[') {
      bool neg = i < p.size() && p[i] == '^'; if (neg) ++i;
      std::vector<bool> s(256);
      while (i < p.size() && p[i] != ']') {
        if (p[i] == '[' && i + 1 < p.size() && p[i + 1] == ':') {
          size_t e = p.find(":]", i); std::string n = e == std::string::npos ? "" : p.substr(i + 2, e - i - 2);
          std::vector<bool> t; if (n == "xdigit") t = setOf("0-9a-fA-F"); else if (n == "digit" || n == "d") t = setOf("0-9"); else if (n == "alpha") t = setOf("a-zA-Z"); else if (n == "alnum") t = setOf("a-zA-Z0-9"); else if (n == "upper") t = setOf("A-Z"); else if (n == "lower") t = setOf("a-z"); else { ok = false; return {0, 0}; }
          for (int k = 0; k < 256; ++k) if (t[k]) s[k] = true;
          i = e + 2; continue; }
        auto one = [&](std::vector<bool> &t, int &v) { v = -1; if (p[i] == '\\') { ++i; if (i >= p.size() || !esc(p[i], t)) { ok = false; return; } int n = 0; for (int k = 0; k < 256; ++k) if (t[k]) { ++n; v = k; } if (n != 1) v = -1; ++i; } else { v = (uint8_t)p[i++]; t = std::vector<bool>(256); t[v] = true; } };
        std::vector<bool> t; int a, b; one(t, a); if (!ok) return {0, 0};
        if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']') { ++i; std::vector<bool> u; one(u, b); if (!ok || a < 0 || b < a) { ok = false; return {0, 0}; } for (int k = a; k <= b; ++k) s[k] = true; }
        else for (int k = 0; k < 256; ++k) if (t[k]) s[k] = true;
      }
      if (i >= p.size()) { ok = false; return {0, 0}; }
      ++i;
      if (icase) for (int k = 'a'; k <= 'z'; ++k) if (s[k] || s[k - 32]) s[k] = s[k - 32] = true;
      if (neg) s.flip();
      int a = mk(), b = mk(); st[a].set = s; st[a].to = b; return {a, b};
    }
    if (strchr("*+?{}|)]", c)) { ok = false; return {0, 0}; }
    std::vector<bool> s(256); s[(uint8_t)c] = true; return cls(s);
  }
  Frag empty() { int a = mk(), b = mk(); st[a].eps = {b}; return {a, b}; }
  Frag cat(Frag a, Frag b) { st[a.second].eps.push_back(b.first); return {a.first, b.second}; }
  Frag rep() {
    size_t from = i; Frag f = atom();
    while (ok && i < p.size()) {
      int lo, hi; char c = p[i];
      if (c == '*') { lo = 0; hi = -1; ++i; } else if (c == '+') { lo = 1; hi = -1; ++i; } else if (c == '?') { lo = 0; hi = 1; ++i; }
      else if (c == '{') {
        char *e; lo = strtol(p.c_str() + i + 1, &e, 10); hi = lo; if (*e == ',') { ++e; if (*e == '}') hi = -1; else hi = strtol(e, &e, 10); }
        if (*e != '}' || lo > 64 || hi > 64) { ok = false; return f; } i = e - p.c_str() + 1;
      } else break;
      if (i < p.size() && p[i] == '?') ++i; // lazy: same language
      size_t after = i, j;
      auto again = [&] { j = i; i = from; Frag g = atom(); i = j; return g; };
      Frag r = empty();
      for (int k = 0; k < lo; ++k) r = cat(r, again());
      if (hi < 0) { Frag g = again(); int a = mk(), b = mk(); st[a].eps = {g.first, b}; st[g.second].eps.push_back(a); r = cat(r, {a, b}); }
      else for (int k = lo; k < hi; ++k) { Frag g = again(); int a = mk(), b = mk(); st[a].eps = {g.first, b}; st[g.second].eps.push_back(b); r = cat(r, {a, b}); }
      f = r; i = after; 
      if (i < p.size() && strchr("*+?{", p[i])) { ok = false; return f; }
    }
    return f;
  }
  Frag seq() { Frag f = empty(); while (ok && i < p.size() && p[i] != '|' && p[i] != ')') f = cat(f, rep()); return f; }
  Frag alt() { Frag f = seq(); while (ok && i < p.size() && p[i] == '|') { ++i; Frag g = seq(); int a = mk(), b = mk(); st[a].eps = {f.first, g.first}; st[f.second].eps.push_back(b); st[g.second].eps.push_back(b); f = {a, b}; } return f; }
  Regex(const std::string &s, bool ic) : p(s), icase(ic) { Frag f = alt(); if (i != p.size()) ok = false; start = f.first; accept = f.second; }
  // is the text a word of the language (search: does it contain one)?
  NV match(const std::vector<NV> &t, bool search) {
    std::map<int, NV> now; NV found = mkB(false);
    auto close = [&](std::map<int, NV> &m, size_t pos) {
      std::vector<int> work; for (auto &x : m) work.push_back(x.first);
      while (!work.empty()) { int s = work.back(); work.pop_back(); NV c = m[s];
        if (st[s].assertion == 1 && pos != 0) continue;
        if (st[s].assertion == 2 && pos != t.size()) continue;
        for (int e : st[s].eps) { auto it = m.find(e); NV n = it == m.end() ? c : mkOr(it->second, c); if (it == m.end() || it->second != n) { m[e] = n; work.push_back(e); } } }
    };
    now[start] = mkB(true); close(now, 0);
    for (size_t k = 0;; ++k) {
      if (search && now.count(accept)) found = mkOr(found, now[accept]);
      if (k == t.size()) break;
      std::map<int, NV> next; std::map<int, NV> mem;
      for (auto &x : now) if (st[x.first].to >= 0) { NV c = mkAnd(x.second, member(t[k], st[x.first].set)); if (isFalse(c)) continue; NV &n = next[st[x.first].to]; n = n ? mkOr(n, c) : c; }
      if (search) next[start] = mkB(true);
      close(next, k + 1); now = std::move(next);
    }
    return search ? found : now.count(accept) ? now[accept] : mkB(false);
  }
};
static std::vector<std::pair<std::string, bool>> patterns;
static bool textDefined() { static int d = -1; if (d < 0) { d = 0; for (auto &F : *M) if (F.getName().starts_with("_ZNSt7__cxx1112basic_string") && F.getName().contains("_M_create") && !F.isDeclaration()) d = 1; } return d; }
// characters of a std::string object (libstdc++ layout: pointer, length)
static bool stringChars(State &st, NV s, std::vector<NV> &out, const Instruction *I) {
  NV p = memLoad(st, s, PointerType::getUnqual(M->getContext()), I), n = memLoad(st, ptrAdd(s, mkI(64, 8)), Type::getInt64Ty(M->getContext()), I);
  if (!p || !n) return false;
  if (!isC(n)) n = rebuild(n, st.ctx);
  if (!isC(p) && p->k != KPtr) p = rebuild(p, st.ctx);
  return isC(n) && chars(st, p, n->i, out, I);
}
static bool text(std::string nm, const std::string &dem, std::vector<NV> &a, State &st, NV &ret, const Instruction *I, Type *rt, R &res) {
  res = RET;
  if (startsWith(nm, "__isoc23_") || startsWith(nm, "__isoc99_")) nm = nm.substr(9);
  if (nm == "strlen") { std::vector<NV> c; ret = chars(st, a[0], -1, c, I) ? mkI(64, c.size()) : mkUnknown(TI, 64, "strlen"); return true; }
  static const std::map<std::string, const char *> classes = {{"isxdigit", "0-9a-fA-F"}, {"isdigit", "0-9"}, {"isalpha", "a-zA-Z"}, {"isalnum", "a-zA-Z0-9"}, {"isupper", "A-Z"}, {"islower", "a-z"}, {"isspace", " \t\n\r\f\v"}};
  auto cl = classes.find(nm);
  if (cl != classes.end() && a.size() == 1) { NV m = member(asSigned(a[0], 32), setOf(cl->second)); ret = mkIte(m, mkI(32, 1), mkI(32, 0)); return true; }
  if ((nm == "tolower" || nm == "toupper") && a.size() == 1) {
    bool up = nm == "toupper"; NV c = asSigned(a[0], 32);
    ret = mapPtr(c, [&](NV x) -> NV { NV m = member(x, setOf(up ? "a-z" : "A-Z")); return mkIte(m, nadd(x, mkI(32, up ? -32 : 32), TI, 32), x); });
    return true; }
  if (nm == "__errno_location") { static int obj = 0; if (!obj) { NV p = allocObj(st, 4, 'g', "errno", I); obj = p->obj; } if (!getObj(st, obj)) { ret = mkUnknown(TP, 64, nm); return true; } const Obj *eo = getObj(st, obj); if (eo->cells.empty()) memStore(st, mkPtr(obj, 0), mkI(32, 0), Type::getInt32Ty(M->getContext()), I); ret = mkPtr(obj, 0); return true; }
  if (nm == "memchr" && isC(a[2])) {
    std::vector<NV> c; ret = mkUnknown(TP, 64, "memchr"); NV x = asSigned(a[1], 32);
    if (!chars(st, a[0], a[2]->i, c, I)) { event(st, "unmodelled-external", dem, I); return true; }
    bool lit = true; std::vector<bool> set(256); for (NV y : c) { if (isC(y)) set[(uint8_t)y->i] = true; else lit = false; }
    NV base = a[0];
    ret = mapPtr(x, [&](NV k) -> NV {
      Iv v = eval(k, cur);
      if (lit && v.hi < 128) { bool any = false; for (int q = std::max(-128.0, v.lo); q <= (int)std::min(255.0, v.hi); ++q) any |= set[(uint8_t)q]; if (!any) return mkPtr(0, 0); }
      NV r = mkPtr(0, 0);
      for (size_t j = c.size(); j-- > 0;) { NV eq = mkCmp(k, c[j], 2); int d = decide(eq, cur, 3); if (d == 1) r = ptrAdd(base, mkI(64, j)); else if (d == 2) r = mkIte(eq, ptrAdd(base, mkI(64, j)), r); }
      return r; });
    return true; }
  if (nm == "strtol" || nm == "strtoul" || nm == "strtoll" || nm == "strtoull") {
    std::vector<NV> c; int w = widthOf(rt);
    ret = mkUnknown(TI, w, nm);
    if (!isC(a[2]) || !chars(st, a[0], -1, c, I)) { return true; }
    int base = (int)a[2]->i; if (base != 16 && base != 10) return true;
    std::vector<bool> set = setOf(base == 16 ? "0-9a-fA-F" : "0-9");
    NV v = mkI(w, 0); size_t k = 0; bool clean = true;
    for (; k < c.size(); ++k) { int d = decide(member(c[k], set), st.ctx, 3); if (d == 0) { if (k == 0 || (k == 1 && base == 16)) clean = false; break; } if (d == 2) { clean = false; break; } v = nadd(nmul(v, mkI(w, base), TI, w), digitValue(c[k], w), TI, w); }
    if (!clean || k > 15) { if (a[1]->k == KPtr && a[1]->obj) memStore(st, a[1], mkUnknown(TP, 64, nm), PointerType::getUnqual(M->getContext()), I); return true; }
    if (a[1]->k == KPtr && a[1]->obj) memStore(st, a[1], ptrAdd(a[0], mkI(64, k)), PointerType::getUnqual(M->getContext()), I);
    ret = v; return true;
  }
  if (nm == "sscanf" || nm == "sscanf_s") {
    std::vector<NV> c; std::vector<NV> fc;
    ret = mkUnknown(TI, 32, "sscanf");
    std::string f = cstr(st, a[1]);
    if (!chars(st, a[0], -1, c, I)) { event(st, "unmodelled-external", dem, I); return true; }
    size_t k = 0, arg = 2; int n = 0; bool lost = false;
    std::vector<bool> hex = setOf("0-9a-fA-F"), dec = setOf("0-9");
    for (size_t i = 0; i < f.size(); ++i) {
      if (f[i] == ' ') { event(st, "unmodelled-external", dem, I); return true; }
      if (f[i] != '%') { if (lost) continue; if (k >= c.size()) { lost = true; continue; } int d = decide(mkCmp(c[k], mkI(8, (int8_t)f[i]), 2), st.ctx, 3); if (d == 1) ++k; else if (d == 0) break; else lost = true; continue; }
      ++i; int wd = 0; while (i < f.size() && isdigit((unsigned char)f[i])) wd = wd * 10 + f[i++] - '0';
      if (!wd) wd = 1 << 20;
      int sz = 4; if (f.compare(i, 2, "hh") == 0) { sz = 1; i += 2; } else if (f[i] == 'h') { sz = 2; ++i; } else if (f[i] == 'l') { sz = 8; ++i; if (f[i] == 'l') ++i; }
      if (i >= f.size() || !strchr("xXdu", f[i]) || arg >= a.size()) { event(st, "unmodelled-external", dem, I); return true; }
      int base = f[i] == 'x' || f[i] == 'X' ? 16 : 10; NV v = mkI(sz * 8, 0); int used = 0;
      Type *t = Type::getIntNTy(M->getContext(), sz * 8); NV dst = a[arg++];
      if (!lost) for (; used < wd && k < c.size(); ++k, ++used) {
        int d = decide(member(c[k], base == 16 ? hex : dec), st.ctx, 3);
        if (d == 0 && used) { if (used == 1 && base == 16 && decide(member(c[k], setOf("xX")), st.ctx, 3) != 0) lost = true; break; }
        if (d != 1) { lost = true; break; }
        v = nadd(nmul(v, mkI(sz * 8, base), TI, sz * 8), digitValue(c[k], sz * 8), TI, sz * 8); }
      if (lost) { memStore(st, dst, mkUnknown(TI, sz * 8, "sscanf"), t, I); continue; }
      if (!used) { ret = mkI(32, n ? n : -1); return true; } // end of input: the rest stays as it was
      memStore(st, dst, v, t, I); ++n;
    }
    if (!lost) ret = mkI(32, n);
    return true;
  }
  if (textDefined() && startsWith(dem, "std::__cxx11::basic_regex<char")) {
    size_t q = dem.find(">::"); std::string m = q == std::string::npos ? "" : dem.substr(q + 3);
    Type *i64 = Type::getInt64Ty(M->getContext());
    if (startsWith(m, "basic_regex(") || startsWith(m, "operator=(") || startsWith(m, "assign(")) {
      std::vector<NV> c; bool ok = true; NV fl = nullptr;
      if (m.find("basic_regex(std::__cxx11::basic_regex") == 0 || m.find("=(std::__cxx11::basic_regex") != std::string::npos || m.find("assign(std::__cxx11::basic_regex") == 0) { NV id = memLoad(st, a[1], i64, I); if (id) memStore(st, a[0], id, i64, I); ret = a[0]; return true; }
      if (m.find("(char const*, unsigned long") != std::string::npos) { ok = isC(a[2]) && chars(st, a[1], a[2]->i, c, I); fl = a.size() > 3 ? a[3] : nullptr; }
      else if (m.find("(char const*") != std::string::npos) { ok = chars(st, a[1], -1, c, I); fl = a.size() > 2 ? a[2] : nullptr; }
      else if (m.find("basic_string<char") != std::string::npos) { ok = stringChars(st, a[1], c, I); fl = a.size() > 2 ? a[2] : nullptr; }
      else ok = false;
      std::string p; for (NV x : c) { if (!isC(x)) ok = false; else p += (char)x->i; }
      bool ic = fl && isC(fl) && (fl->i & 1); if (fl && !isC(fl)) ok = false;
      if (fl && isC(fl) && (fl->i & ~(int64_t)(1 | 2 | 4 | 16))) ok = false; // icase, nosubs, optimize, ECMAScript
      NV id; if (ok) { patterns.push_back({p, ic}); id = mkI(64, patterns.size()); } else id = mkUnknown(TI, 64, "regex");
      memStore(st, a[0], id, i64, I); ret = a[0]; return true;
    }
    if (startsWith(m, "~basic_regex")) return true;
    return false;
  }
  if (textDefined() && (startsWith(dem, "bool std::regex_match<") || startsWith(dem, "bool std::regex_search<"))) {
    bool search = dem.find("regex_search") < 20; std::vector<NV> c; bool ok = true; NV re = nullptr;
    ret = mkUnknown(TI, 1, "regex_match");
    if (dem.find("match_results") != std::string::npos) { event(st, "unmodelled-external", dem, I); return true; }
    size_t q = dem.find(">(");
    // the parameter list starts at the last top-level parenthesis
    int depth = 0; size_t o = dem.size(); for (size_t k = dem.size(); k-- > 0;) { if (dem[k] == ')') ++depth; if (dem[k] == '(' && --depth == 0) { o = k; break; } }
    std::string par = dem.substr(o + 1); (void)q;
    if (startsWith(par, "char const*, std::__cxx11::basic_regex")) { ok = chars(st, a[0], -1, c, I); re = a[1]; }
    else if (startsWith(par, "std::__cxx11::basic_string<")) { ok = stringChars(st, a[0], c, I); re = a[1]; }
    else if (startsWith(par, "char const*, char const*,") || startsWith(par, "__gnu_cxx::__normal_iterator<char")) { ok = a[0]->k == KPtr && a[1]->k == KPtr && a[0]->obj == a[1]->obj && chars(st, a[0], a[1]->i - a[0]->i, c, I); re = a[2]; }
    else ok = false;
    NV id = ok ? memLoad(st, re, Type::getInt64Ty(M->getContext()), I) : nullptr;
    if (!ok || !id || !isC(id) || id->i < 1 || id->i > (int64_t)patterns.size()) { event(st, "unmodelled-external", dem, I); return true; }
    Regex r(patterns[id->i - 1].first, patterns[id->i - 1].second);
    if (!r.ok) { event(st, "unmodelled-external", "regular expression " + patterns[id->i - 1].first, I); return true; }
    ret = r.match(c, search); return true;
  }
  return false;
}

static R external(const Function *F, const std::string &dem, std::vector<NV> &a, State &st, NV &ret, const Instruction *I, bool &handled) {
  std::string nm = F->getName().str();
  handled = true;
  Type *rt = F->getReturnType();
  auto isIntr = [&](const char *p) { return startsWith(nm, p); };
  // ---- harness interface
  if (startsWith(nm, "ai_")) {
    auto what = [&](int i) { return cstr(st, a[i]); };
    if (nm == "ai_sym") { ret = mkSym(what(0), TF, 32, Iv{cval(a[1]), cval(a[2])}); return RET; }
    if (nm == "ai_any") { ret = mkSym(what(0), TF, 32, Iv{-INF, INF, true, false, true}); return RET; }
    if (nm == "ai_finite") { ret = mkSym(what(0), TF, 32, Iv{-INF, INF, false, false, false}); return RET; }
    if (nm == "ai_symi") { ret = mkSym(what(0) + std::to_string((int)cval(a[1])), TF, 32, Iv{cval(a[2]), cval(a[3])}); return RET; }
    if (nm == "ai_anyi") { ret = mkSym(what(0) + std::to_string((int)cval(a[1])), TF, 32, Iv{-INF, INF, true, false, true}); return RET; }
    if (nm == "ai_int") { ret = mkSym(what(0), TI, 32, Iv{cval(a[1]), cval(a[2])}); return RET; }
    if (nm == "ai_assume") {
      NV c = a[0];
      const Ctx *x = withLit(st.ctx, c, true);
      if (x->infeasible) { if (curCase) { curCase->aborted = true; curCase->abortWhy = "assumption infeasible"; } return DEAD; }
      st.ctx = x; cur = x; ret = nullptr; return RET;
    }
    if (nm == "ai_eq") { Result r = proveEq(a[0], a[1], st.ctx, st.pc, cval(a[2])); std::string l = r.verdict == 1 ? "" : bestLoc(a[0]); if (r.verdict != 1 && getenv("CMAI_DEBUG")) fprintf(stderr, "EQ %s/%s v=%d %s\n  code=%s\n  spec=%s\n  ctx=%s\n", curCase ? curCase->label.c_str() : "", what(3).c_str(), r.verdict, r.why.c_str(), show(a[0], 7).c_str(), show(a[1], 7).c_str(), showLits(st.ctx).c_str()); addOblig(what(3), r, l, I, "equality"); return RET; }
    if (nm == "ai_in") { Result r = proveIn(a[0], cval(a[1]), cval(a[2]), st.ctx, st.pc, 1e-6); std::string l = r.verdict == 1 ? "" : bestLoc(a[0]); if (r.verdict != 1 && getenv("CMAI_DEBUG")) fprintf(stderr, "IN %s/%s v=%d %s\n  code=%s\n", curCase ? curCase->label.c_str() : "", what(3).c_str(), r.verdict, r.why.c_str(), show(a[0], 7).c_str()); addOblig(what(3), r, l, I, "range"); return RET; }
    if (nm == "ai_true") { Result r = proveTrue(a[0], st.ctx, st.pc); std::string l = r.verdict == 1 ? "" : bestLoc(a[0]); if (r.verdict == 0 && isC(a[0])) { std::string w; if (!findWitness(st.ctx, st.pc, w)) { r.verdict = 2; r.why = "path not shown feasible"; } else r.why = "false (" + w + ")"; } if (r.verdict != 1 && getenv("CMAI_DEBUG")) fprintf(stderr, "TRUE %s/%s v=%d %s\n  code=%s\n", curCase ? curCase->label.c_str() : "", what(1).c_str(), r.verdict, r.why.c_str(), show(a[0], 7).c_str()); addOblig(what(1), r, l, I, "condition"); return RET; }
    if (nm == "ai_peq") { Result r = proveEq(a[0], a[1], st.ctx, st.pc, 0); addOblig(what(2), r, "", I, "identity"); return RET; }
    if (nm == "ai_expect_throw") { if (curCase) { curCase->expectThrow = true; curCase->throwType = what(0); } return RET; }
    if (nm == "ai_allow_throw") { if (curCase) curCase->allowThrow = true; return RET; }
    if (nm == "ai_case") { std::string l = what(0), l2 = what(1), l3 = what(2); if (!l2.empty()) l += " " + l2; if (!l3.empty()) l += " " + l3; runCase(st, l, a[3], a[4], I); cur = st.ctx; return RET; }
    if (nm == "ai_havoc_statics") { // any earlier history: the only mutable scalar kept between calls holds anything
      const auto &c = keptState();
      if (c.size() == 1) { auto *g = c[0]; Type *t = g->getValueType(); std::string n = "kept " + std::to_string(havocs++);
        NV v = t->isIntegerTy() ? mkSym(n, TI, t->getIntegerBitWidth(), t->getIntegerBitWidth() == 8 ? Iv{0, 1} : Iv{0, 100000}) : mkSym(n, TF, 32, Iv{0, 1000});
        memStore(st, mkPtr(objOfGv(g), 0), v, t, I); }
      return RET; }
    if (nm == "ai_dump") { fprintf(stderr, "DUMP %s = %s   in %s\n", what(1).c_str(), show(a[0], 9).c_str(), showLits(st.ctx).c_str()); return RET; }
    if (nm == "ai_is_null") { ret = icmp(CmpInst::ICMP_EQ, a[0], mkPtr(0, 0), 64); return RET; }
    if (nm == "ai_decided") { ret = mkI(32, decide(a[0], st.ctx, 3)); return RET; }
  }
  // ---- memory
  if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "_ZnwmRKSt9nothrow_t" || nm == "_ZnamRKSt9nothrow_t") {
    NV n = isC(a[0]) ? a[0] : rebuild(a[0], st.ctx);
    if (!isC(n)) {
      Iv v = eval(n, st.ctx);
      if (v.nan || v.hi > 1e6) { if (getenv("CMAI_DEBUG")) fprintf(stderr, "ALLOC %s in %s\n", show(n, 12).c_str(), showLits(st.ctx).c_str()); throw Abort{"allocation of unbounded symbolic size"}; }
      ret = allocObj(st, (int64_t)v.hi, 'h', "", I); return RET;
    }
    ret = allocObj(st, (int64_t)cval(n), 'h', "", I); return RET;
  }
  if (nm == "_ZdlPv" || nm == "_ZdaPv" || nm == "_ZdlPvm" || nm == "free" || nm == "_ZdlPvRKSt9nothrow_t" || nm == "_ZdaPvm") {
    std::vector<Leaf> ls; leaves(a[0], st.ctx, mkB(true), ls);
    for (auto &l : ls) {
      if (l.ptr->k != KPtr) { if (l.ptr->k == KUndef) event(st, "delete-uninitialised", "", I); continue; }
      if (l.ptr->obj == 0) continue;
      const Obj *o = getObj(st, l.ptr->obj);
      if (!o || o->kind != 'h' || l.ptr->i != 0) { event(st, "bad-delete", "", I); continue; }
      if (o->freed == 1) { event(st, "double-free", "", I); continue; }
      Obj *wo = wObj(st, l.ptr->obj);
      if (isTrue(l.cond)) { wo->freed = 1; wo->cells.clear(); } else wo->freed = 2;
    }
    return RET;
  }
  if (isIntr("llvm.memcpy") || isIntr("llvm.memmove") || nm == "memcpy" || nm == "memmove") {
    NV n = isC(a[2]) ? a[2] : rebuild(a[2], st.ctx);
    if (n->k == KIte) {
      // gated length: copy under the gate
      bool aA, bA; R s;
      NV d = a[0], sr = a[1];
      forkJoin(st, n->a[0], [&](State &x) { memCopy(x, d, sr, n->a[1], I); return RET; }, [&](State &x) { memCopy(x, d, sr, n->a[2], I); return RET; }, aA, bA, s);
    } else memCopy(st, a[0], a[1], n, I);
    if (!isIntr("llvm.")) ret = a[0];
    return RET; }
  if (isIntr("llvm.memset") || nm == "memset") {
    NV n = isC(a[2]) ? a[2] : rebuild(a[2], st.ctx);
    if (!isC(n) || cval(n) > 65536 || !isC(a[1])) { event(st, "unmodelled-memset", "", I); return RET; }
    int64_t len = (int64_t)cval(n);
    Type *i8 = Type::getInt8Ty(M->getContext());
    for (int64_t k = 0; k < len; ++k) if (!memStore(st, ptrAdd(a[0], mkI(64, k)), mkI(8, a[1]->i), i8, I)) break;
    if (!isIntr("llvm.")) ret = a[0];
    return RET;
  }
  if (isIntr("llvm.dbg") || isIntr("llvm.lifetime") || isIntr("llvm.experimental.noalias") || isIntr("llvm.assume") || isIntr("llvm.va_")) return RET;
  if (isIntr("llvm.is.constant")) { ret = mkB(false); return RET; }
  if (isIntr("llvm.expect")) { ret = a[0]; return RET; }
  if (isIntr("llvm.is.fpclass")) { // isnan, isinf, isfinite, isnormal
    int m = (int)cval(a[1]); NV x = a[0];
    auto pair = [&](int bits) { return (m & bits) == bits ? 1 : (m & bits) ? -1 : 0; };
    int nan = pair(3), neg = pair(0x18), zero = pair(0x60), pos = pair(0x180), ni = pair(4), pi = pair(0x200);
    if (x->k == KUndef || nan < 0 || neg < 0 || zero < 0 || pos < 0) { ret = mkUnknown(TI, 1, "fpclass"); return RET; }
    NV r = mkSign(x, (nan ? 8 : 0) | (neg && ni ? 1 : 0) | (zero ? 2 : 0) | (pos && pi ? 4 : 0));
    NV up = mkF(std::numeric_limits<double>::infinity()), dn = mkF(-std::numeric_limits<double>::infinity());
    if (neg && !ni) r = mkOr(r, mkAnd(mkSign(x, 1), mkCmp(x, dn, 4)));
    if (!neg && ni) r = mkOr(r, mkCmp(x, dn, 3));
    if (pos && !pi) r = mkOr(r, mkAnd(mkSign(x, 4), mkCmp(x, up, 1)));
    if (!pos && pi) r = mkOr(r, mkCmp(x, up, 6));
    ret = r; return RET; }
  if (isIntr("llvm.trap")) { event(st, "trap", "execution reaches the end of a value-returning function or another trap", I); return DEAD; }
  if (isIntr("llvm.ctlz")) { if (isC(a[0])) { uint64_t v = zext(a[0]->i, a[0]->w ? a[0]->w : 64); int w = widthOf(rt); ret = mkI(w, v ? __builtin_clzll(v) - (64 - w) : w); } else ret = mkUnknown(TI, widthOf(rt), "ctlz"); return RET; }
  if (isIntr("llvm.smul.with.overflow") || isIntr("llvm.sadd.with.overflow") || isIntr("llvm.umul.with.overflow")) {
    int w = widthOf(cast<StructType>(rt)->getElementType(0));
    ret = mkTuple({isIntr("llvm.sadd") ? nadd(a[0], a[1], TI, w) : nmul(a[0], a[1], TI, w), mkB(false)}); return RET;
  }
  // ---- math
  static const std::map<std::string, std::pair<Op, int>> m1 = {
    {"sqrt", {OpSqrt, 1}}, {"sin", {OpSin, 1}}, {"cos", {OpCos, 1}}, {"tan", {OpTan, 1}}, {"acos", {OpAcos, 1}}, {"asin", {OpAsin, 1}}, {"atan", {OpAtan, 1}},
    {"exp", {OpExp, 1}}, {"log", {OpLog, 1}}, {"log10", {OpLog10, 1}}, {"floor", {OpFloor, 1}}, {"ceil", {OpCeil, 1}}, {"round", {OpRound, 1}}, {"trunc", {OpTrunc, 1}},
    {"pow", {OpPow, 2}}, {"atan2", {OpAtan2, 2}}, {"fmod", {OpFmod, 2}} };
  std::string base = nm;
  if (startsWith(base, "llvm.")) { base = base.substr(5); size_t p = base.find('.'); if (p != std::string::npos) base = base.substr(0, p); }
  else if (base.size() > 1 && base.back() == 'f' && (rt->isFloatTy())) base.pop_back();
  if (rt->isFloatingPointTy()) {
    for (NV x : a) if (x->k == KUndef) { ret = mkUndef(TF, 32); return RET; }
    auto it = m1.find(base);
    if (it != m1.end()) { ret = mkFn(it->second.first, it->second.second == 1 ? std::vector<NV>{a[0]} : std::vector<NV>{a[0], a[1]}); return RET; }
    if (base == "nearbyint" || base == "rint") { ret = mkFn(OpRound, {a[0]}); return RET; }
    if (base == "powi") { ret = mkFn(OpPow, {a[0], a[1]}); return RET; }
    if (base == "fabs") { ret = mkAbs(a[0]); return RET; }
    if (base == "cbrt") {
      if (isC(a[0])) { ret = mkF(std::cbrt(cval(a[0]))); return RET; }
      NV x = a[0]; NV neg = mkSign(x, 1); NV p, q;
      { WithCtx w(withLit(cur, neg, true)); p = nneg(mkFn(OpPow, {nneg(x), mkF(1.0 / 3)})); }
      { WithCtx w(withLit(cur, neg, false)); q = mkFn(OpPow, {x, mkF(1.0 / 3)}); }
      ret = mkIte(neg, p, q); return RET;
    }
    if (base == "hypot") { ret = mkFn(OpSqrt, {nadd(nmul(a[0], a[0], TF, 32), nmul(a[1], a[1], TF, 32), TF, 32)}); return RET; }
    if (base == "fmin" || base == "minnum") { ret = mkMin(a[0], a[1]); return RET; }
    if (base == "fmax" || base == "maxnum") { ret = mkMax(a[0], a[1]); return RET; }
    if (base == "copysign") { ret = mkIte(mkSign(a[1], 1), nneg(mkAbs(a[0])), mkAbs(a[0])); return RET; }
    if (base == "fma" || base == "fmuladd") { ret = nadd(nmul(a[0], a[1], TF, 32), a[2], TF, 32); return RET; }
  }
  if (isIntr("llvm.abs") || nm == "abs" || nm == "labs") { NV x = asSigned(a[0], widthOf(rt)); ret = mkAbs(x); return RET; }
  if (isIntr("llvm.umin") || isIntr("llvm.umax")) { NV x = asUnsigned(a[0], widthOf(rt)), y = asUnsigned(a[1], widthOf(rt)); ret = asSigned(isIntr("llvm.umin") ? mkMin(x, y) : mkMax(x, y), widthOf(rt)); return RET; }
  if (isIntr("llvm.smin") || isIntr("llvm.umin")) { ret = mkMin(a[0], a[1]); return RET; }
  if (isIntr("llvm.smax") || isIntr("llvm.umax")) { ret = mkMax(a[0], a[1]); return RET; }
  if (nm == "rand") { ret = mkSym("rand#" + randSeed + "." + std::to_string(randCount++), TI, 32, Iv{0, 2147483647.0}); return RET; }
  if (nm == "srand") { randSeed = isC(a[0]) ? std::to_string((long)cval(a[0])) : "seed" + std::to_string(randFresh++); randCount = 0; return RET; } // the draws are a function of the seed
  if (nm.find("__glibcxx_assert_fail") != std::string::npos) { event(st, "undefined-behaviour", "precondition of the standard library violated: " + cstr(st, a.back()), I); return DEAD; }
  { R tr; if (text(nm, dem, a, st, ret, I, rt, tr)) return tr; }
  if (nm == "memcmp" || nm == "bcmp") {
    NV n = rebuild(a[2], st.ctx);
    if (isC(n) && cval(n) == 0) { ret = mkI(32, 0); return RET; }
    // whole cells of integers and pointers compare value by value; only "are they equal" is modelled
    bool eqOnly = nm == "bcmp";
    if (!eqOnly && I) {
      std::function<bool(const Instruction *, size_t)> onlyEq = [&](const Instruction *J, size_t up) {
        for (const User *u : J->users()) {
          if (isa<ReturnInst>(u)) { if (up == 0 || up > callStack.size() || callStack.size() - up > 3 || !callStack[up - 1] || !onlyEq(callStack[up - 1], up - 1)) return false; continue; }
          auto *ic = dyn_cast<ICmpInst>(u); auto *z = ic ? dyn_cast<ConstantInt>(ic->getOperand(1)) : nullptr;
          if (!ic || !ic->isEquality() || !z || !z->isZero()) return false; }
        return true; };
      eqOnly = onlyEq(I, callStack.size()); }
    const Obj *x = a[0]->k == KPtr && a[0]->obj ? getObj(st, a[0]->obj) : nullptr, *y = a[1]->k == KPtr && a[1]->obj ? getObj(st, a[1]->obj) : nullptr;
    if (eqOnly && x && y && isC(n) && !x->freed && !y->freed) {
      NV all = mkB(true); int64_t k = 0, len = (int64_t)cval(n); bool ok = true;
      while (ok && k < len) {
        auto p = x->cells.find(a[0]->i + k), q = y->cells.find(a[1]->i + k);
        if (p == x->cells.end() || q == y->cells.end() || p->second.size != q->second.size || k + p->second.size > len) { ok = false; break; }
        NV u = p->second.v, v = q->second.v;
        if (!(u->ty == TI || u->ty == TP) || u->ty != v->ty || u->k == KUndef || v->k == KUndef) { ok = false; break; }
        all = mkAnd(all, icmp(CmpInst::ICMP_EQ, u, v, p->second.size * 8)); k += p->second.size;
      }
      if (ok) { ret = mkIte(all, mkI(32, 0), mkI(32, 1)); return RET; }
    }
    ret = mkUnknown(TI, 32, "memcmp"); return RET; }
  if (nm == "strcmp") { std::string x = cstr(st, a[0]), y = cstr(st, a[1]); ret = mkI(32, x < y ? -1 : x > y); return RET; }
  // ---- exceptions
  if (nm == "__cxa_allocate_exception") { NV n = a[0]; ret = allocObj(st, isC(n) ? (int64_t)cval(n) : 64, 'h', "exception", I); return RET; }
  if (nm == "__cxa_free_exception" || nm == "__cxa_atexit" || nm == "__cxa_end_catch" || nm == "__cxa_guard_release" || nm == "__cxa_guard_abort") { if (nm == "__cxa_atexit") ret = mkI(32, 0);
    if (nm == "__cxa_guard_release") { memStore(st, a[0], mkI(8, 1), Type::getInt8Ty(M->getContext()), I); }
    return RET; }
  if (nm == "__cxa_guard_acquire") { NV v = memLoad(st, a[0], Type::getInt8Ty(M->getContext()), I); ret = (v && isC(v) && v->i) ? mkI(32, 0) : mkI(32, 1); return RET; }
  if (nm == "__cxa_throw") {
    std::string t = "exception";
    if (a[1]->k == KPtr && a[1]->obj < (int)objGv.size() && objGv[a[1]->obj]) { t = demangle(objGv[a[1]->obj]->getName().str()); if (startsWith(t, "typeinfo for ")) t = t.substr(13); }
    event(st, "throw", t, I); return DEAD;
  }
  if (startsWith(dem, "std::__throw_")) { event(st, "throw", dem.substr(5, dem.find('(') - 5), I); return DEAD; }
  if (nm == "__cxa_rethrow" || nm == "_ZSt9terminatev" || nm == "abort" || nm == "exit") { event(st, "terminate", dem, I); return DEAD; }
  if (nm == "__cxa_pure_virtual") { event(st, "pure-virtual-call", "", I); return DEAD; }
  if (nm == "__cxa_begin_catch") { ret = a[0]; return RET; }
  if (nm == "__dynamic_cast") {
    NV p = a[0];
    ret = mapPtr(p, [&](NV q) -> NV {
      if (q->k == KPtr && q->obj == 0) return q;
      if (!checkAccess(st, q, 8, I, "dynamic_cast")) return mkPtr(0, 0);
      NV ti = dynType(st, q, I);
      for (int k = 0; ti && ti->k == KPtr && ti->obj && k < 20; ++k) {
        if (ti == a[2]) return q;
        const Obj *o = getObj(st, ti->obj);
        if (!o || o->cells.find(16) == o->cells.end()) break;
        ti = o->cells.at(16).v;
      }
      return ti ? mkPtr(0, 0) : mkUnknown(TP, 64, "dynamic_cast");
    });
    return RET;
  }
  handled = false;
  return RET;
}

static bool opaqueName(const std::string &dem, const std::string &nm) {
  static const char *pre[] = {"std::__cxx11::basic_string<", "std::out_of_range::", "std::invalid_argument::", "std::logic_error::", "std::runtime_error::", "std::domain_error::", "std::exception::", "std::range_error::", "std::length_error::",
    "std::allocator<char>::", "std::ios_base", "std::locale", "std::__cxx11::basic_regex", "std::__cxx11::regex", "std::basic_ostream", "std::ostream", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_ostringstream", "std::__cxx11::basic_istringstream"};
  for (auto *p : pre) if (startsWith(dem, p)) return true;
  if (dem.find("std::__cxx11::basic_string<char") != std::string::npos && (dem.find("operator+") != std::string::npos || dem.find("to_string") != std::string::npos || dem.find("std::operator<<") != std::string::npos) && dem.compare(0, 4, "std:") == 0) return true;
  if (startsWith(nm, "_ZNSt7__cxx11") && (dem.find("std::__cxx11::basic_string<") == 0)) return true;
  if (dem.find("regex") != std::string::npos) return true;
  if (startsWith(dem, "std::__cxx11::to_string") || startsWith(dem, "std::to_string")) return true;
  return false;
}

static R doCall(const CallBase *CB, Frame &fr, State &st, NV &ret, NV callee, std::vector<NV> &args) {
  if (callee->k == KIte) {
    bool aA, bA; R s; NV ra = nullptr, rb = nullptr; NV c = callee->a[0];
    int d = decide(c, st.ctx, 2);
    if (d == 1) return doCall(CB, fr, st, ret, callee->a[1], args);
    if (d == 0) return doCall(CB, fr, st, ret, callee->a[2], args);
    forkJoin(st, c, [&](State &x) { auto ar = args; return doCall(CB, fr, x, ra, callee->a[1], ar); }, [&](State &x) { auto ar = args; return doCall(CB, fr, x, rb, callee->a[2], ar); }, aA, bA, s);
    if (aA && bA) ret = ra && rb ? mkIte(c, ra, rb) : nullptr; else ret = aA ? ra : rb;
    return s;
  }
  if (callee->k != KPtr || callee->obj >= (int)objGv.size() || !objGv[callee->obj] || !isa<Function>(objGv[callee->obj])) {
    if (callee->k == KPtr && callee->obj == 0) { event(st, "null-dereference", "call through a null pointer", CB); return DEAD; }
    event(st, "unmodelled-call", show(callee, 2), CB);
    throw Abort{"call through an unmodelled pointer at " + locOf(CB)};
  }
  auto *F = cast<Function>(objGv[callee->obj]);
  return callFn(F, args, st, ret, CB);
}

static std::map<std::string, long> unmodelled;
static R callFn(const Function *F, std::vector<NV> args, State &st, NV &ret, const Instruction *I) {
  static thread_local int depth = 0;
  FnInfo *fi = infoOf(F);
  ret = nullptr;
  std::string nm = F->getName().str();
  bool handled = false;
  R r = external(F, fi->dem, args, st, ret, I, handled);
  if (handled) { if (r != DEAD && !ret && !F->getReturnType()->isVoidTy()) ret = undefOf(F->getReturnType()); return r; }
  bool opaque = opaqueName(fi->dem, nm) && (F->isDeclaration() || !textDefined() || fi->dem.find("regex") != std::string::npos || startsWith(fi->dem, "std::locale"));
  if (F->isDeclaration() || opaque) {
    if (!opaque) { 
      unmodelled[fi->dem]++; if (curCase) event(st, "unmodelled-external", fi->dem, I);
      // it may have written anything into what it was given
      for (NV p : args) if (p->k == KPtr && p->obj && !F->onlyReadsMemory()) { const Obj *o = getObj(st, p->obj); if (!o || (o->kind != 's' && o->kind != 'h') || o->size > 256) continue; Obj *x = wObj(st, p->obj); x->cells.clear(); int64_t k = 0; for (; k + 8 <= o->size; k += 8) x->cells[k] = Cell{8, mkUnknown(TI, 64, fi->dem.substr(0, 60))}; for (; k + 4 <= o->size; k += 4) x->cells[k] = Cell{4, mkUnknown(TI, 32, fi->dem.substr(0, 60))}; for (; k < o->size; ++k) x->cells[k] = Cell{1, mkUnknown(TI, 8, fi->dem.substr(0, 60))}; } }
    if (!F->getReturnType()->isVoidTy()) {
      if (opaque && F->getReturnType()->isPointerTy() && !args.empty() && args[0]->k == KPtr) ret = args[0];
      else ret = mkUnknown(tyOf(F->getReturnType()), widthOf(F->getReturnType()), fi->dem.substr(0, 60));
    }
    return RET;
  }
  if (depth > 150) { if (getenv("CMAI_DBG")) { std::string s; for (size_t k = callStack.size() > 12 ? callStack.size() - 12 : 0; k < callStack.size(); ++k) if (callStack[k]) s += " > " + callStack[k]->getFunction()->getName().str(); fprintf(stderr, "call depth:%s\n", s.c_str()); } throw Abort{"call depth"}; }
  if (fi->repo) {
    visitedFns.insert(F);
    if (I && curCase && !inRepo(I) && F->getInstructionCount() > 14) { const Instruction *fi0 = &*F->getEntryBlock().begin(); for (auto &bb : *F) { bool got = false; for (auto &in : bb) if (in.getDebugLoc()) { fi0 = &in; got = true; break; } if (got) break; } std::string fl; locOf(fi0, &fl); if (fl.compare(0, repoPrefix.size(), repoPrefix) == 0) lastRepoCall = locOf(fi0); }
  }
  Frame fr; fr.F = F; fr.fi = fi; fr.env.assign(fi->n, nullptr);
  int k = 0; for (auto &a : F->args()) { fr.env[fi->num[&a]] = k < (int)args.size() ? args[k] : undefOf(a.getType()); ++k; }
  ++depth; callStack.push_back(I);
  extern R run(Frame &, const BasicBlock *, const BasicBlock *, const BasicBlock *, State &, const BasicBlock *&, NV &);
  const BasicBlock *lp = nullptr;
  R res;
  try { res = run(fr, &F->getEntryBlock(), nullptr, nullptr, st, lp, ret); }
  catch (...) { --depth; callStack.pop_back(); throw; }
  --depth; callStack.pop_back();
  for (int id : fr.allocas) st.objs.erase(id);
  return res;
}

R run(Frame &fr, const BasicBlock *bb, const BasicBlock *pred, const BasicBlock *stop, State &st, const BasicBlock *&lastPred, NV &ret) {
  bool phisDone = false;
  for (;;) {
    if (bb == stop && !phisDone) { lastPred = pred; return STOP; }
    auto it = bb->begin();
    if (!phisDone && pred) {
      std::vector<std::pair<const Value *, NV>> nv;
      for (; it != bb->end() && isa<PHINode>(&*it); ++it) { auto *p = cast<PHINode>(&*it); nv.push_back({p, val(fr, p->getIncomingValueForBlock(pred))}); }
      for (auto &x : nv) setv(fr, x.first, x.second);
    } else while (it != bb->end() && isa<PHINode>(&*it)) ++it;
    phisDone = false;
    const BasicBlock *next = nullptr;
    for (; it != bb->end(); ++it) {
      const Instruction *I = &*it;
      curInst = I; cur = st.ctx;
      ++totalInstr;
      if (curCase) {
        resetWork();
        if (++curCase->instrs > caseInstr) throw Abort{"instruction budget"};
        if ((curCase->instrs & 255) == 0 && cpu() - curCase->t0 > caseTime) throw Abort{"time budget"};
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      switch (I->getOpcode()) {
      case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(I); NV n = val(fr, A->getArraySize());
        int64_t sz = DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue() * (isC(n) ? n->i : 1);
        NV p = allocObj(st, sz, 's', A->getName().str(), I);
        fr.allocas.push_back(p->obj); setv(fr, I, p); break;
      }
      case Instruction::Load: {
        NV v = memLoad(st, val(fr, I->getOperand(0)), I->getType(), I);
        if (!v) return DEAD;
        setv(fr, I, v); break;
      }
      case Instruction::Store: if (!memStore(st, val(fr, I->getOperand(1)), val(fr, I->getOperand(0)), I->getOperand(0)->getType(), I)) return DEAD; break;
      case Instruction::GetElementPtr: {
        auto *G = cast<GetElementPtrInst>(I);
        NV p = val(fr, G->getPointerOperand());
        int64_t cst = 0; NV sym = nullptr;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
          NV ix = val(fr, gti.getOperand());
          if (StructType *s = gti.getStructTypeOrNull()) cst += DL->getStructLayout(s)->getElementOffset((unsigned)ix->i).getFixedValue();
          else {
            int64_t es = DL->getTypeAllocSize(gti.getIndexedType()).getFixedValue();
            if (isC(ix)) cst += es * ix->i;
            else if (ix->k == KUndef) { sym = ix; }
            else { ix = asSigned(ix, widthOf(gti.getOperand()->getType())); NV o;
              if (ix->k == KIte) o = mapPtr(ix, [&](NV q) { return nmul(q, mkI(64, es), TI, 64); }); else o = nmul(ix, mkI(64, es), TI, 64);
              sym = sym ? nadd(sym, o, TI, 64) : o; }
          }
        }
        if (sym && sym->k == KUndef) { event(st, "uninitialised-index", "", I); return DEAD; }
        if (cst) p = ptrAdd(p, mkI(64, cst));
        if (sym) p = ptrAdd(p, sym);
        setv(fr, I, p); break;
      }
      case Instruction::ICmp: {
        auto *C = cast<ICmpInst>(I);
        setv(fr, I, icmp(C->getPredicate(), val(fr, I->getOperand(0)), val(fr, I->getOperand(1)), widthOf(I->getOperand(0)->getType()))); break;
      }
      case Instruction::FCmp: setv(fr, I, fcmp(cast<FCmpInst>(I)->getPredicate(), val(fr, I->getOperand(0)), val(fr, I->getOperand(1)))); break;
      case Instruction::FNeg: { NV v = val(fr, I->getOperand(0)); setv(fr, I, v->k == KUndef ? v : nneg(v)); break; }
      case Instruction::Select: {
        NV c = val(fr, I->getOperand(0));
        if (c->k == KUndef) { event(st, "uninitialised-condition", "", I); setv(fr, I, val(fr, I->getOperand(1))); break; }
        setv(fr, I, mkIte(c, val(fr, I->getOperand(1)), val(fr, I->getOperand(2)))); break;
      }
      case Instruction::Freeze: setv(fr, I, val(fr, I->getOperand(0))); break;
      case Instruction::ExtractValue: {
        NV v = val(fr, I->getOperand(0));
        for (unsigned ix : cast<ExtractValueInst>(I)->getIndices()) v = v->k == KTuple && ix < v->a.size() ? v->a[ix] : mkUnknown(tyOf(I->getType()), widthOf(I->getType()), "extract");
        setv(fr, I, v); break;
      }
      case Instruction::InsertValue: {
        NV v = val(fr, I->getOperand(0)), x = val(fr, I->getOperand(1)); auto ixs = cast<InsertValueInst>(I)->getIndices();
        std::function<NV(NV, unsigned)> ins = [&](NV t, unsigned d) -> NV { if (d == ixs.size()) return x; if (t->k != KTuple) return mkUnknown(TT, 0, "insert"); auto a = t->a; a[ixs[d]] = ins(a[ixs[d]], d + 1); return mkTuple(a); };
        setv(fr, I, ins(v, 0)); break;
      }
      case Instruction::ExtractElement: {
        NV v = val(fr, I->getOperand(0)), ix = val(fr, I->getOperand(1));
        setv(fr, I, v->k == KTuple && isC(ix) ? v->a[ix->i] : v->k == KConcat && isC(ix) ? v->a[ix->i] : mkUnknown(tyOf(I->getType()), widthOf(I->getType()), "extractelement")); break;
      }
      case Instruction::InsertElement: {
        NV v = val(fr, I->getOperand(0)), x = val(fr, I->getOperand(1)), ix = val(fr, I->getOperand(2));
        if (v->k == KTuple && isC(ix)) { auto a = v->a; a[ix->i] = x; setv(fr, I, mkTuple(a)); } else setv(fr, I, mkUnknown(TT, 0, "insertelement"));
        break;
      }
      case Instruction::ShuffleVector: {
        auto *S = cast<ShuffleVectorInst>(I); NV a = val(fr, I->getOperand(0)), b = val(fr, I->getOperand(1)); std::vector<NV> r;
        for (int m : S->getShuffleMask()) { int na = a->a.size(); r.push_back(m < 0 ? mkUndef(TF, 32) : m < na ? a->a[m] : b->a[m - na]); }
        setv(fr, I, mkTuple(r)); break;
      }
      case Instruction::Ret:
        ret = I->getNumOperands() ? val(fr, I->getOperand(0)) : nullptr;
        return RET;
      case Instruction::Unreachable: {
        // reached without a preceding no-return call: control falls off the end of a function
        event(st, "undefined-behaviour", "control reaches an unreachable point (missing return)", I);
        return DEAD;
      }
      case Instruction::Br: {
        auto *B = cast<BranchInst>(I);
        if (B->isUnconditional()) { next = B->getSuccessor(0); break; }
        NV c = val(fr, B->getCondition());
        if (c->k == KUndef || (c->und && c->k != KIte && !isC(c))) { event(st, "uninitialised-condition", "branch on an uninitialised value", I); return DEAD; }
        int d = decide(c, st.ctx, 3);
        if (d == 1) { next = B->getSuccessor(0); break; }
        if (d == 0) { next = B->getSuccessor(1); break; }
        const BasicBlock *S = fr.fi->ipdom.count(bb) ? fr.fi->ipdom[bb] : nullptr;
        int &fd = fr.forkDepth[bb];
        if (++fd > 60) { --fd; throw Abort{"loop not bounded at " + locOf(I)}; }
        const BasicBlock *pa = nullptr, *pb = nullptr; NV ra = nullptr, rb = nullptr; bool aA, bA; R s;
        std::vector<NV> env0 = fr.env, envA;
        R rA = DEAD, rB = DEAD;
        const BasicBlock *sa = B->getSuccessor(0), *sb = B->getSuccessor(1);
        forkJoin(st, c,
          [&](State &x) { rA = run(fr, sa, bb, S, x, pa, ra); envA = std::move(fr.env); fr.env = env0; return rA; },
          [&](State &x) { rB = run(fr, sb, bb, S, x, pb, rb); return rB; }, aA, bA, s);
        --fr.forkDepth[bb];
        if (s == DEAD) return DEAD;
        if (aA && bA) {
          if (rA == RET || rB == RET) { if (rA != rB) throw Abort{"irregular control flow"}; ret = ra && rb ? mkIte(c, ra, rb) : nullptr; return RET; }
          std::vector<std::pair<const Value *, NV>> nv;
          std::vector<NV> envB = std::move(fr.env); 
          cur = st.ctx;
          for (auto pi = S->begin(); pi != S->end() && isa<PHINode>(&*pi); ++pi) {
            auto *p = cast<PHINode>(&*pi);
            fr.env = std::move(envA); NV x = pa ? val(fr, p->getIncomingValueForBlock(pa)) : val(fr, p); envA = std::move(fr.env);
            fr.env = std::move(envB); NV y = pb ? val(fr, p->getIncomingValueForBlock(pb)) : val(fr, p); envB = std::move(fr.env);
            nv.push_back({p, mkIte(c, x, y)});
          }
          fr.env = std::move(env0);
          for (auto &x : nv) setv(fr, x.first, x.second);
        } else {
          if (aA) fr.env = std::move(envA);
          if (s == RET) { ret = aA ? ra : rb; return RET; }
          const BasicBlock *pp = aA ? pa : pb;
          std::vector<std::pair<const Value *, NV>> nv;
          for (auto pi = S->begin(); pi != S->end() && isa<PHINode>(&*pi); ++pi) { auto *p = cast<PHINode>(&*pi); nv.push_back({p, pp ? val(fr, p->getIncomingValueForBlock(pp)) : val(fr, p)}); }
          for (auto &x : nv) setv(fr, x.first, x.second);
          pa = pp;
        }
        if (S == stop) {
          // the enclosing fork joins here as well: hand the merged phi values over through a virtual edge
          for (auto pi = S->begin(); pi != S->end() && isa<PHINode>(&*pi); ++pi) {}
          lastPred = nullptr;
          return STOP;
        }
        bb = S; pred = pa; phisDone = true; next = S;
        break;
      }
      case Instruction::Switch: throw Abort{"switch not lowered"};
      case Instruction::Call: case Instruction::Invoke: {
        auto *CB = cast<CallBase>(I);
        std::vector<NV> args; for (auto &a : CB->args()) args.push_back(val(fr, a.get()));
        NV callee = val(fr, CB->getCalledOperand());
        if (fr.fi->repo) visitedCalls.insert(I);
        NV r = nullptr;
        R s = doCall(CB, fr, st, r, callee, args);
        curInst = I; cur = st.ctx;
        if (s == DEAD) return DEAD;
        if (!I->getType()->isVoidTy()) setv(fr, I, r ? r : undefOf(I->getType()));
        if (auto *iv = dyn_cast<InvokeInst>(I)) next = iv->getNormalDest();
        break;
      }
      default:
        if (auto *bo = dyn_cast<BinaryOperator>(I)) { setv(fr, I, binop(bo->getOpcode(), val(fr, I->getOperand(0)), val(fr, I->getOperand(1)), I->getType(), st, I)); break; }
        if (auto *ci = dyn_cast<CastInst>(I)) { setv(fr, I, castop(ci, val(fr, I->getOperand(0)), st)); break; }
        if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) return DEAD;
        throw Abort{std::string("instruction ") + I->getOpcodeName()};
      }
      if (next) break;
    }
    if (!next) return DEAD;
    if (phisDone) { bb = next; continue; }
    pred = bb; bb = next;
  }
}

// ------------------------------------------------------------------ cases
static void finishCase(CaseRec &c, bool alive, State &st, const Instruction *I) {
  CaseRec *sv = curCase; curCase = &c;
  if (c.aborted) { addOblig("analysis of the case", Result{2, c.abortWhy}, "", I, "abort"); curCase = sv; return; }
  long bad = 0;
  bool threw = false;
  for (auto &e : c.events) {
    bool isThrow = e.kind == "throw";
    if (isThrow) {
      threw = true;
      bool match = c.throwType.empty() || e.detail.find(c.throwType) != std::string::npos;
      if (c.allowThrow) continue;
      if (c.expectThrow && match) continue;
    }
    std::string w; Result r{2, ""};
    if (startsWith(e.kind, "unmodelled")) { r.verdict = 2; r.why = e.detail; }
    else if (findWitness(e.ctx, e.pc, w)) { r.verdict = 0; r.why = e.kind + (e.detail.empty() ? "" : " [" + e.detail + "]") + " reached for " + w + (e.stack.empty() ? "" : "; call path " + e.stack); }
    else r.why = e.kind + " not excluded, no valuation found: " + showLits(e.ctx).substr(0, 300);
    if (getenv("CMAI_DEBUG")) fprintf(stderr, "EVENT %s %s %s v=%d %s at %s\n", c.label.c_str(), e.kind.c_str(), e.detail.c_str(), r.verdict, r.why.c_str(), locOf(e.inst).c_str());
    if (e.after && r.verdict == 0) { r.verdict = 2; r.why = "after a call whose effects are not modelled: " + r.why; }
    settled = true; addOblig(isThrow ? "no exception" : "no fault", r, locOf(e.inst), I, isThrow ? "throw" : e.kind); settled = false;
    ++bad;
  }
  if (c.expectThrow) {
    Result r{1, ""};
    if (alive) { std::string w; if (findWitness(st.ctx, st.pc, w)) { r.verdict = 0; r.why = "returns normally for " + w; } else { r.verdict = 2; r.why = "normal return not excluded"; } }
    else if (!threw) { r.verdict = 2; r.why = "no exception seen"; }
    addOblig("rejects with an exception", r, "", I, "must-throw");
  } else if (!bad) addOblig(c.allowThrow ? "no fault" : "no exception, no fault", Result{1, ""}, "", I, "fault-free");
  curCase = sv;
}
static std::string jesc(const std::string &s) {
  std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
}

// Every case is analysed in a process of its own (fork): its value graph and contexts are dropped
// afterwards, its memory and time are bounded, and its result does not depend on the cases before.
struct Shared { sem_t sem; std::atomic<int> next; std::atomic<int> held[1 << 16]; };
static Shared *sh = nullptr;
static int mySlot = 0;
static std::string outDir, caseKey;
static int childNo = 0;
static std::map<pid_t, std::pair<int, std::pair<std::string, std::string>>> kids; // pid -> slot, key, label
static void take() { while (sem_wait(&sh->sem)) {} sh->held[mySlot] = 1; }
static void giveBack() { if (sh->held[mySlot].exchange(0)) sem_post(&sh->sem); }
static void writeOut(const std::string &path, int entries, double t0);
static void reap(bool block) {
  while (!kids.empty()) {
    int stt = 0; pid_t p = waitpid(-1, &stt, block ? 0 : WNOHANG);
    if (p <= 0) return;
    auto it = kids.find(p); if (it == kids.end()) continue;
    if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
      int slot = it->second.first;
      if (sh->held[slot].exchange(0)) sem_post(&sh->sem);
      std::string why = WIFSIGNALED(stt) ? (WTERMSIG(stt) == SIGALRM ? "time budget" : WTERMSIG(stt) == SIGABRT || WTERMSIG(stt) == SIGKILL ? "memory budget" : "analyser signal " + std::to_string(WTERMSIG(stt))) : "analyser exit " + std::to_string(WEXITSTATUS(stt));
      if (getenv("CMAI_DEBUG")) fprintf(stderr, "ABORT %s: %s\n", it->second.second.second.c_str(), why.c_str());
      obligs.push_back(Oblig{curEntry, it->second.second.second, "analysis of the case", why, "", "", "abort", 2, 0});
    }
    kids.erase(it);
  }
}
static void runCase(State &st, const std::string &label, NV fn, NV arg, const Instruction *I) {
  if (!curCase) return;
  if (fn->k != KPtr || !objGv[fn->obj]) { fprintf(stderr, "bad case function\n"); exit(3); }
  std::string full = curCase->label.empty() ? label : curCase->label + " / " + label;
  if (!onlyCase.empty() && full.compare(0, std::min(full.size(), onlyCase.size()), onlyCase, 0, std::min(full.size(), onlyCase.size())) != 0) return;
  char nb[16]; snprintf(nb, sizeof nb, ".%04d", childNo++);
  std::string key = caseKey + nb;
  reap(false);
  int slot = sh->next++;
  if (slot >= (1 << 16)) { fprintf(stderr, "cmai: too many cases\n"); exit(3); }
  fflush(nullptr);
  double start = cpu();
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "cmai: fork failed\n"); exit(3); }
  if (pid) { kids[pid] = {slot, {key, full}}; curCase->t0 += cpu() - start; return; }
  // child
  resetCaseWork(); kids.clear(); childNo = 0; caseKey = key; mySlot = slot; obligs.clear(); totalInstr = totalForks = 0; visitedCalls.clear(); visitedFns.clear(); globalWrites.clear(); unmodelled.clear();
  take();
  double t0 = now();
  { FILE *m = fopen("/proc/self/statm", "r"); long pg = 0; if (m) { if (fscanf(m, "%ld", &pg) != 1) pg = 0; fclose(m); } struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)pg * 4096 + ((rlim_t)caseMem << 20); setrlimit(RLIMIT_AS, &rl); }
  alarm((unsigned)(caseTime * 4 + 5));
  CaseRec c; c.label = full; c.t0 = cpu(); c.parent = curCase;
  curCase = &c;
  NV ret; R r = DEAD;
  size_t sd = callStack.size();
    State s2 = st;
  try { r = callFn(cast<Function>(objGv[fn->obj]), {arg}, s2, ret, I); }
  catch (Abort &a) { c.aborted = true; c.abortWhy = a.why; callStack.resize(sd); if (getenv("CMAI_DEBUG")) fprintf(stderr, "ABORT %s: %s\n", c.label.c_str(), a.why.c_str()); }
  catch (std::bad_alloc &) { fprintf(stderr, "cmai: out of memory in %s\n", c.label.c_str()); fflush(nullptr); _exit(4); }
  cur = s2.ctx; finishCase(c, r != DEAD, s2, I);
  giveBack();
  alarm(0);
  reap(true);
  writeOut(outDir + "/" + key.substr(1) + ".json", 1, t0);
  if (getenv("CMAI_PROGRESS")) fprintf(stderr, "%7.2fs %8zu nodes %s\n", now() - t0, P.nodes.size(), c.label.c_str()), fprintf(stderr, "work %ld\n", workTotal);
  fflush(nullptr);
  _exit(0);
}
static void writeOut(const std::string &path, int entries, double t0) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { fprintf(stderr, "cmai: cannot write %s\n", path.c_str()); _exit(3); }
  fprintf(f, "{\"entries\":%d,\"instructions\":%ld,\"forks\":%ld,\"nodes\":%zu,\"seconds\":%.2f,\n\"functions\":[", entries, totalInstr, totalForks, P.nodes.size(), now() - t0);
  bool first = true;
  for (auto *F : visitedFns) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(infoOf(F)->dem).c_str()); first = false; }
  fprintf(f, "],\n\"call_sites\":%zu,\n\"unmodelled\":[", visitedCalls.size());
  first = true;
  for (auto &u : unmodelled) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(u.first).c_str()); first = false; }
  fprintf(f, "],\n\"global_writes\":["); first = true;
  for (auto &u : globalWrites) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(u).c_str()); first = false; }
  fprintf(f, "],\n\"obligations\":[\n"); first = true;
  for (auto &o : obligs) {
    fprintf(f, "%s{\"entry\":\"%s\",\"case\":\"%s\",\"what\":\"%s\",\"kind\":\"%s\",\"verdict\":%d,\"cases\":%ld,\"why\":\"%s\",\"loc\":\"%s\",\"hloc\":\"%s\"}", first ? "" : ",\n",
      jesc(o.entry).c_str(), jesc(o.label).c_str(), jesc(o.what).c_str(), o.kind.c_str(), o.verdict, o.cases, jesc(o.why).c_str(), jesc(o.loc).c_str(), jesc(o.hloc).c_str());
    first = false;
  }
  fprintf(f, "\n]}\n");
  fclose(f);
}

static int realMain(int argc, char **argv) {
  std::string mod, prefix, out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--entries") prefix = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--case-mem") caseMem = atoi(argv[++i]);
    else if (a == "--case") onlyCase = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--case-time") caseTime = atof(argv[++i]);
    else if (a == "--repo") repoPrefix = argv[++i];
    else mod = a;
  }
  outDir = out; mkdir(out.c_str(), 0777);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { fprintf(stderr, "cmai: mmap\n"); return 3; }
  sem_init(&sh->sem, 1, jobs); sh->next = 1;
  LLVMContext C; SMDiagnostic err;
  M = parseIRFile(mod, err, C);
  if (!M) { fprintf(stderr, "cmai: cannot read %s: %s\n", mod.c_str(), err.getMessage().str().c_str()); return 3; }
  DL = &M->getDataLayout();
  State st;
  // static initialisation
  if (auto *g = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function *>> v;
    if (auto *arr = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : arr->operands()) { auto *s = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) {
      NV ret; callStack.clear();
      try { callFn(p.second, {}, st, ret, nullptr); } catch (Abort &a) { fprintf(stderr, "cmai: static initialiser %s: %s\n", p.second->getName().str().c_str(), a.why.c_str()); return 6; }
    }
  }
  for (auto &o : st.objs) baseObjs[o.first] = o.second;
  st.objs.clear();
  double t0 = now(); int entries = 0;
  take();
  std::vector<Function *> es;
  for (auto &F : *M) if (!F.isDeclaration() && startsWith(F.getName().str(), prefix.c_str())) es.push_back(&F);
  for (auto *F : es) {
    caseKey = "." + std::to_string(1000 + entries); childNo = 0;
    ++entries;
    curEntry = F->getName().str();
    CaseRec top; top.t0 = cpu(); curCase = &top;
    State s2 = st; NV ret; callStack.clear(); cur = s2.ctx = &rootCtx; 
    R r = DEAD;
    top.parent = nullptr;
    try { r = callFn(F, {}, s2, ret, nullptr); } catch (Abort &a) { top.aborted = true; top.abortWhy = a.why; }
    curCase = nullptr;
    if (top.aborted || r == DEAD || !top.events.empty()) {
      CaseRec *k = &top; k->label = "entry"; finishCase(top, r != DEAD, s2, &F->getEntryBlock().front());
    }
  }
  giveBack();
  reap(true);
  writeOut(outDir + "/root.json", entries, t0);
  return entries ? 0 : 5;
}
struct A { int c; char **v; int r; };
static void *tmain(void *p) { A *a = (A *)p; a->r = realMain(a->c, a->v); return nullptr; }
int main(int argc, char **argv) {
  mallopt(M_ARENA_MAX, 1); mallopt(M_TOP_PAD, 64 << 20); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30);
  A a{argc, argv, 0};
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2UL << 30);
  pthread_t t; if (pthread_create(&t, &at, tmain, &a)) { fprintf(stderr, "cmai: thread\n"); return 3; }
  pthread_join(t, nullptr);
  fflush(nullptr); _exit(a.r);
}
