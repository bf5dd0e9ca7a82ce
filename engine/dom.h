// Abstract domain of cmai: hash-consed value numbers in rational-function normal form over
// input symbols, gated by Ite nodes, together with an interval / NaN / sign domain evaluated in a
// context of branch facts.  Nothing is executed and no solver is called: a decision is taken by
// interval evaluation, by stored sign facts, by normal-form equality after trace partitioning on
// the gates, or (for refutation only) by random interpretation of the value graph.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <functional>
#include <limits>

enum Kind : uint8_t { KConst, KPoly, KSym, KFn, KIte, KSign, KPtr, KTuple, KUndef, KConcat };
enum Ty : uint8_t { TF, TI, TP, TT };
enum Op : uint8_t {
  OpNone, OpPow, OpSqrt, OpSin, OpCos, OpTan, OpAtan2, OpAcos, OpAsin, OpAtan, OpExp, OpLog, OpLog10,
  OpFloor, OpCeil, OpRound, OpTrunc, OpFmod, OpDen, OpDiv0, OpMul, OpAnd, OpOr, OpXor,
  OpSdiv, OpSrem, OpUrem, OpWrapS, OpWrapU, OpUnknown
};
extern const char *opName[];

struct Node;
typedef const Node *N;
struct Term { double c; std::vector<std::pair<int,int>> m; };
typedef std::vector<Term> Poly;
// lo..hi: bounds; nan: may be NaN; nz: known non zero; inf: may be an actual infinity
struct Iv { double lo, hi; bool nan = false, nz = false, inf = false; };

struct Node {
  Kind k; Ty ty; uint16_t w = 0; uint32_t id = 0;
  double f = 0; int64_t i = 0;         // constants; sign mask
  Poly terms;                          // poly
  Op op = OpNone; std::vector<N> a;    // fn args; ite (c,t,e); sign (e); tuple
  int obj = -1;                        // ptr
  Iv base{0,0}; std::string name;      // sym
  bool split = false;                  // contains an Ite or a piecewise function
  bool unk = false;                    // depends on something the analysis could not model
  mutable int8_t mm = -1;              // ite: 1 minimum, 2 maximum of its branches, 0 neither
  bool und = false;                    // depends on an uninitialised value
  const void *inst = nullptr;          // instruction being interpreted when the node appeared
};
static const double INF = std::numeric_limits<double>::infinity();
struct Pool { std::vector<N> nodes; std::unordered_multimap<uint64_t, N> tab; };
extern Pool P;
extern const void *curInst;

N intern(Node &n);
N mkF(double v);
N mkI(int w, int64_t v);
N mkB(bool b);
N mkPtr(int obj, int64_t off);
N mkUndef(Ty t, int w);
N mkTuple(const std::vector<N> &a, Kind k = KTuple);
N mkSym(const std::string &nm, Ty ty, int w, Iv b);
N mkUnknown(Ty ty, int w, const std::string &why);
int64_t sext(int64_t v, int w);
uint64_t zext(int64_t v, int w);
static inline bool isC(N n) { return n->k == KConst; }
static inline double cval(N n) { return n->ty == TF ? n->f : (double)n->i; }
static inline bool isTrue(N n) { return n->k == KConst && n->ty == TI && n->w == 1 && n->i != 0; }
static inline bool isFalse(N n) { return n->k == KConst && n->ty == TI && n->w == 1 && n->i == 0; }
static inline bool isBool(N n) { return n->ty == TI && n->w == 1; }

struct Ctx {
  const Ctx *parent = nullptr;
  int depth = 0;
  std::map<int, Iv> ref;                        // refined intervals of atoms
  std::map<int, int> sign;                      // canonical poly id -> sign mask 1 neg 2 zero 4 pos 8 nan
  std::map<int, bool> bools;                    // decided condition nodes
  std::map<int, N> subst;                       // atom id -> node (from equality facts)
  std::vector<std::pair<std::vector<std::pair<int,int>>, Poly>> zero; // leading monomial -> what equals it (from polynomials known to vanish)
  N lit = nullptr; bool truth = true;           // the literal this context adds to its parent
  bool infeasible = false;
  mutable std::unordered_map<int, Iv> memo, cmemo;
  mutable std::unordered_map<int, int> dmemo;
  mutable std::unordered_map<int, N> rmemo;
  mutable std::map<std::pair<int,bool>, const Ctx *> kids;
};
extern const Ctx *cur;
extern Ctx rootCtx;
struct WithCtx { const Ctx *old; WithCtx(const Ctx *c) : old(cur) { cur = c; } ~WithCtx() { cur = old; } };
Iv eval(N n, const Ctx *c);
void resetCaseWork(); extern long workTotal;
void resetWork();                                   // start of an independent query
int decide(N cond, const Ctx *c, int depth = 3);    // 0 false, 1 true, 2 unknown
const Ctx *withLit(const Ctx *c, N cond, bool truth);

Poly polyOf(N n);
N mkPoly(Poly p, Ty ty, int w);
Poly padd(const Poly &a, const Poly &b, double sb);
Poly pmul(const Poly &a, const Poly &b);
N nadd(N a, N b, Ty ty, int w);
N nsub(N a, N b, Ty ty, int w);
N nmul(N a, N b, Ty ty, int w);
N nneg(N a);
N ndiv(N a, N b);
N mkFn(Op op, const std::vector<N> &a, Ty ty = TF, int w = 32);
N mkIte(N c, N t, N e);
N mkSign(N e, int mask);
N mkNot(N c);
N mkAnd(N a, N b);
N mkOr(N a, N b);
N mkCmp(N a, N b, int mask);           // sign(a-b) in mask, a NaN operand counts as bit 8
N mkMin(N a, N b);
N mkMax(N a, N b);
N mkAbs(N a);
N asSigned(N a, int w);
N asUnsigned(N a, int w);
N rebuild(N n, const Ctx *c);
std::string show(N n, int depth = 5);
std::string showLits(const Ctx *c);

// random interpretation of the value graph
struct Val { std::unordered_map<int, double> sym; };
struct Result { int verdict; std::string why; long cases = 0; }; // 1 proved, 0 refuted, 2 undecided
Result proveEq(N a, N b, const Ctx *c, N pc, double tol);
Result proveIn(N a, double lo, double hi, const Ctx *c, N pc, double tol);
Result proveTrue(N cond, const Ctx *c, N pc);
bool findWitness(const Ctx *c, N pc, std::string &desc);   // a valuation under which this point is reached
