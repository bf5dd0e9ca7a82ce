#include "dom.h"
#include <random>

const char *opName[] = {"none","pow","sqrt","sin","cos","tan","atan2","acos","asin","atan","exp","log","log10",
  "floor","ceil","round","trunc","fmod","1/","div0","mul","and","or","xor","sdiv","srem","urem","wraps","wrapu","unknown"};
Pool P;
const void *curInst = nullptr;
Ctx rootCtx;
const Ctx *cur = &rootCtx;

// ------------------------------------------------------------------ nodes
static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }
static inline uint64_t dbits(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
static bool sameTerms(const Poly &a, const Poly &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].c != b[i].c || a[i].m != b[i].m) return false;
  return true;
}
static bool piecewise(Op o) { return o == OpFmod || o == OpFloor || o == OpTrunc || o == OpCeil || o == OpRound; }
N intern(Node &n) {
  uint64_t h = hmix(n.k * 131 + n.ty, n.w);
  h = hmix(h, dbits(n.f)); h = hmix(h, (uint64_t)n.i); h = hmix(h, n.op); h = hmix(h, (uint64_t)(n.obj + 7));
  for (N x : n.a) h = hmix(h, x->id);
  for (auto &t : n.terms) { h = hmix(h, dbits(t.c)); for (auto &p : t.m) { h = hmix(h, p.first); h = hmix(h, (uint64_t)(p.second + 100)); } }
  for (char c : n.name) h = hmix(h, (uint64_t)c);
  auto r = P.tab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    const Node &x = *it->second;
    if (x.k == n.k && x.ty == n.ty && x.w == n.w && dbits(x.f) == dbits(n.f) && x.i == n.i && x.op == n.op && x.obj == n.obj &&
        x.a == n.a && x.name == n.name && sameTerms(x.terms, n.terms)) return it->second;
  }
  Node *q = new Node(n);
  q->id = P.nodes.size();
  q->inst = curInst;
  for (N x : n.a) { q->split |= x->split; q->unk |= x->unk; q->und |= x->und; }
  for (auto &t : n.terms) for (auto &p : t.m) { N x = P.nodes[p.first]; q->split |= x->split; q->unk |= x->unk; q->und |= x->und; }
  if (n.k == KIte) q->split = true;
  if (n.k == KFn && piecewise(n.op)) q->split = true;
  if (n.k == KFn && n.op == OpUnknown) q->unk = true;
  if (n.k == KUndef) q->und = true;
  P.nodes.push_back(q); P.tab.emplace(h, q);
  return q;
}
static double rnd(double c) {
  if (c == 0) return 0.0;
  if (!std::isfinite(c)) return c;
  if (c == std::floor(c) && std::fabs(c) < 9e15) return c;
  int e; double m = frexp(c, &e); m = nearbyint(ldexp(m, 40)); return ldexp(m, e - 40);
}
N mkF(double v) { Node n{}; n.k = KConst; n.ty = TF; n.w = 32; n.f = v == 0 ? 0.0 : v; return intern(n); }
int64_t sext(int64_t v, int w) { if (w >= 64) return v; uint64_t m = (1ULL << w) - 1, u = (uint64_t)v & m; if (u >> (w - 1)) u |= ~m; return (int64_t)u; }
uint64_t zext(int64_t v, int w) { if (w >= 64) return (uint64_t)v; return (uint64_t)v & ((1ULL << w) - 1); }
N mkI(int w, int64_t v) { Node n{}; n.k = KConst; n.ty = TI; n.w = w; n.i = sext(v, w); return intern(n); }
N mkB(bool b) { return mkI(1, b ? -1 : 0); }
N mkPtr(int obj, int64_t off) { Node n{}; n.k = KPtr; n.ty = TP; n.w = 64; n.obj = obj; n.i = off; return intern(n); }
N mkUndef(Ty t, int w) { Node n{}; n.k = KUndef; n.ty = t; n.w = w; return intern(n); }
N mkTuple(const std::vector<N> &a, Kind k) { Node n{}; n.k = k; n.ty = TT; n.a = a; return intern(n); }
N mkSym(const std::string &nm, Ty ty, int w, Iv b) {
  Node n{}; n.k = KSym; n.ty = ty; n.w = w; n.name = nm; n.base = b;
  if (b.lo > 0 || b.hi < 0) n.base.nz = true;
  return intern(n);
}
static int unkCounter = 0;
N mkUnknown(Ty ty, int w, const std::string &why) {
  Node n{}; n.k = KFn; n.op = OpUnknown; n.ty = ty; n.w = w; n.name = why + "#" + std::to_string(unkCounter++); return intern(n);
}

// ------------------------------------------------------------------ intervals
static Iv fixIv(Iv a) { if (a.lo > 0 || a.hi < 0) a.nz = true; return a; }
static bool hasZero(const Iv &a) { return a.lo <= 0 && a.hi >= 0 && !a.nz; }
static Iv ivTop() { return Iv{-INF, INF, true, false, true}; }
static double bmul(double a, double b) { if (a == 0 || b == 0) return 0; return a * b; }
static Iv ivMul(const Iv &a, const Iv &b) {
  double p[4] = {bmul(a.lo, b.lo), bmul(a.lo, b.hi), bmul(a.hi, b.lo), bmul(a.hi, b.hi)};
  Iv r{*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
  r.nan = a.nan || b.nan || (a.inf && hasZero(b)) || (b.inf && hasZero(a));
  r.inf = a.inf || b.inf;
  bool az = a.nz || a.lo > 0 || a.hi < 0, bz = b.nz || b.lo > 0 || b.hi < 0;
  r.nz = az && bz;
  return fixIv(r);
}
static Iv ivAdd(const Iv &a, const Iv &b) {
  Iv r{a.lo + b.lo, a.hi + b.hi};
  if (std::isnan(r.lo)) r.lo = -INF;
  if (std::isnan(r.hi)) r.hi = INF;
  r.nan = a.nan || b.nan || (a.inf && b.inf);
  r.inf = a.inf || b.inf;
  if ((a.lo >= 0 && b.lo >= 0 && (a.nz || b.nz)) || (a.hi <= 0 && b.hi <= 0 && (a.nz || b.nz))) r.nz = true;
  return fixIv(r);
}
static Iv ivInv(const Iv &a) {
  Iv r; r.nan = a.nan; r.inf = false; r.nz = !a.inf;
  bool z = hasZero(a);
  if (z) { r.lo = -INF; r.hi = INF; r.inf = true; r.nan = true; return r; }
  if (a.lo >= 0) { r.lo = std::isinf(a.hi) ? 0 : 1 / a.hi; r.hi = a.lo == 0 ? INF : 1 / a.lo; return fixIv(r); }
  if (a.hi <= 0) { r.hi = std::isinf(a.lo) ? 0 : 1 / a.lo; r.lo = a.hi == 0 ? -INF : 1 / a.hi; return fixIv(r); }
  r.lo = -INF; r.hi = INF; return r;
}
static Iv ivPowI(Iv a, int e) {
  if (e < 0) return ivInv(ivPowI(a, -e));
  if (e == 0) return Iv{1, 1, false, true};
  if (e == 1) return a;
  Iv r = a;
  if (e % 2 == 0) {
    double x = std::pow(a.lo, e), y = std::pow(a.hi, e);
    r.hi = std::max(x, y);
    r.lo = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(x, y);
  } else { r.lo = std::pow(a.lo, e); r.hi = std::pow(a.hi, e); }
  return fixIv(r);
}
static double fnNum(Op op, const double *x, int n, bool *amb);

static Iv evalFn(N n, const Ctx *c) {
  Iv x = n->a.size() ? eval(n->a[0], c) : ivTop();
  switch (n->op) {
  case OpPow: {
    Iv g = eval(n->a[1], c);
    Iv r{0, INF}; r.nan = x.nan || g.nan; r.inf = x.inf || g.inf;
    if (x.lo < 0) { r.nan = true; r.lo = -INF; if (x.hi < 0) return r; }
    if (g.lo == g.hi && x.lo >= 0) {
      double e = g.lo;
      if (e >= 0) { r.lo = std::pow(x.lo, e); r.hi = std::isinf(x.hi) ? (e == 0 ? 1 : INF) : std::pow(x.hi, e); r.nz = x.nz || x.lo > 0; }
      else { r.lo = std::isinf(x.hi) ? 0 : std::pow(x.hi, e); r.hi = x.lo == 0 ? INF : std::pow(x.lo, e); if (hasZero(x)) r.inf = true; r.nz = true; }
    } else if (x.lo >= 0 && x.hi <= 1 && g.lo >= 0) { r.lo = 0; r.hi = 1; }
    else if (x.lo >= 0 && hasZero(x) && g.lo < 0) r.inf = true;
    return fixIv(r);
  }
  case OpSqrt: { Iv r = x; r.nan |= x.lo < 0; r.lo = std::sqrt(std::max(0.0, x.lo)); r.hi = std::sqrt(std::max(0.0, x.hi)); return fixIv(r); }
  case OpSin: case OpCos: { Iv r{-1, 1}; r.nan = x.nan || x.inf; return r; }
  case OpAtan2: { Iv y = eval(n->a[1], c); Iv r{-M_PI, M_PI}; r.nan = x.nan || y.nan; if (x.lo >= 0) r.lo = 0; if (x.hi <= 0 && x.nz) r.hi = 0; return r; }
  case OpAtan: { Iv r{std::atan(x.lo), std::atan(x.hi), x.nan}; return fixIv(r); }
  case OpAcos: { Iv r{0, M_PI}; r.nan = x.nan || x.lo < -1 || x.hi > 1; return r; }
  case OpAsin: { Iv r{-M_PI / 2, M_PI / 2}; r.nan = x.nan || x.lo < -1 || x.hi > 1; return r; }
  case OpExp: { Iv r{std::exp(x.lo), std::exp(x.hi), x.nan, !x.inf, x.inf}; return r; }
  case OpLog: case OpLog10: {
    Iv r{-INF, INF, x.nan || x.lo < 0, false, x.inf || hasZero(x)};
    if (x.lo > 0) r.lo = n->op == OpLog ? std::log(x.lo) : std::log10(x.lo);
    if (x.hi < INF && x.hi > 0) r.hi = n->op == OpLog ? std::log(x.hi) : std::log10(x.hi);
    return fixIv(r);
  }
  case OpFloor: return fixIv(Iv{std::floor(x.lo), std::floor(x.hi), x.nan, false, x.inf});
  case OpCeil: return fixIv(Iv{std::ceil(x.lo), std::ceil(x.hi), x.nan, false, x.inf});
  case OpRound: return fixIv(Iv{std::round(x.lo), std::round(x.hi), x.nan, false, x.inf});
  case OpTrunc: return fixIv(Iv{std::trunc(x.lo), std::trunc(x.hi), x.nan, false, x.inf});
  case OpFmod: {
    Iv m = eval(n->a[1], c);
    Iv r; double b = std::max(std::fabs(m.lo), std::fabs(m.hi));
    r.nan = x.nan || m.nan || x.inf || hasZero(m);
    r.lo = x.lo >= 0 ? 0 : std::max(-b, x.lo); r.hi = x.hi <= 0 ? 0 : std::min(b, x.hi);
    return fixIv(r);
  }
  case OpDen: return ivInv(x);
  case OpMul: return ivMul(x, eval(n->a[1], c));
  case OpAnd: {
    Iv y = eval(n->a[1], c);
    if (y.lo == y.hi && y.lo >= 0) return Iv{0, y.hi};
    if (x.lo >= 0 && y.lo >= 0) return Iv{0, std::min(x.hi, y.hi)};
    double b = std::ldexp(1.0, n->w); return Iv{-b, b};
  }
  case OpOr: case OpXor: {
    Iv y = eval(n->a[1], c);
    if (x.lo >= 0 && y.lo >= 0) { double b = 1; while (b <= std::max(x.hi, y.hi) && b < 1e18) b *= 2; return Iv{0, b - 1}; }
    double b = std::ldexp(1.0, n->w); return Iv{-b, b};
  }
  case OpSrem: case OpUrem: {
    Iv y = eval(n->a[1], c); double m = std::max(std::fabs(y.lo), std::fabs(y.hi)) - 1;
    return Iv{x.lo >= 0 ? 0 : std::max(-m, x.lo), x.hi <= 0 ? 0 : std::min(m, x.hi)};
  }
  case OpSdiv: { double b = std::max(std::fabs(x.lo), std::fabs(x.hi)); return Iv{x.lo >= 0 ? 0 : -b, x.hi <= 0 ? 0 : b}; }
  case OpWrapS: { double b = std::ldexp(1.0, n->w - 1); return Iv{-b, b - 1}; }
  case OpWrapU: { double b = std::ldexp(1.0, n->w); return Iv{0, b - 1}; }
  default: return ivTop();
  }
}

// Quadratic forms: a convex one has its maximum at a vertex of the box, and is not negative anywhere when its
// homogeneous matrix is positive semidefinite (decided by symmetric elimination).
static bool semidef(std::vector<std::vector<double>> a) {
  size_t n = a.size(); double sc = 0;
  for (size_t i = 0; i < n; ++i) sc = std::max(sc, std::fabs(a[i][i]));
  double eps = 1e-9 * sc;
  std::vector<bool> done(n, false);
  for (size_t step = 0; step < n; ++step) {
    int k = -1; for (size_t i = 0; i < n; ++i) if (!done[i] && (k < 0 || a[i][i] > a[k][k])) k = i;
    if (a[k][k] < -eps) return false;
    if (a[k][k] <= eps) { for (size_t i = 0; i < n; ++i) if (!done[i]) { if (a[i][i] < -eps) return false; for (size_t j = 0; j < n; ++j) if (!done[j] && j != i && std::fabs(a[i][j]) > eps) return false; } return true; }
    done[k] = true;
    for (size_t i = 0; i < n; ++i) if (!done[i]) for (size_t j = 0; j < n; ++j) if (!done[j]) a[i][j] -= a[i][k] * a[k][j] / a[k][k];
  }
  return true;
}
static void quadBounds(const Poly &p, const Ctx *c, Iv &s) {
  if (s.nan || p.size() > 60) return;
  std::vector<int> vars;
  for (auto &t : p) { int d = 0; for (auto &q : t.m) { if (q.second < 0) return; d += q.second; if (std::find(vars.begin(), vars.end(), q.first) == vars.end()) vars.push_back(q.first); } if (d > 2) return; }
  size_t n = vars.size();
  if (n > 8) return;
  auto ix = [&](int v) { return std::find(vars.begin(), vars.end(), v) - vars.begin(); };
  std::vector<std::vector<double>> g(n + 1, std::vector<double>(n + 1, 0));
  for (auto &t : p) {
    if (t.m.empty()) g[n][n] += t.c;
    else if (t.m.size() == 1 && t.m[0].second == 1) { size_t i = ix(t.m[0].first); g[i][n] += t.c / 2; g[n][i] += t.c / 2; }
    else if (t.m.size() == 1) g[ix(t.m[0].first)][ix(t.m[0].first)] += t.c;
    else { size_t i = ix(t.m[0].first), j = ix(t.m[1].first); g[i][j] += t.c / 2; g[j][i] += t.c / 2; }
  }
  std::vector<Iv> iv; bool fin = true;
  for (int v : vars) { iv.push_back(eval(P.nodes[v], c)); if (!std::isfinite(iv.back().lo) || !std::isfinite(iv.back().hi)) fin = false; }
  for (int sg = 1; sg >= -1; sg -= 2) {
    auto h = g; for (auto &r : h) for (double &x : r) x *= sg;
    if ((sg > 0 ? s.lo : -s.hi) < 0 && semidef(h)) { if (sg > 0) s.lo = 0; else s.hi = 0; }
    auto q = h; q.resize(n); for (auto &r : q) r.resize(n);
    if (!fin || !semidef(q)) continue;
    double hi = -INF;
    for (unsigned b = 0; b < (1u << n); ++b) {
      std::vector<double> x(n + 1, 1); for (size_t i = 0; i < n; ++i) x[i] = b >> i & 1 ? iv[i].hi : iv[i].lo;
      double v = 0; for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j) v += h[i][j] * x[i] * x[j];
      hi = std::max(hi, v);
    }
    hi += 1e-12 * std::fabs(hi);
    if (sg > 0) s.hi = std::min(s.hi, hi); else s.lo = std::max(s.lo, -hi);
  }
}
static Iv evalPoly(N n, const Ctx *c) {
  const Poly &p = n->terms;
  Iv s{0, 0}; bool first = true;
  std::vector<std::pair<int, int>> vars; bool aff = true, shared = false; // atom, exponent
  for (auto &t : p) {
    Iv m{t.c, t.c, false, true};
    for (auto &q : t.m) {
      m = ivMul(m, ivPowI(eval(P.nodes[q.first], c), q.second));
      auto it = std::find_if(vars.begin(), vars.end(), [&](auto &v) { return v.first == q.first; });
      if (it == vars.end()) vars.push_back(q); else { shared = true; if (it->second != q.second) aff = false; }
    }
    if (first) { s = fixIv(m); first = false; } else s = ivAdd(s, m);
  }
  if (!aff) { quadBounds(p, c, s); return fixIv(s); }
  if (vars.size() <= 10 && shared) {
    // multi-affine in atom^exponent: extrema at the vertices of the box
    std::vector<Iv> iv;
    bool fin = true;
    for (auto &v : vars) { Iv x = ivPowI(eval(P.nodes[v.first], c), v.second); if (!std::isfinite(x.lo) || !std::isfinite(x.hi)) fin = false; iv.push_back(x); }
    if (fin) {
      double lo = INF, hi = -INF;
      std::vector<std::vector<int>> idx(p.size());
      for (size_t k = 0; k < p.size(); ++k) for (auto &q : p[k].m) for (size_t j = 0; j < vars.size(); ++j) if (vars[j].first == q.first) idx[k].push_back(j);
      for (unsigned b = 0; b < (1u << vars.size()); ++b) {
        double v = 0;
        for (size_t k = 0; k < p.size(); ++k) { double m = p[k].c; for (int j : idx[k]) m *= (b >> j & 1) ? iv[j].hi : iv[j].lo; v += m; }
        lo = std::min(lo, v); hi = std::max(hi, v);
      }
      double eps = 1e-12 * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi)));
      if (std::fabs(lo) <= eps) lo = 0;
      if (std::fabs(hi) <= eps) hi = 0;
      if (lo > s.lo) s.lo = lo;
      if (hi < s.hi) s.hi = hi;
    }
  }
  return fixIv(s);
}

static Iv meet(Iv a, const Iv &r) {
  if (r.lo > a.lo) a.lo = r.lo;
  if (r.hi < a.hi) a.hi = r.hi;
  a.nan = a.nan && r.nan; a.nz = a.nz || r.nz; a.inf = a.inf && r.inf;
  if (std::isfinite(a.lo) && std::isfinite(a.hi)) a.inf = false;
  return fixIv(a);
}
static bool polyNonneg(const Poly &e, const Ctx *c, int depth, bool strict);
static Iv ratioRule(N n, const Ctx *c, Iv s, bool mixed = false);
static Iv roundRule(N n, const Ctx *c, Iv s);
static Iv rootRule(N n, const Ctx *c, Iv s);

// Precision is bounded per query: once a query has opened `workLimit` refined contexts, and always
// while facts are being added to a context, gates are evaluated without opening further contexts.
static int cheapDepth = 0; static long work = 0, workLimit = 400;
long workTotal = 0; // refined contexts of the current case; the more there are the fewer a query may open
void resetCaseWork() { workTotal = 0; workLimit = 400; }
void resetWork() { work = 0; }
static bool cheap() { return cheapDepth > 0 || work > workLimit; }
struct Cheap { Cheap() { ++cheapDepth; } ~Cheap() { --cheapDepth; } };
// Ite(t-e < 0, t, e) is min(t,e), Ite(t-e > 0, t, e) is max(t,e)
static int minMaxKind(N n) {
  if (n->mm >= 0) return n->mm;
  n->mm = 0;
  N g = n->a[0];
  if (n->ty != TF || g->k != KSign) return 0;
  int m = (int)g->i & 7;
  if (m == 0 || m == 7 || m == 2 || m == 5) return 0;
  Poly d = padd(polyOf(n->a[1]), polyOf(n->a[2]), -1), s = polyOf(g->a[0]);
  if (d.empty() || d.size() != s.size()) return 0;
  double k = s[0].c / d[0].c;
  for (size_t i = 0; i < d.size(); ++i) if (d[i].m != s[i].m || std::fabs(s[i].c - k * d[i].c) > 1e-9 * std::fabs(s[i].c)) return 0;
  bool mn = !(m & 4); if (k < 0) mn = !mn;
  return n->mm = mn ? 1 : 2;
}
static Iv joinIte(N n, const Iv &a, const Iv &b) {
  Iv r{std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan, a.nz && b.nz, a.inf || b.inf};
  return r;
}
// bounds of a minimum or maximum from the bounds of its operands (both seen without the gate)
static Iv minMaxIv(N n, Iv r, const Iv &a, const Iv &b) {
  int k = minMaxKind(n);
  if (!k) return r;
  bool takeA = n->a[0]->i & 8;                    // an operand that is NaN selects the first branch
  const Iv &q = takeA ? a : b; const Iv &o = takeA ? b : a;
  r.nan = q.nan || false;
  if (!o.nan) { if (k == 1) r.hi = std::min(r.hi, std::min(a.hi, b.hi)); else r.lo = std::max(r.lo, std::max(a.lo, b.lo)); }
  else { if (k == 1) r.hi = std::min(r.hi, q.hi); else r.lo = std::max(r.lo, q.lo); }
  return r;
}
static Iv evalCheap(N n, const Ctx *c) {
  auto mi = c->memo.find(n->id);
  if (mi != c->memo.end()) return mi->second;
  mi = c->cmemo.find(n->id);
  if (mi != c->cmemo.end()) return mi->second;
  Iv r;
  if (n->k == KPoly) r = evalPoly(n, c);
  else if (n->k == KFn) r = evalFn(n, c);
  else {
    int d = 2;
    if (isC(n->a[0])) d = n->a[0]->i != 0;
    else { auto b = c->bools.find(n->a[0]->id); if (b != c->bools.end()) d = b->second; }
    const Iv *up = nullptr;
    if (d == 2) for (const Ctx *q = c->parent; q; q = q->parent) { auto m = q->memo.find(n->id); if (m != q->memo.end()) { up = &m->second; break; } }
    if (up) r = *up;
    else {
      if (d == 2) d = decide(n->a[0], c, 0);
      if (d == 1) r = eval(n->a[1], c);
      else if (d == 0) r = eval(n->a[2], c);
      else {
        Iv a = eval(n->a[1], c), b = eval(n->a[2], c);
        r = minMaxIv(n, joinIte(n, a, b), a, b);
      }
    }
  }
  auto it = c->ref.find(n->id);
  if (it != c->ref.end()) r = meet(r, it->second);
  c->cmemo[n->id] = r;
  return r;
}
Iv eval(N n, const Ctx *c) {
  switch (n->k) {
  case KConst: {
    double v = cval(n);
    if (std::isnan(v)) return Iv{-INF, INF, true, false, false};
    return Iv{v, v, false, v != 0, std::isinf(v)};
  }
  case KSym: { auto it = c->ref.find(n->id); return it == c->ref.end() ? n->base : it->second; }
  case KPoly: case KFn: case KIte: break;
  default: return ivTop();
  }
  if (cheap()) return evalCheap(n, c);
  auto mi = c->memo.find(n->id);
  if (mi != c->memo.end()) return mi->second;
  Iv r;
  if (n->k == KPoly) {
    r = evalPoly(n, c);
    r = ratioRule(n, c, r);
    r = roundRule(n, c, r);
    r = rootRule(n, c, r);
  } else if (n->k == KFn) r = evalFn(n, c);
  else {
    int d = decide(n->a[0], c, 1);
    if (d == 1) r = eval(n->a[1], c);
    else if (d == 0) r = eval(n->a[2], c);
    else {
      const Ctx *ct = c, *ce = c;
      if (c->depth < 40 && !cheap()) { ct = withLit(c, n->a[0], true); ce = withLit(c, n->a[0], false); }
      if (ct->infeasible) r = eval(n->a[2], ce);
      else if (ce->infeasible) r = eval(n->a[1], ct);
      else {
        Iv a, b;
        // nested gates are evaluated in refined contexts only a few levels deep
        int used = 0; for (const Ctx *q = c; q && q->lit; q = q->parent) ++used;
        static int nest = 0;
        if (nest < 4 && !cheap()) { ++nest; a = eval(n->a[1], ct); b = eval(n->a[2], ce); --nest; }
        else { Cheap ch; a = eval(n->a[1], c); b = eval(n->a[2], c); }
        r = joinIte(n, a, b);
        if (minMaxKind(n)) { Cheap ch; Iv a2 = eval(n->a[1], c), b2 = eval(n->a[2], c); r = minMaxIv(n, r, a2, b2); }
      }
    }
  }
  auto it = c->ref.find(n->id);
  if (it != c->ref.end()) r = meet(r, it->second);
  c->memo[n->id] = r;
  return r;
}

// ------------------------------------------------------------------ polynomials
Poly polyOf(N n) {
  if (n->k == KConst) { double v = cval(n); if (v == 0) return {}; return {Term{v, {}}}; }
  if (n->k == KPoly) return n->terms;
  return {Term{1.0, {{(int)n->id, 1}}}};
}
Poly padd(const Poly &a, const Poly &b, double sb) {
  Poly r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].m < b[j].m)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].m < a[i].m) { r.push_back(Term{b[j].c * sb, b[j].m}); ++j; }
    else {
      double x = a[i].c, y = b[j].c * sb, s = x + y;
      if (std::fabs(s) > 1e-11 * std::max(std::fabs(x), std::fabs(y))) r.push_back(Term{s, a[i].m});
      ++i; ++j;
    }
  }
  return r;
}
static std::vector<std::pair<int,int>> mmul(const std::vector<std::pair<int,int>> &a, const std::vector<std::pair<int,int>> &b) {
  std::vector<std::pair<int,int>> r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; }
  }
  return r;
}
static Poly norm(std::vector<Term> &v) {
  std::sort(v.begin(), v.end(), [](const Term &x, const Term &y) { return x.m < y.m; });
  Poly r; size_t i = 0;
  while (i < v.size()) {
    size_t j = i; double s = 0, mx = 0;
    for (; j < v.size() && v[j].m == v[i].m; ++j) { s += v[j].c; mx = std::max(mx, std::fabs(v[j].c)); }
    if (std::fabs(s) > 1e-11 * mx) r.push_back(Term{s, v[i].m});
    i = j;
  }
  return r;
}
Poly pmul(const Poly &a, const Poly &b) {
  std::vector<Term> v; v.reserve(a.size() * b.size());
  for (auto &x : a) for (auto &y : b) v.push_back(Term{x.c * y.c, mmul(x.m, y.m)});
  return norm(v);
}
// Sum of squares: every monomial is written as a product of two monomials whose squares occur, and the resulting
// matrix is positive semidefinite.
static bool sumOfSquares(const Poly &p) {
  if (p.size() > 40) return false;
  typedef std::vector<std::pair<int,int>> M;
  std::vector<M> h; bool one = false;
  auto half = [](const M &m, M &r) { r.clear(); for (auto &q : m) { if (q.second < 0 || q.second % 2) return false; r.push_back({q.first, q.second / 2}); } return true; };
  for (auto &t : p) { M r; for (auto &q : t.m) if (q.second < 0) return false; if (half(t.m, r) && t.c > 0) { h.push_back(r); one |= r.empty(); } }
  size_t n = h.size(); if (!n || n > 14) return false;
  std::vector<std::vector<double>> g(n, std::vector<double>(n, 0));
  for (auto &t : p) {
    bool ok = false;
    for (size_t i = 0; i < n && !ok; ++i) for (size_t j = i; j < n && !ok; ++j) if (mmul(h[i], h[j]) == t.m) { if (i == j) g[i][i] += t.c; else { g[i][j] += t.c / 2; g[j][i] += t.c / 2; } ok = true; }
    if (!ok) return false;
  }
  return semidef(g);
}
// k*S + R >= 0 for a product S of square roots when (k*S)^2 - R^2 is a sum of squares (Cauchy-Schwarz and the like)
static bool rootNonneg(const Poly &p, const Ctx *c) {
  if (p.size() < 2 || p.size() > 12) return false;
  if (sumOfSquares(p)) return true;
  int k = -1;
  for (size_t i = 0; i < p.size(); ++i) for (auto &q : p[i].m) if (P.nodes[q.first]->k == KFn && P.nodes[q.first]->op == OpSqrt) { if (k >= 0 && k != (int)i) return false; k = i; }
  if (k < 0 || p[k].c <= 0) return false;
  Poly S = {Term{p[k].c * p[k].c, {}}}, R;
  for (auto &q : p[k].m) {
    N x = P.nodes[q.first];
    if (x->k == KFn && x->op == OpSqrt && q.second == 1) S = pmul(S, polyOf(x->a[0]));
    else { if (q.second < 0 || (q.second % 2 && eval(x, c).lo < 0)) return false; S = pmul(S, {Term{1, {{q.first, 2 * q.second}}}}); }
    if (S.size() > 30) return false;
  }
  for (size_t i = 0; i < p.size(); ++i) if ((int)i != k) R.push_back(p[i]);
  Poly d = padd(S, pmul(R, R), -1);
  return d.empty() || sumOfSquares(d);
}
static Iv rootRule(N n, const Ctx *c, Iv s) {
  if (s.nan || (s.lo >= 0 || s.hi <= 0)) return s;
  if (rootNonneg(n->terms, c)) s.lo = 0;
  else if (rootNonneg(padd({}, n->terms, -1), c)) s.hi = 0;
  return fixIv(s);
}
static Poly ppowi(const Poly &a, int e) { Poly r = {Term{1, {}}}; for (int i = 0; i < e; ++i) r = pmul(r, a); return r; }
static Poly invPoly(N base); // 1/base as a polynomial over an OpDen atom

static bool exactDiv(Poly a, const Poly &b, Poly &out);
static void cancelDens(Poly &p) { // D*q/D: the quotient is taken where the division is exact
  if (p.size() < 2 || p.size() > 40) return;
  std::vector<int> dens;
  for (auto &t : p) for (auto &q : t.m) if (q.second == 1) { N x = P.nodes[q.first]; if (x->k == KFn && x->op == OpDen && std::find(dens.begin(), dens.end(), q.first) == dens.end()) dens.push_back(q.first); }
  for (int d : dens) {
    Poly with, rest;
    for (auto &t : p) { auto it = std::find_if(t.m.begin(), t.m.end(), [&](auto &q) { return q.first == d && q.second == 1; }); if (it == t.m.end()) { rest.push_back(t); continue; } Term u = t; u.m.erase(u.m.begin() + (it - t.m.begin())); with.push_back(u); }
    Poly D = polyOf(P.nodes[d]->a[0]), quo;
    if (with.size() < D.size() || with.size() < 2) continue;
    Poly nw = norm(with), nd = norm(D);
    // take out what all terms share
    if (!exactDiv(nw, nd, quo)) continue;
    p = padd(norm(rest), quo, 1);
  }
}
static bool reducible(const Term &t, size_t &k) {
  for (k = 0; k < t.m.size(); ++k) {
    N x = P.nodes[t.m[k].first]; int e = t.m[k].second;
    if (x->k != KFn) continue;
    if (x->op == OpSqrt && (e >= 2 || e <= -2)) return true;
    if (x->op == OpPow && isC(x->a[1]) && e != 1) return true;
    if (x->op == OpDen && e < 0) return true;
  }
  return false;
}
N mkPoly(Poly p, Ty ty, int w) {
  for (int guard = 0; guard < 200; ++guard) {
    size_t ti, k = 0; bool found = false;
    for (ti = 0; ti < p.size(); ++ti) if (reducible(p[ti], k)) { found = true; break; }
    if (!found) break;
    Term t = p[ti]; p.erase(p.begin() + ti);
    N x = P.nodes[t.m[k].first]; int e = t.m[k].second;
    t.m.erase(t.m.begin() + k);
    Poly q;
    if (x->op == OpSqrt) {
      int h = e / 2, r = e % 2; // truncated
      q = h > 0 ? ppowi(polyOf(x->a[0]), h) : ppowi(invPoly(x->a[0]), -h);
      if (r) q = pmul(q, {Term{1, {{(int)x->id, r}}}});
    } else if (x->op == OpDen) q = ppowi(polyOf(x->a[0]), -e);
    else q = polyOf(mkFn(OpPow, {x->a[0], mkF(cval(x->a[1]) * e)}));
    p = padd(p, pmul({t}, q), 1);
  }
  cancelDens(p);
  for (auto &t : p) t.c = rnd(t.c);
  p.erase(std::remove_if(p.begin(), p.end(), [](const Term &t) { return t.c == 0; }), p.end());
  if (p.empty()) return ty == TF ? mkF(0) : mkI(w, 0);
  if (p.size() == 1 && p[0].m.empty()) return ty == TF ? mkF(p[0].c) : mkI(w, (int64_t)p[0].c);
  if (p.size() == 1 && p[0].c == 1 && p[0].m.size() == 1 && p[0].m[0].second == 1) return P.nodes[p[0].m[0].first];
  Node n{}; n.k = KPoly; n.ty = ty; n.w = ty == TF ? 32 : w; n.terms = std::move(p);
  return intern(n);
}
static bool nonfinite(N n) { return isC(n) && n->ty == TF && !std::isfinite(n->f); }
static bool numericNode(N n) { return n->ty == TF || n->ty == TI; }
N nadd(N a, N b, Ty ty, int w) {
  if (ty == TI && isC(a) && isC(b)) return mkI(w, (int64_t)((uint64_t)a->i + (uint64_t)b->i));
  if (nonfinite(a) || nonfinite(b)) { if (isC(a) && isC(b)) return mkF(cval(a) + cval(b)); return mkUnknown(ty, w, "nonfinite"); }
  return mkPoly(padd(polyOf(a), polyOf(b), 1), ty, w);
}
N nsub(N a, N b, Ty ty, int w) {
  if (ty == TI && isC(a) && isC(b)) return mkI(w, (int64_t)((uint64_t)a->i - (uint64_t)b->i));
  if (nonfinite(a) || nonfinite(b)) { if (isC(a) && isC(b)) return mkF(cval(a) - cval(b)); return mkUnknown(ty, w, "nonfinite"); }
  return mkPoly(padd(polyOf(a), polyOf(b), -1), ty, w);
}
N nneg(N a) { if (nonfinite(a)) return mkF(-a->f); return mkPoly(padd({}, polyOf(a), -1), a->ty, a->w); }
N nmul(N a, N b, Ty ty, int w) {
  if (ty == TI && isC(a) && isC(b)) return mkI(w, (int64_t)((uint64_t)a->i * (uint64_t)b->i));
  if (nonfinite(a) || nonfinite(b)) { if (isC(a) && isC(b)) return mkF(cval(a) * cval(b)); return mkUnknown(ty, w, "nonfinite"); }
  Poly p = polyOf(a), q = polyOf(b);
  if (p.size() * q.size() > 1500 && p.size() > 1 && q.size() > 1) {
    if (a->id > b->id) std::swap(a, b);
    Node n{}; n.k = KFn; n.op = OpMul; n.ty = ty; n.w = w; n.a = {a, b};
    return intern(n);
  }
  return mkPoly(pmul(p, q), ty, w);
}
// positive scale so that the first non constant coefficient has magnitude one
static double leadCoef(const Poly &p) { for (auto &t : p) if (!t.m.empty()) return t.c; return p.empty() ? 1 : p[0].c; }
static N scaled(const Poly &p, double s, Ty ty, int w) { Poly q = p; for (auto &t : q) t.c *= s; return mkPoly(q, ty, w); }

// approximate hash consing of function and sign arguments: source constants written as float or
// double denote the same value number
static std::unordered_map<uint64_t, std::vector<N>> snapTab;
static std::set<double> snapConsts;
static N snap(N n) {
  if (n->k == KConst && n->ty == TF && std::isfinite(n->f)) {
    double v = n->f, t = 2e-7 * std::fabs(v);
    auto it = snapConsts.lower_bound(v - t);
    if (it != snapConsts.end() && *it <= v + t) return mkF(*it);
    snapConsts.insert(v); return n;
  }
  if (n->k != KPoly) return n;
  uint64_t h = 77;
  for (auto &t : n->terms) { h = hmix(h, 5); for (auto &q : t.m) { h = hmix(h, q.first); h = hmix(h, q.second + 100); } }
  auto &v = snapTab[h];
  double mx = 0; for (auto &t : n->terms) mx = std::max(mx, std::fabs(t.c));
  for (N x : v) {
    if (x == n) return x;
    if (x->terms.size() != n->terms.size() || x->ty != n->ty) continue;
    bool ok = true;
    for (size_t i = 0; i < x->terms.size() && ok; ++i) {
      double a = x->terms[i].c, b = n->terms[i].c;
      if (x->terms[i].m != n->terms[i].m || std::fabs(a - b) > 2e-7 * std::max(std::fabs(a), std::fabs(b)) + 1e-9 * mx) ok = false;
    }
    if (ok) return x;
  }
  v.push_back(n);
  return n;
}
static N fnRaw(Op op, const std::vector<N> &a, Ty ty, int w) { Node n{}; n.k = KFn; n.ty = ty; n.w = w; n.op = op; n.a = a; return intern(n); }

static Poly invPoly(N base) {
  Poly p = polyOf(base);
  if (p.size() == 1) { Term t{1 / p[0].c, p[0].m}; for (auto &q : t.m) q.second = -q.second; return {t}; }
  // take out the common monomial
  std::vector<std::pair<int,int>> com = p[0].m;
  for (auto &t : p) {
    std::vector<std::pair<int,int>> r;
    for (auto &q : com) for (auto &s : t.m) if (q.first == s.first && (q.second > 0) == (s.second > 0)) r.push_back({q.first, q.second > 0 ? std::min(q.second, s.second) : std::max(q.second, s.second)});
    com = r;
  }
  std::vector<std::pair<int,int>> inv = com; for (auto &q : inv) q.second = -q.second;
  if (!com.empty()) p = pmul(p, {Term{1, inv}});
  double l = leadCoef(p);
  N m = snap(scaled(p, 1 / l, TF, 32));
  N d = fnRaw(OpDen, {m}, TF, 32);
  return pmul({Term{1 / l, inv}}, {Term{1, {{(int)d->id, 1}}}});
}
// a/b where b divides a exactly; false otherwise
static bool lexLess(const std::vector<std::pair<int,int>> &a, const std::vector<std::pair<int,int>> &b) {
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    int ia = i < a.size() ? a[i].first : INT32_MAX, ib = j < b.size() ? b[j].first : INT32_MAX, m = std::min(ia, ib);
    int ea = ia == m ? a[i].second : 0, eb = ib == m ? b[j].second : 0;
    if (ea != eb) return ea < eb;
    if (ia == m) ++i; if (ib == m) ++j;
  }
  return false;
}
static bool exactDiv(Poly a, const Poly &b, Poly &out) {
  if (b.size() < 2 || a.size() < 2 || a.size() > 40 || b.size() > 12) return false;
  for (auto *p : {&a, const_cast<Poly *>(&b)}) for (auto &t : *p) for (auto &q : t.m) if (q.second < 0 || q.second > 12) return false;
  auto lead = [](const Poly &p) { size_t k = 0; for (size_t i = 1; i < p.size(); ++i) if (lexLess(p[k].m, p[i].m)) k = i; return p[k]; };
  Term lb = lead(b); Poly q; double sc = 0; for (auto &t : a) sc = std::max(sc, std::fabs(t.c));
  std::vector<std::pair<int,int>> inv = lb.m; for (auto &x : inv) x.second = -x.second;
  for (int step = 0; step < 24; ++step) {
    if (a.empty()) { out = q; return true; }
    Term la = lead(a); Term t{la.c / lb.c, mmul(la.m, inv)};
    for (auto &x : t.m) if (x.second < 0) return false;
    q = padd(q, {t}, 1);
    Poly r = padd(a, pmul(b, {t}), -1), f;
    for (auto &x : r) if (x.m != la.m && std::fabs(x.c) > 1e-9 * sc) f.push_back(x);
    a = f;
  }
  return false;
}
N ndiv(N a, N b) {
  if (isC(a) && isC(b)) return mkF(cval(a) / cval(b));
  if (nonfinite(b) || nonfinite(a)) return mkUnknown(TF, 32, "nonfinite");
  if (isC(b)) { if (cval(b) == 0) return fnRaw(OpDiv0, {a}, TF, 32); return scaled(polyOf(a), 1 / cval(b), TF, 32); }
  if (a == b) { /* falls through to the gate: x/x is NaN at zero */ }
  N z = mkSign(b, 2);
  int d = decide(z, cur);
  if (d == 1) return fnRaw(OpDiv0, {a}, TF, 32);
  N q;
  {
    const Ctx *c2 = d == 0 ? cur : withLit(cur, z, false);
    WithCtx wc(c2);
    Poly pa = polyOf(a), pb = polyOf(b);
    // constant multiple
    bool mult = pa.size() == pb.size() && !pa.empty();
    double k = mult ? pa[0].c / pb[0].c : 0;
    for (size_t i = 0; mult && i < pa.size(); ++i) if (pa[i].m != pb[i].m || std::fabs(pa[i].c - k * pb[i].c) > 1e-10 * std::fabs(pa[i].c)) mult = false;
    if (mult) q = mkF(k);
    else if (Poly ex; exactDiv(pa, pb, ex)) q = mkPoly(ex, TF, 32);
    else {
      Poly inv = invPoly(b);
      q = mkPoly(pmul(pa, inv), TF, 32);
    }
  }
  if (d == 0) return q;
  return mkIte(z, fnRaw(OpDiv0, {a}, TF, 32), q);
}

static int ratioDepth = 0;
static Iv ratioRule(N n, const Ctx *c, Iv s, bool mixed) {
  // R + Q/D: bounded through the sign of k*D - (R*D + Q)
  int den = -1, ex = 0;
  for (auto &t : n->terms) for (auto &q : t.m) if (den < 0) {
    if (q.second == 1 && P.nodes[q.first]->k == KFn && P.nodes[q.first]->op == OpDen) den = q.first, ex = 1;
    else if (q.second == -1) den = q.first, ex = -1;
  }
  if (den < 0 || n->terms.size() > 16) return s;
  Poly with, rest;
  for (auto &t : n->terms) {
    auto it = std::find_if(t.m.begin(), t.m.end(), [&](auto &q) { return q.first == den; });
    if (it == t.m.end()) { rest.push_back(t); continue; }
    if (it->second != ex) return s;
    Term u = t; u.m.erase(u.m.begin() + (it - t.m.begin())); with.push_back(u);
  }
  if (ex < 0 && rest.empty()) return s;
  if (!rest.empty() && (!mixed || s.lo >= 0 || s.hi <= 0 || ratioDepth > 0)) return s;
  if (ratioDepth > 1 || cheap()) return s;
  ++ratioDepth;
  Poly pd = ex > 0 ? polyOf(P.nodes[den]->a[0]) : Poly{Term{1, {{den, 1}}}};
  if (pd.size() * rest.size() > 60) { --ratioDepth; return s; }
  Poly q = norm(with); if (!rest.empty()) q = padd(q, pmul(rest, pd), 1);
  Poly npd = padd({}, pd, -1);
  int sg = polyNonneg(pd, c, 2, false) ? 1 : polyNonneg(npd, c, 2, false) ? -1 : 0;
  if (sg) {
    if (sg < 0) { pd = npd; q = padd({}, q, -1); }
    double cand[] = {0, 1, -1, 2, -2};
    for (double k : cand) {
      if (k != 0 && !rest.empty()) break;
      if (s.hi > k && polyNonneg(padd([&] { Poly x = pd; for (auto &t : x) t.c *= k; if (k == 0) x.clear(); return x; }(), q, -1), c, 2, false)) s.hi = k;
      if (s.lo < k && polyNonneg(padd(q, [&] { Poly x = pd; for (auto &t : x) t.c *= k; if (k == 0) x.clear(); return x; }(), -1), c, 2, false)) s.lo = k;
    }
  }
  --ratioDepth;
  return s;
}

// round(p), floor(p), ... occurring linearly: replaced by p plus a bounded error
static Iv roundRule(N n, const Ctx *c, Iv s) {
  if (cheap() || n->terms.size() < 2) return s;
  for (auto &t : n->terms) {
    if (t.m.size() != 1 || t.m[0].second != 1) continue;
    N a = P.nodes[t.m[0].first];
    if (a->k != KFn) continue;
    double lo, hi;
    if (a->op == OpRound) lo = -0.5, hi = 0.5; else if (a->op == OpFloor) lo = -1, hi = 0; else if (a->op == OpCeil) lo = 0, hi = 1; else if (a->op == OpTrunc) lo = -1, hi = 1; else continue;
    Poly rest; for (auto &u : n->terms) if (&u != &t) rest.push_back(u);
    Poly q = padd(rest, polyOf(a->a[0]), t.c);
    Iv v = q.empty() ? Iv{0, 0} : eval(mkPoly(q, TF, 32), c);
    double e1 = t.c * lo, e2 = t.c * hi; if (e1 > e2) std::swap(e1, e2);
    s.lo = std::max(s.lo, v.lo + e1); s.hi = std::min(s.hi, v.hi + e2);
    return s;
  }
  return s;
}

// ------------------------------------------------------------------ conditions
N mkNot(N c) {
  if (isC(c)) return mkB(!isTrue(c));
  if (c->k == KSign) return mkSign(c->a[0], 15 ^ (int)c->i);
  if (c->k == KIte) { Node n{}; n.k = KIte; n.ty = TI; n.w = 1; n.a = {c->a[0], mkNot(c->a[1]), mkNot(c->a[2])};
    if (isTrue(n.a[1]) && isFalse(n.a[2])) return n.a[0];
    return intern(n); }
  Node n{}; n.k = KIte; n.ty = TI; n.w = 1; n.a = {c, mkB(false), mkB(true)};
  return intern(n);
}
static int flipMask(int m) { return (m & 10) | ((m & 1) << 2) | ((m & 4) >> 2); }
N mkSign(N e, int mask) {
  mask &= 15;
  if (mask == 15) return mkB(true);
  if (mask == 0) return mkB(false);
  if (isC(e)) {
    double v = cval(e); int b = std::isnan(v) ? 8 : v < 0 ? 1 : v > 0 ? 4 : 2;
    return mkB(mask & b);
  }
  if (e->ty == TT || e->ty == TP) return mkUnknown(TI, 1, "sign-of-nonnumber");
  if (e->k == KIte && isC(e->a[1]) && isC(e->a[2])) return mkIte(e->a[0], mkSign(e->a[1], mask), mkSign(e->a[2], mask));
  Poly p = polyOf(e);
  { // single gate with constant branches inside a linear expression
    N g = nullptr; bool one = true; double k = 0, c0 = 0;
    for (auto &t : p) {
      if (t.m.empty()) { c0 = t.c; continue; }
      if (g || t.m.size() != 1 || t.m[0].second != 1) { one = false; break; }
      g = P.nodes[t.m[0].first]; k = t.c;
    }
    if (one && g && g->k == KIte && isC(g->a[1]) && isC(g->a[2]))
      return mkIte(g->a[0], mkSign(mkF(k * cval(g->a[1]) + c0), mask), mkSign(mkF(k * cval(g->a[2]) + c0), mask));
  }
  double l = leadCoef(p);
  if (l < 0) mask = flipMask(mask);
  bool isInt = e->ty == TI;
  N s = snap(scaled(p, 1 / l, TF, 32));
  (void)isInt;
  Iv iv = eval(s, &rootCtx);
  if (!iv.nan) {
    mask &= 7;
    if (mask == 7) return mkB(true);
    if (mask == 0) return mkB(false);
  }
  if (isC(s)) { double v = cval(s); return mkB(mask & (v < 0 ? 1 : v > 0 ? 4 : 2)); }
  Node n{}; n.k = KSign; n.ty = TI; n.w = 1; n.i = mask; n.a = {s};
  return intern(n);
}
N mkCmp(N a, N b, int mask) { return mkSign(nsub(a, b, TF, 32), mask); }

static int signMask(N s, const Ctx *c, int depth);
static bool substEq(N n, N from, N to) { // n[from:=to], shallow (polynomials only)
  (void)n; (void)from; (void)to; return false;
}
N mkIte(N c, N t, N e) {
  if (isTrue(c)) return t;
  if (isFalse(c)) return e;
  if (t == e) return t;
  int d = decide(c, cur, 2);
  if (d == 1) return t;
  if (d == 0) return e;
  if (t->k == KTuple && e->k == KTuple && t->a.size() == e->a.size()) {
    std::vector<N> v; for (size_t i = 0; i < t->a.size(); ++i) v.push_back(mkIte(c, t->a[i], e->a[i])); return mkTuple(v);
  }
  if (isBool(t) && isBool(e)) {
    if (isTrue(t) && isFalse(e)) return c;
    if (isFalse(t) && isTrue(e)) return mkNot(c);
  }
  if (t->k == KIte && t->a[0] == c) t = t->a[1];
  if (e->k == KIte && e->a[0] == c) e = e->a[2];
  if (t == e) return t;
  if (c->k == KSign) { // canonical polarity
    N nc = mkNot(c);
    bool flip = false;
    int m = c->i & 7, m2 = nc->k == KSign ? nc->i & 7 : 0;
    if ((c->i & 8) != (nc->k == KSign ? nc->i & 8 : 0)) flip = c->i & 8;
    else flip = !(m == 1 || m == 2 || m == 3) && (m2 == 1 || m2 == 2 || m2 == 3);
    if (flip && nc->k == KSign) { c = nc; std::swap(t, e); }
  } else if (c->k == KIte && isFalse(c->a[1]) && isTrue(c->a[2])) { c = c->a[0]; std::swap(t, e); }
  // both branches agree where the compared difference is zero: a weak sign fact is enough to choose
  if (c->k == KSign && t->ty == TF && e->ty == TF && t->k != KUndef && e->k != KUndef && !nonfinite(t) && !nonfinite(e)) {
    int m = (int)c->i & 7, sm = signMask(c->a[0], cur, 2);
    if ((sm == 3 || sm == 6) && m != 2 && m != 5) {
      Poly df = padd(polyOf(t), polyOf(e), -1), sp = polyOf(c->a[0]);
      bool prop = !df.empty() && df.size() == sp.size();
      double k = prop ? sp[0].c / df[0].c : 0;
      for (size_t i = 0; prop && i < df.size(); ++i) if (df[i].m != sp[i].m || std::fabs(sp[i].c - k * df[i].c) > 1e-9 * std::fabs(sp[i].c)) prop = false;
      if (prop) return (m & (sm == 3 ? 1 : 4)) ? t : e;
    }
  }
  // Ite(x==k, k, x) = x
  if (c->k == KSign && (c->i & 7) == 2 && numericNode(t) && numericNode(e) && t->k != KUndef && e->k != KUndef && !nonfinite(t) && !nonfinite(e)) {
    N df = nsub(t, e, TF, 32);
    if (!isC(df)) { Poly p = polyOf(df); double l = leadCoef(p); N s = snap(scaled(p, 1 / l, TF, 32)); if (s == c->a[0]) return e; }
  }
  Node n{}; n.k = KIte; n.ty = t->ty == TT ? e->ty : t->ty; n.w = t->w; n.a = {c, t, e};
  if (t->ty != e->ty && t->k == KUndef) { n.ty = e->ty; n.w = e->w; }
  return intern(n);
}
N mkAnd(N a, N b) { if (isFalse(a) || isFalse(b)) return mkB(false); if (isTrue(a)) return b; if (isTrue(b) || a == b) return a; return mkIte(a, b, mkB(false)); }
N mkOr(N a, N b) { if (isTrue(a) || isTrue(b)) return mkB(true); if (isFalse(a)) return b; if (isFalse(b) || a == b) return a; return mkIte(a, mkB(true), b); }
static N minmax(N a, N b, int mask) {
  if (a == b) return a;
  if (isC(a) && isC(b)) { double x = cval(a), y = cval(b); if (std::isnan(x)) return b; if (std::isnan(y)) return a; return (mask == 1) ? (x < y ? a : b) : (x > y ? a : b); }
  bool na = eval(a, cur).nan, nb = eval(b, cur).nan;
  if (!nb) { if (!na && a->id > b->id) return mkIte(mkCmp(b, a, mask), b, a); return mkIte(mkCmp(a, b, mask), a, b); }   // NaN a -> b
  if (!na) return mkIte(mkCmp(b, a, mask), b, a);   // NaN b -> a
  N an = mkSign(a, 8), bn = mkSign(b, 8);
  return mkIte(an, b, mkIte(bn, a, mkIte(mkCmp(a, b, mask), a, b)));
}
N mkMin(N a, N b) { return minmax(a, b, 1); }
N mkMax(N a, N b) { return minmax(a, b, 4); }
N mkAbs(N a) {
  if (isC(a)) return a->ty == TF ? mkF(std::fabs(a->f)) : mkI(a->w, std::llabs(a->i));
  return mkIte(mkSign(a, 1), nneg(a), a);
}
N asSigned(N a, int w) {
  if (isC(a) || w >= 64 || a->k == KPtr) return a;
  Iv v = eval(a, cur); double b = std::ldexp(1.0, w - 1);
  if (v.lo >= -b && v.hi < b) return a;
  if (v.lo >= 0 && v.hi < 2 * b) { N r = nsub(a, mkF(2 * b), TI, w + 8); return mkIte(mkSign(nsub(a, mkF(b), TF, 32), 6), r, a); }
  return fnRaw(OpWrapS, {a}, TI, w);
}
N asUnsigned(N a, int w) {
  if (a->k == KPtr) return a;
  if (isC(a)) { if (a->i >= 0 || w >= 64) return a; Node n{}; n.k = KConst; n.ty = TI; n.w = 64; n.i = (int64_t)zext(a->i, w); return intern(n); }
  Iv v = eval(a, cur); double b = std::ldexp(1.0, w);
  if (v.lo >= 0 && v.hi < b) return a;
  if (w >= 64) return a;
  if (v.lo >= -b / 2 && v.hi < b / 2) { N r = nadd(a, mkF(b), TI, 64); return mkIte(mkSign(a, 1), r, a); }
  return fnRaw(OpWrapU, {a}, TI, w);
}

static int maskIv(const Iv &v) {
  int m = 0;
  if (v.lo < 0) m |= 1;
  if (v.hi > 0) m |= 4;
  if (v.lo <= 0 && v.hi >= 0 && !v.nz) m |= 2;
  if (v.nan) m |= 8;
  return m;
}
static bool polyNonneg(const Poly &e, const Ctx *c, int depth, bool strict) {
  if (e.empty()) return !strict;
  N n = mkPoly(e, TF, 32);
  Iv v = eval(n, c);
  if (v.lo > 0 || (v.lo >= 0 && (!strict || v.nz))) return true;
  if (depth <= 0 || e.size() > 14) return false;
  int tries = 0;
  for (auto &f : c->sign) {
    int m = f.second & 7; double o;
    if (f.second & 8) continue;
    if ((m & 1) == 0) o = 1; else if ((m & 4) == 0) o = -1; else continue;
    bool fs = !(m & 2);
    N fn = P.nodes[f.first];
    if (fn->k != KPoly || fn->terms.size() > 14) continue;
    for (auto &tf : fn->terms) {
      if (tf.m.empty()) continue;
      bool used = false;
      for (auto &te : e) if (te.m == tf.m) {
        double lam = te.c / (tf.c * o);
        if (lam > 0) {
          Poly r = padd(e, fn->terms, -lam * o);
          if (r.size() < e.size() + 2 && ++tries < 24 && polyNonneg(r, c, depth - 1, strict && !fs)) return true;
          used = true;
        }
        break;
      }
      if (used) break;
    }
  }
  return false;
}
static int signMask(N s, const Ctx *c, int depth) {
  int m = maskIv(eval(s, c));
  auto it = c->sign.find(s->id);
  if (it != c->sign.end()) m &= it->second;
  if (m == 1 || m == 2 || m == 4 || m == 8 || m == 0) return m;
  if (depth > 1 && (m & 5) && s->k == KPoly && !cheap()) { m &= maskIv(ratioRule(s, c, eval(s, c), true)); if (m == 1 || m == 2 || m == 4 || m == 0) return m; }
  static int nest = 0;
  if (nest < 2 && !cheap() && !c->sign.empty() && s->k == KPoly) {
    struct G { G() { ++nest; } ~G() { --nest; } } guard;
    const Poly &p = s->terms; Poly np = padd({}, p, -1);
    if ((m & 1) && polyNonneg(p, c, 2, false)) m &= ~1;
    if ((m & 4) && polyNonneg(np, c, 2, false)) m &= ~4;
    if ((m & 2) && (polyNonneg(p, c, 2, true) || polyNonneg(np, c, 2, true))) m &= ~2;
  }
  return m;
}
static N findSplit(N n, const Ctx *c, std::unordered_set<int> &seen, int depth);

static long decideWork = 0;
int decide(N cond, const Ctx *c, int depth) {
  if (isC(cond)) return cond->i != 0;
  auto b = c->bools.find(cond->id);
  if (b != c->bools.end()) return b->second;
  if (cond->k == KSign) {
    auto mi = c->dmemo.find(cond->id);
    if (mi != c->dmemo.end() && ((mi->second & 3) != 2 || (mi->second >> 4) >= depth)) return mi->second & 3;
    int r = 2;
    N s = cond->a[0];
    int m = signMask(s, c, depth);
    int want = (int)cond->i;
    if ((m & ~want) == 0) r = 1; else if ((m & want) == 0) r = 0;
    if (r == 2 && depth > 0 && !cheap() && (s->split || !c->subst.empty()) && c->depth < 60) {
      N s2 = rebuild(s, c);
      if (s2 != s) {
        N c2; { WithCtx wc(c); c2 = mkSign(s2, want); }
        if (c2 != cond) r = decide(c2, c, depth - 1);
      }
      if (r == 2) {
        std::unordered_set<int> seen;
        N g = findSplit(s2, c, seen, 0);
        if (g && g != cond) {
          const Ctx *ct = withLit(c, g, true), *ce = withLit(c, g, false);
          int r1 = ct->infeasible ? -1 : decide(cond, ct, depth - 1);
          if (r1 != 2) {
            int r2 = ce->infeasible ? -1 : decide(cond, ce, depth - 1);
            if (r1 == -1) r = r2 == -1 ? 2 : r2; else if (r2 == -1 || r1 == r2) r = r1;
          }
        }
      }
    }
    if (r != 2 || !cheap()) c->dmemo[cond->id] = r | (depth << 4);
    return r;
  }
  if (cond->k == KIte) {
    int d = decide(cond->a[0], c, depth);
    if (d == 1) return decide(cond->a[1], c, depth);
    if (d == 0) return decide(cond->a[2], c, depth);
    if (cheap()) {
      int x = decide(cond->a[1], c, 0), y = x == 2 ? 2 : decide(cond->a[2], c, 0);
      return x == y ? x : 2;
    }
    const Ctx *ct = withLit(c, cond->a[0], true), *ce = withLit(c, cond->a[0], false);
    int x = ct->infeasible ? -1 : decide(cond->a[1], ct, depth), y = ce->infeasible ? -1 : decide(cond->a[2], ce, depth);
    if (x == -1) return y == -1 ? 2 : y;
    if (y == -1 || x == y) return x;
    return 2;
  }
  return 2;
}

static bool monoHas(const Term &t, int a) { for (auto &q : t.m) if (q.first == a) return true; return false; }
static void addFact(Ctx &x, N cond, bool truth, int rec);
static void refine(Ctx &x, N atom, Iv r, int rec) {
  Iv o = eval(atom, &x);
  Iv m = meet(o, r);
  if (atom->ty == TI && !m.inf) {
    if (std::isfinite(m.lo)) m.lo = std::ceil(m.lo - 1e-9);
    if (std::isfinite(m.hi)) m.hi = std::floor(m.hi + 1e-9);
    if (m.nz && m.lo == 0) m.lo = 1;
    if (m.nz && m.hi == 0) m.hi = -1;
    m = fixIv(m);
  }
  if (m.lo > m.hi || (m.lo == 0 && m.hi == 0 && m.nz)) { if (!m.nan) x.infeasible = true; return; }
  bool changed = m.lo != o.lo || m.hi != o.hi || m.nan != o.nan || m.nz != o.nz || m.inf != o.inf;
  if (!changed) return;
  x.ref[atom->id] = m; x.memo.clear(); x.cmemo.clear(); x.dmemo.clear(); x.rmemo.clear();
  if (m.lo == m.hi && !m.nan && !x.subst.count(atom->id)) {
    x.subst[atom->id] = atom->ty == TI ? mkI(atom->w, (int64_t)m.lo) : mkF(m.lo);
    x.zero.erase(std::remove_if(x.zero.begin(), x.zero.end(), [&](auto &z) { Term l{1, z.first}; if (monoHas(l, atom->id)) return true; for (auto &t : z.second) if (monoHas(t, atom->id)) return true; return false; }), x.zero.end());
  }
  if (atom->k == KFn && (atom->op == OpRound || atom->op == OpFloor) && rec < 3 && !m.nan && !x.infeasible) { // bounds on the rounded value bound the argument
    WithCtx wc(&x);
    double d = atom->op == OpRound ? 0.5 : 0;
    if (std::isfinite(m.lo) && m.lo > o.lo) addFact(x, mkSign(nsub(atom->a[0], mkF(std::ceil(m.lo - 1e-6) - d), TF, 32), 6), true, rec + 1);
    if (std::isfinite(m.hi) && m.hi < o.hi && !x.infeasible) addFact(x, mkSign(nsub(atom->a[0], mkF(std::floor(m.hi + 1e-6) + (atom->op == OpRound ? 0.5 : 1)), TF, 32), 3), true, rec + 1);
    if (x.infeasible) return;
  }
  if (atom->k == KIte && rec < 3 && !m.nan) { // a gate whose other side is excluded
    Iv a = eval(atom->a[1], &x), b = eval(atom->a[2], &x);
    auto disj = [&](const Iv &q) { return !q.nan && (q.hi < m.lo || q.lo > m.hi || (m.nz && q.lo == 0 && q.hi == 0)); };
    if (disj(a) && disj(b)) x.infeasible = true;
    else if (disj(a)) addFact(x, atom->a[0], false, rec + 1);
    else if (disj(b)) addFact(x, atom->a[0], true, rec + 1);
  }
}
static void signFact(Ctx &x, N s, int mask, int rec) {
  Iv v0 = eval(s, &x);
  if (!v0.nan) mask &= 7;
  auto it = x.sign.find(s->id);
  int have = it == x.sign.end() ? 15 : it->second;
  int m = have & mask & maskIv(v0);
  if (m == 0) { x.infeasible = true; return; }
  x.sign[s->id] = m; x.memo.clear(); x.cmemo.clear(); x.dmemo.clear(); x.rmemo.clear();
  Poly p = polyOf(s);
  bool noNan = !(m & 8);
  // bounds on e: lo/hi
  double elo = (m & 1) ? -INF : 0, ehi = (m & 4) ? INF : 0;
  if (m & 8) return;
  std::set<int> atoms;
  for (auto &t : p) for (auto &q : t.m) atoms.insert(q.first);
  for (int id : atoms) {
    N a = P.nodes[id];
    const Term *lt = nullptr; int occ = 0;
    for (auto &t : p) if (monoHas(t, id)) { ++occ; if (t.m.size() == 1 && t.m[0].second == 1) lt = &t; }
    Iv r{-INF, INF, !noNan, false, true};
    if (occ == 1 && lt) {
      // c*a + rest in [elo,ehi]  ->  a in ([elo,ehi]-rest)/c
      Poly rest; for (auto &t : p) if (&t != lt) rest.push_back(t);
      Iv rv{0, 0}; if (!rest.empty()) rv = eval(mkPoly(rest, TF, 32), &x);
      double lo = elo - rv.hi, hi = ehi - rv.lo;
      if (std::isnan(lo)) lo = -INF;
      if (std::isnan(hi)) hi = INF;
      lo /= lt->c; hi /= lt->c; if (lt->c < 0) std::swap(lo, hi);
      r.lo = lo; r.hi = hi;
      if (!(m & 2)) {
        if (rest.empty()) r.nz = true;
        else if (rv.lo == rv.hi) { // strict bound: a != -rest/c; only representable at zero
          double k = -rv.lo / lt->c; if (k == 0) r.nz = true;
          if (a->ty == TI) { if (m == 1) { if (lt->c > 0) r.hi = k - 1e-6; else r.lo = k + 1e-6; } if (m == 4) { if (lt->c > 0) r.lo = k + 1e-6; else r.hi = k - 1e-6; } }
        } else if (m == 4 && lt->c > 0 && rv.hi <= 0 && r.lo >= 0) r.nz = true;
        else if (m == 1 && lt->c < 0 && rv.lo >= 0 && r.lo >= 0) r.nz = true;   // c*a < -rest
        else if (m == 1 && lt->c > 0 && rv.lo >= 0 && r.hi <= 0) r.nz = true;
        else if (m == 4 && lt->c < 0 && rv.hi <= 0 && r.hi <= 0) r.nz = true;
      }
    }
    refine(x, a, r, rec);
    if (x.infeasible) return;
  }
  if (!(m & 2) && p.size() > 1 && rec < 3) { // no factor of a number other than zero is zero
    std::vector<std::pair<int,int>> com = p[0].m;
    for (auto &t : p) { std::vector<std::pair<int,int>> r; for (auto &q : com) for (auto &z : t.m) if (q.first == z.first && q.second > 0 && z.second > 0) r.push_back({q.first, std::min(q.second, z.second)}); com = r; }
    if (!com.empty()) {
      for (auto &q : com) { refine(x, P.nodes[q.first], Iv{-INF, INF, true, true, true}, rec); if (x.infeasible) return; }
      auto inv = com; for (auto &q : inv) q.second = -q.second;
      addFact(x, mkSign(mkPoly(pmul(p, {Term{1, inv}}), TF, 32), 2), false, rec + 1); if (x.infeasible) return;
    }
  }
  if (x.infeasible) return;
  bool substituted = false;
  if (m == 2) {
    // e = 0: substitute a symbol that occurs linearly once
    for (auto rit = atoms.rbegin(); rit != atoms.rend(); ++rit) {
      N a = P.nodes[*rit];
      if (a->k != KSym || x.subst.count(a->id)) continue;
      const Term *lt = nullptr; int occ = 0;
      for (auto &t : p) if (monoHas(t, a->id)) { ++occ; if (t.m.size() == 1 && t.m[0].second == 1) lt = &t; }
      N v;
      if (occ == 1 && lt) {
        Poly rest; for (auto &t : p) if (&t != lt) rest.push_back(Term{-t.c / lt->c, t.m});
        v = rebuild(mkPoly(norm(rest), TF, 32), &x);
      } else { // A*a + B = 0 with A known to differ from zero
        Poly A, B; bool lin = true;
        for (auto &t : p) {
          auto q = std::find_if(t.m.begin(), t.m.end(), [&](auto &z) { return z.first == (int)a->id; });
          if (q == t.m.end()) { B.push_back(Term{-t.c, t.m}); continue; }
          if (q->second != 1) { lin = false; break; }
          Term u = t; u.m.erase(u.m.begin() + (q - t.m.begin())); A.push_back(u);
        }
        if (!lin || A.empty()) continue;
        if (A.size() < 2 || A.size() > 6 || B.size() > 12) continue;
        Poly nA = norm(A), nB = norm(B), quo;
        bool mul = nB.size() == nA.size(); double kk = mul ? nB[0].c / nA[0].c : 0;
        for (size_t z = 0; mul && z < nA.size(); ++z) if (nA[z].m != nB[z].m || std::fabs(nB[z].c - kk * nA[z].c) > 1e-10 * std::fabs(nB[z].c)) mul = false;
        if (mul) quo = {Term{kk, {}}}; else if (!nB.empty() && !exactDiv(nB, nA, quo)) continue;
        N an = mkPoly(nA, TF, 32); Iv av = eval(an, &x);
        if (av.nan || !(av.nz || av.lo > 0 || av.hi < 0)) continue;
        WithCtx wc(&x); v = quo.empty() ? mkF(0) : rebuild(mkPoly(quo, TF, 32), &x);
      }
      // no occurrence of a inside v
      std::function<bool(N, int)> occurs = [&](N n, int d) -> bool {
        if (n == a) return true;
        if (d > 30) return true;
        if (n->k == KPoly) { for (auto &t : n->terms) for (auto &q : t.m) if (occurs(P.nodes[q.first], d + 1)) return true; return false; }
        for (N y : n->a) if (occurs(y, d + 1)) return true;
        return false;
      };
      if (occurs(v, 0)) continue;
      x.subst[a->id] = v; x.rmemo.clear(); x.memo.clear(); x.cmemo.clear(); x.dmemo.clear(); substituted = true;
      x.zero.erase(std::remove_if(x.zero.begin(), x.zero.end(), [&](auto &z) { Term l{1, z.first}; if (monoHas(l, a->id)) return true; for (auto &t : z.second) if (monoHas(t, a->id)) return true; return false; }), x.zero.end());
      // carry the stored sign facts over to the substituted form
      if (rec < 2) {
        auto facts = x.sign;
        for (auto &f : facts) {
          if ((int)f.first == (int)s->id) continue;
          N o = P.nodes[f.first]; N r = rebuild(o, &x);
          if (r == o) continue;
          N c; { WithCtx wc(&x); c = mkSign(r, f.second); }
          if (isFalse(c)) { x.infeasible = true; return; }
          if (c->k == KSign) addFact(x, c, true, rec + 2);
          if (x.infeasible) return;
        }
      }
      break;
    }
  }
  if (m == 2 && !substituted && p.size() <= 4) { // a monomial that may be replaced by lower ones
    bool ok = true; const Term *lead = nullptr; int ld = 0;
    for (auto &t : p) { int d = 0; for (auto &q : t.m) { if (q.second < 0 || P.nodes[q.first]->k != KSym || x.subst.count(q.first)) ok = false; d += q.second; } if (d > ld) { ld = d; lead = &t; } }
    if (ok && lead && ld > 1) { for (auto &t : p) if (&t != lead) { int d = 0; for (auto &q : t.m) d += q.second; if (d == ld && !(t.m < lead->m)) lead = &t; }
      Poly r; for (auto &t : p) if (&t != lead) r.push_back(Term{-t.c / lead->c, t.m});
      x.zero.push_back({lead->m, norm(r)}); x.rmemo.clear(); x.memo.clear(); x.cmemo.clear(); x.dmemo.clear(); }
  }
}
static void addFact(Ctx &x, N cond, bool truth, int rec) {
  if (x.infeasible) return;
  if (isC(cond)) { if ((cond->i != 0) != truth) x.infeasible = true; return; }
  x.bools[cond->id] = truth;
  if (cond->k == KSign) { signFact(x, cond->a[0], truth ? (int)cond->i : (15 & ~(int)cond->i), rec); return; }
  if (cond->k == KIte) {
    N t = cond->a[1], e = cond->a[2];
    if (isC(t) && (t->i != 0) != truth) { addFact(x, cond->a[0], false, rec); addFact(x, e, truth, rec); }
    else if (isC(e) && (e->i != 0) != truth) { addFact(x, cond->a[0], true, rec); addFact(x, t, truth, rec); }
    else {
      int d = decide(cond->a[0], &x, 1);
      if (d == 1) addFact(x, t, truth, rec); else if (d == 0) addFact(x, e, truth, rec);
      else {
        int dt = isC(t) ? (int)(t->i != 0) : decide(t, &x, 1), de = isC(e) ? (int)(e->i != 0) : decide(e, &x, 1);
        if (dt != 2 && (dt != 0) != truth) { addFact(x, cond->a[0], false, rec); addFact(x, e, truth, rec); }
        else if (de != 2 && (de != 0) != truth) { addFact(x, cond->a[0], true, rec); addFact(x, t, truth, rec); }
      }
    }
  }
}
const Ctx *withLit(const Ctx *c, N cond, bool truth) {
  if (isC(cond) && (cond->i != 0) == truth) return c;
  auto key = std::make_pair((int)cond->id, truth);
  auto it = c->kids.find(key);
  if (it != c->kids.end()) return it->second;
  Ctx *x = new Ctx();
  x->parent = c; x->depth = c->depth + 1; x->ref = c->ref; x->sign = c->sign; x->bools = c->bools; x->subst = c->subst; x->zero = c->zero;
  x->infeasible = c->infeasible; x->lit = cond; x->truth = truth;
  ++work; if (++workTotal == 100000) workLimit = 100; else if (workTotal == 200000) workLimit = 30;
  { Cheap ch; addFact(*x, cond, truth, 0);
    // unit propagation: an earlier disjunction may be settled by the new fact
    int pend = 0;
    for (const Ctx *q = c; q && q->lit && pend < 6 && !x->infeasible; q = q->parent) if (q->lit->k == KIte) { ++pend; x->memo.clear(); x->cmemo.clear(); x->dmemo.clear(); x->rmemo.clear(); addFact(*x, q->lit, q->truth, 0); }
  }
  // anything cached while the facts were still being added is dropped
  x->memo.clear(); x->cmemo.clear(); x->dmemo.clear(); x->rmemo.clear(); x->kids.clear();
  c->kids[key] = x;
  return x;
}

// ------------------------------------------------------------------ rebuilding under a context
static N reduceZero(N n, const Ctx *c) { // replaces the multiples of leading monomials of vanishing polynomials
  if (n->k != KPoly) return n;
  Poly p = n->terms; bool ch = false;
  for (int g = 0; g < 40; ++g) {
    bool hit = false;
    for (auto &z : c->zero) {
      for (size_t i = 0; i < p.size() && !hit; ++i) {
        std::vector<std::pair<int,int>> m = p[i].m; bool div = true;
        for (auto &q : z.first) { auto it = std::find_if(m.begin(), m.end(), [&](auto &y) { return y.first == q.first; }); if (it == m.end() || it->second < q.second) { div = false; break; } it->second -= q.second; if (!it->second) m.erase(it); }
        if (!div) continue;
        Poly q = pmul({Term{p[i].c, m}}, z.second); p.erase(p.begin() + i); p = padd(p, q, 1); hit = ch = true;
      }
      if (hit) break;
    }
    if (!hit) break;
  }
  return ch ? mkPoly(p, n->ty, n->w) : n;
}
N rebuild(N n, const Ctx *c) {
  if (n->k == KConst || n->k == KPtr || n->k == KUndef) return n;
  if (n->k == KSym) {
    auto it = c->subst.find(n->id);
    return it == c->subst.end() ? n : it->second;
  }
  if (!n->split && c->subst.empty()) return n;
  auto mi = c->rmemo.find(n->id);
  if (mi != c->rmemo.end()) return mi->second;
  WithCtx wc(c);
  N r = n;
  switch (n->k) {
  case KPoly: {
    bool ch = false;
    std::map<int, N> m;
    for (auto &t : n->terms) for (auto &q : t.m) if (!m.count(q.first)) { N a = P.nodes[q.first], b = rebuild(a, c); m[q.first] = b; if (a != b) ch = true; }
    if (!ch) break;
    // sum of products of rebuilt atoms
    std::vector<Term> keep; Poly acc; bool bad = false; N badNode = nullptr;
    for (auto &t : n->terms) {
      bool tc = false;
      for (auto &q : t.m) if (m[q.first] != P.nodes[q.first]) tc = true;
      if (!tc) { keep.push_back(t); continue; }
      N v = mkF(t.c);
      for (auto &q : t.m) {
        N a = m[q.first];
        if (nonfinite(a)) { bad = true; badNode = a; break; }
        if (a == P.nodes[q.first] || q.second > 0) {
          if (a == P.nodes[q.first]) v = nmul(v, mkPoly({Term{1, {q}}}, TF, 32), TF, 32);
          else for (int k = 0; k < q.second; ++k) v = nmul(v, a, TF, 32);
        } else for (int k = 0; k < -q.second; ++k) v = ndiv(v, a);
      }
      if (bad) break;
      acc = padd(acc, polyOf(v), 1);
    }
    if (bad) { r = badNode; break; }
    r = mkPoly(padd(norm(keep), acc, 1), n->ty, n->w);
    break;
  }
  case KFn: {
    if (n->op == OpUnknown) break;
    std::vector<N> a; for (N x : n->a) a.push_back(rebuild(x, c));
    if (a == n->a && !piecewise(n->op)) break;
    if (n->op == OpDen) r = ndiv(mkF(1), a[0]);
    else if (n->op == OpMul) r = nmul(a[0], a[1], n->ty, n->w);
    else if (n->op == OpWrapS) r = asSigned(a[0], n->w);
    else if (n->op == OpWrapU) r = asUnsigned(a[0], n->w);
    else r = mkFn(n->op, a, n->ty, n->w);
    break;
  }
  case KIte: {
    N cc = rebuild(n->a[0], c);
    int d = decide(n->a[0], c, 2);
    if (d == 2) d = decide(cc, c, 2);
    if (d == 1) { r = rebuild(n->a[1], c); break; }
    if (d == 0) { r = rebuild(n->a[2], c); break; }
    N t = rebuild(n->a[1], c), e = rebuild(n->a[2], c);
    r = mkIte(cc, t, e);
    break;
  }
  case KSign: {
    N s = rebuild(n->a[0], c);
    r = s == n->a[0] ? n : mkSign(s, (int)n->i);
    break;
  }
  case KTuple: case KConcat: {
    std::vector<N> a; for (N x : n->a) a.push_back(rebuild(x, c));
    r = mkTuple(a, n->k); break;
  }
  default: break;
  }
  c->rmemo[n->id] = r;
  return r;
}

// ------------------------------------------------------------------ functions
static double fnNum(Op op, const double *x, int n, bool *amb) {
  auto nearInt = [&](double v) { double d = std::fabs(v - std::round(v)); if (d > 0 && d < 5e-7 * std::max(1.0, std::fabs(v)) && amb) *amb = true; };
  switch (op) {
  case OpPow: return std::pow(x[0], x[1]);
  case OpSqrt: return std::sqrt(x[0]);
  case OpSin: return std::sin(x[0]);
  case OpCos: return std::cos(x[0]);
  case OpTan: return std::tan(x[0]);
  case OpAtan2: return std::atan2(x[0], x[1]);
  case OpAcos: return std::acos(x[0]);
  case OpAsin: return std::asin(x[0]);
  case OpAtan: return std::atan(x[0]);
  case OpExp: return std::exp(x[0]);
  case OpLog: return std::log(x[0]);
  case OpLog10: return std::log10(x[0]);
  case OpFloor: nearInt(x[0]); return std::floor(x[0]);
  case OpCeil: nearInt(x[0]); return std::ceil(x[0]);
  case OpRound: nearInt(x[0] + 0.5); return std::round(x[0]);
  case OpTrunc: nearInt(x[0]); return std::trunc(x[0]);
  case OpFmod: if (x[1] != 0) nearInt(x[0] / x[1]); return std::fmod(x[0], x[1]);
  case OpDen: return 1 / x[0];
  case OpDiv0: return std::isnan(x[0]) || x[0] == 0 ? NAN : x[0] > 0 ? INF : -INF;
  case OpMul: return x[0] * x[1];
  case OpAnd: return (double)((int64_t)x[0] & (int64_t)x[1]);
  case OpOr: return (double)((int64_t)x[0] | (int64_t)x[1]);
  case OpXor: return (double)((int64_t)x[0] ^ (int64_t)x[1]);
  case OpSdiv: return x[1] == 0 ? 0 : std::trunc(x[0] / x[1]);
  case OpSrem: case OpUrem: return x[1] == 0 ? 0 : std::fmod(x[0], x[1]);
  default: if (amb) *amb = true; return 0;
  }
}
N mkFn(Op op, const std::vector<N> &a0, Ty ty, int w) {
  std::vector<N> a = a0;
  bool allc = true;
  for (N x : a) if (!isC(x)) allc = false;
  if (allc) {
    double v[3]; for (size_t i = 0; i < a.size(); ++i) v[i] = cval(a[i]);
    double r = fnNum(op, v, a.size(), nullptr);
    return ty == TF ? mkF(r) : mkI(w, (int64_t)r);
  }
  for (N x : a) if (nonfinite(x)) return mkUnknown(ty, w, "nonfinite");
  switch (op) {
  case OpPow: {
    if (!isC(a[1])) { a[0] = snap(a[0]); a[1] = snap(a[1]); break; }
    double g = cval(a[1]);
    double ri = std::round(g);
    if (std::fabs(g - ri) < 1e-6 && std::fabs(ri) <= 6) {
      int e = (int)ri;
      if (e == 0) return mkF(1);
      N r = a[0]; for (int i = 1; i < std::abs(e); ++i) r = nmul(r, a[0], TF, 32);
      return e > 0 ? r : ndiv(mkF(1), r);
    }
    if (std::fabs(g - 0.5) < 1e-7) return mkFn(OpSqrt, {a[0]});
    Poly p = polyOf(a[0]);
    // common positive scale out
    double k = std::fabs(leadCoef(p));
    if (std::fabs(k - 1) > 1e-12) return nmul(mkF(std::pow(k, g)), mkFn(OpPow, {scaled(p, 1 / k, TF, 32), a[1]}), TF, 32);
    if (a[0]->k == KFn && a[0]->op == OpPow && isC(a[0]->a[1]) && eval(a[0]->a[0], cur).lo >= 0) return mkFn(OpPow, {a[0]->a[0], mkF(cval(a[0]->a[1]) * g)});
    if (a[0]->k == KFn && a[0]->op == OpSqrt && eval(a[0]->a[0], cur).lo >= 0) return mkFn(OpPow, {a[0]->a[0], mkF(0.5 * g)});
    a[0] = snap(a[0]); a[1] = snap(a[1]);
    break;
  }
  case OpSqrt: {
    Poly p = polyOf(a[0]);
    double k = std::fabs(leadCoef(p));
    if (std::fabs(k - 1) > 1e-12) return nmul(mkF(std::sqrt(k)), mkFn(OpSqrt, {scaled(p, 1 / k, TF, 32)}), TF, 32);
    if (p.size() == 1) { // even monomials
      Term out{1, {}}, in{p[0].c, {}};
      for (auto &q : p[0].m) { if (q.second % 2 == 0) out.m.push_back({q.first, q.second / 2}); else in.m.push_back(q); }
      if (!out.m.empty() && in.m.empty() && in.c > 0) return mkAbs(mkPoly({out}, TF, 32));
    }
    if (p.size() >= 2) { // perfect square of a linear form
      std::vector<Term> root; bool ok = true;
      for (auto &t : p) if (t.m.size() == 1 && t.m[0].second == 2 && t.c > 0) root.push_back(Term{std::sqrt(t.c), {{t.m[0].first, 1}}});
        else if (t.m.empty() && t.c > 0) root.push_back(Term{std::sqrt(t.c), {}});
      if (root.size() >= 2 && root.size() <= 4 && p.size() == root.size() * (root.size() + 1) / 2) {
        // fix signs relative to the first non constant root term
        size_t ref = 0;
        for (size_t i = 0; i < root.size() && ok; ++i) if (i != ref) {
          auto mm = mmul(root[ref].m, root[i].m);
          double cf = 0; for (auto &t : p) if (t.m == mm) cf = t.c;
          if (cf < 0) root[i].c = -root[i].c;
        }
        Poly rp = norm(root); Poly sq = pmul(rp, rp); Poly d = padd(sq, p, -1);
        double mx = 0; for (auto &t : d) mx = std::max(mx, std::fabs(t.c));
        if (mx < 1e-9) return mkAbs(mkPoly(rp, TF, 32));
      }
    }
    if (a[0]->k == KFn && a[0]->op == OpPow && isC(a[0]->a[1])) return mkFn(OpPow, {a[0]->a[0], mkF(cval(a[0]->a[1]) / 2)});
    a[0] = snap(a[0]);
    break;
  }
  case OpSin: case OpCos: {
    Poly p = polyOf(a[0]);
    N at = nullptr; double s = 0, k = 0; bool ok = true;
    for (auto &t : p) {
      if (t.m.empty()) { k = t.c; continue; }
      if (t.m.size() == 1 && t.m[0].second == 1) {
        N x = P.nodes[t.m[0].first];
        if (!at && x->k == KFn && x->op == OpAtan2 && std::fabs(std::fabs(t.c) - 1) < 1e-5) { at = x; s = t.c > 0 ? 1 : -1; continue; }
      }
      ok = false;
    }
    if (ok && at) {
      N y = at->a[0], x = at->a[1];
      N h2 = nadd(nmul(x, x, TF, 32), nmul(y, y, TF, 32), TF, 32);
      N h = mkFn(OpSqrt, {h2});
      N z = mkSign(h2, 2);
      N cs = mkIte(z, mkF(1), ndiv(x, h)), sn = mkIte(z, mkF(0), ndiv(y, h));
      double ck = std::cos(k), sk = std::sin(k);
      if (std::fabs(ck) < 1e-6) ck = 0;
      if (std::fabs(sk) < 1e-6) sk = 0;
      if (std::fabs(std::fabs(ck) - 1) < 1e-9) ck = ck > 0 ? 1 : -1;
      if (std::fabs(std::fabs(sk) - 1) < 1e-9) sk = sk > 0 ? 1 : -1;
      sn = nmul(sn, mkF(s), TF, 32);
      if (op == OpCos) return nsub(nmul(cs, mkF(ck), TF, 32), nmul(sn, mkF(sk), TF, 32), TF, 32);
      return nadd(nmul(sn, mkF(ck), TF, 32), nmul(cs, mkF(sk), TF, 32), TF, 32);
    }
    // reduce the constant phase modulo 2*pi, fold quarter turns, use parity
    if (!p.empty()) {
      double kk = 0; for (auto &t : p) if (t.m.empty()) kk = t.c;
      double q = std::round(kk / (M_PI / 2));
      Poly r; bool quarter = std::fabs(kk - q * M_PI / 2) < 1e-6 && q != 0;
      if (quarter) {
        for (auto &t : p) if (!t.m.empty()) r.push_back(t);
        N base = mkPoly(r, TF, 32);
        int qi = ((int)std::fmod(q, 4) + 4) % 4;
        N res;
        bool sin = op == OpSin;
        // sin(x+q*90), cos(x+q*90)
        switch (qi) {
        case 0: res = mkFn(op, {base}); break;
        case 1: res = sin ? mkFn(OpCos, {base}) : nneg(mkFn(OpSin, {base})); break;
        case 2: res = nneg(mkFn(op, {base})); break;
        default: res = sin ? nneg(mkFn(OpCos, {base})) : mkFn(OpSin, {base}); break;
        }
        return res;
      }
      if (std::fabs(kk) > M_PI + 1e-6) {
        double k2 = kk - 2 * M_PI * std::round(kk / (2 * M_PI));
        r = p; for (auto &t : r) if (t.m.empty()) t.c = k2;
        return mkFn(op, {mkPoly(r, TF, 32)});
      }
      if (leadCoef(p) < 0) {
        N f = mkFn(op, {nneg(a[0])});
        return op == OpCos ? f : nneg(f);
      }
    }
    a[0] = snap(a[0]);
    break;
  }
  case OpAtan2: {
    // common positive scale
    Poly p = polyOf(a[0]), q = polyOf(a[1]);
    double k = !p.empty() ? std::fabs(leadCoef(p)) : 1;
    if (!p.empty() && std::fabs(k - 1) > 1e-12) return mkFn(OpAtan2, {scaled(p, 1 / k, TF, 32), scaled(q, 1 / k, TF, 32)});
    a[0] = snap(a[0]); a[1] = snap(a[1]);
    break;
  }
  case OpFloor: case OpCeil: case OpRound: case OpTrunc: {
    if (a[0]->ty == TI && a[0]->k != KPoly) return a[0];
    Iv v = eval(a[0], cur);
    if (!v.nan && !v.inf) {
      double x[1] = {v.lo}, y[1] = {v.hi};
      double l = fnNum(op, x, 1, nullptr), h = fnNum(op, y, 1, nullptr);
      if (op == OpFloor && h == l + 1 && v.hi == h && decide(mkSign(nsub(a[0], mkF(h), TF, 32), 1), cur, 1) == 1) h = l;
      if (l == h) return ty == TF ? mkF(l) : mkI(w, (int64_t)l);
      if (op == OpTrunc && v.lo >= 0) return mkFn(OpFloor, a, ty, w);
    }
    // integer valued polynomial
    bool integral = true;
    for (auto &t : polyOf(a[0])) { if (t.c != std::floor(t.c)) integral = false; for (auto &q : t.m) if (P.nodes[q.first]->ty != TI || q.second < 0) integral = false; }
    if (integral) return a[0];
    a[0] = snap(a[0]);
    break;
  }
  case OpFmod: {
    if (isC(a[1]) && cval(a[1]) != 0) {
      double m = std::fabs(cval(a[1]));
      Iv v = eval(a[0], cur);
      if (!v.nan && !v.inf && std::isfinite(v.lo) && std::isfinite(v.hi)) {
        if (v.lo > -m && v.hi < m) return a[0];
        if (v.hi <= 0) return nneg(mkFn(OpFmod, {nneg(a[0]), mkF(m)}));
        double q = std::trunc(v.lo / m), q2 = std::trunc(v.hi / m);
        if (q2 > q && q2 - q < 4 && !cheap()) { // a period known from the facts themselves
          auto below = [&](double k) { return v.hi < k * m || decide(mkSign(nsub(a[0], mkF(k * m), TF, 32), 1), cur, 1) == 1; };
          auto above = [&](double k) { return v.lo > k * m || decide(mkSign(nsub(a[0], mkF(k * m), TF, 32), k < 0 ? 4 : 6), cur, 1) == 1; };
          if (v.lo > -m && below(1)) return a[0];
          if (v.hi < m && above(-1)) return a[0];
          if (v.lo >= 0) for (double k = q; k <= q2; ++k) if (above(k) && below(k + 1)) return nsub(a[0], mkF(k * m), TF, 32);
        }
        if (q == q2 && ((v.lo >= 0) || (v.hi <= 0))) return nsub(a[0], mkF(q * m), TF, 32);
      }
    }
    a[0] = snap(a[0]); a[1] = snap(a[1]);
    break;
  }
  default:
    for (N &x : a) x = snap(x);
  }
  return fnRaw(op, a, ty, w);
}

// ------------------------------------------------------------------ printing
static std::string num(double v) { char b[64]; snprintf(b, 64, getenv("CMAI_DBG") ? "%.17g" : "%.6g", v); return b; }
std::string show(N n, int d) {
  if (d < 0) return "..";
  switch (n->k) {
  case KConst: return n->ty == TI && n->w == 1 ? (n->i ? "true" : "false") : num(cval(n));
  case KSym: return n->name;
  case KPtr: return "&obj" + std::to_string(n->obj) + "+" + std::to_string(n->i);
  case KUndef: return "uninit";
  case KPoly: {
    std::string s; int cnt = 0;
    for (auto &t : n->terms) {
      if (++cnt > 12) { s += "+.."; break; }
      if (!s.empty() && t.c >= 0) s += "+";
      if (t.m.empty() || t.c != 1) s += (t.c == -1 && !t.m.empty()) ? "-" : num(t.c);
      bool f = t.m.empty() || (t.c != 1 && t.c != -1);
      for (auto &q : t.m) { if (f) s += "*"; f = true; s += show(P.nodes[q.first], d - 1); if (q.second != 1) s += "^" + std::to_string(q.second); }
    }
    return "(" + s + ")";
  }
  case KFn: {
    if (n->op == OpUnknown) return "?" + n->name;
    std::string s = std::string(opName[n->op]) + "(";
    for (size_t i = 0; i < n->a.size(); ++i) s += (i ? "," : "") + show(n->a[i], d - 1);
    return s + ")";
  }
  case KIte: return "[" + show(n->a[0], d - 1) + "?" + show(n->a[1], d - 1) + ":" + show(n->a[2], d - 1) + "]";
  case KSign: {
    const char *nm[] = {"none","<0","==0","<=0",">0","!=0",">=0","ord"};
    std::string s = show(n->a[0], d - 1) + nm[n->i & 7];
    if (n->i & 8) s += "|nan";
    return s;
  }
  default: { std::string s = "{"; for (N x : n->a) s += show(x, d - 1) + ","; return s + "}"; }
  }
}
std::string showLits(const Ctx *c) {
  std::vector<std::string> v;
  for (; c && c->lit; c = c->parent) v.push_back((c->truth ? "" : "!") + show(c->lit, 3));
  std::string s; std::reverse(v.begin(), v.end());
  for (auto &x : v) s += (s.empty() ? "" : " && ") + x;
  return s;
}

// ------------------------------------------------------------------ random interpretation
struct NumEval {
  std::vector<double> val; std::vector<int> stamp; std::vector<char> ambv; int epoch = 0; bool amb = false, bad = false;
  Val *v = nullptr;
  static bool exact(N e) { // sums of symbols, constants and plain products of them
    if (e->k == KSym || e->k == KConst) return true;
    if (e->k != KPoly) return false;
    for (auto &t : e->terms) for (auto &q : t.m) if (q.second < 0 || P.nodes[q.first]->k != KSym) return false;
    return true;
  }
  void start(Val &x) { v = &x; ++epoch; amb = bad = false; if (val.size() < P.nodes.size()) { val.resize(P.nodes.size() + 1024); stamp.resize(P.nodes.size() + 1024, 0); ambv.resize(P.nodes.size() + 1024, 0); } }
  double operator()(N n) {
    if (n->k == KConst) return cval(n);
    if (stamp[n->id] == epoch) { amb |= ambv[n->id]; return val[n->id]; }
    bool before = amb; amb = false;
    double r = 0;
    switch (n->k) {
    case KSym: { auto it = v->sym.find(n->id); if (it == v->sym.end()) { bad = true; r = n->base.lo; } else r = it->second; break; }
    case KPoly: {
      for (auto &t : n->terms) { double m = t.c; for (auto &q : t.m) { double x = (*this)(P.nodes[q.first]); if (q.second == 1) m *= x; else m *= std::pow(x, q.second); } r += m; }
      break;
    }
    case KFn: { double x[3] = {0, 0, 0}; for (size_t i = 0; i < n->a.size() && i < 3; ++i) x[i] = (*this)(n->a[i]);
      if (n->op == OpUnknown) bad = true;
      if (n->op == OpWrapS) r = (double)sext((int64_t)x[0], n->w); else if (n->op == OpWrapU) r = (double)zext((int64_t)x[0], n->w);
      else r = fnNum(n->op, x, n->a.size(), &amb);
      if ((n->op == OpSqrt || n->op == OpPow || n->op == OpAcos || n->op == OpAsin || n->op == OpLog) && n->a[0]->k == KPoly) { // cancelled argument: its sign is noise
        double lim = n->op == OpAcos || n->op == OpAsin ? 1 : 0, d = std::fabs(x[0]) - lim, sc = 0; if (lim == 0) d = -x[0];
        if (d >= 0) { for (auto &t : n->a[0]->terms) { double m = t.c; for (auto &q : t.m) m *= std::pow((*this)(P.nodes[q.first]), q.second); sc += std::fabs(m); } if (d < 2e-7 * sc && !(d == 0 && (lim || exact(n->a[0])))) amb = true; } }
      break; }
    case KIte: {
      bool t = (*this)(n->a[0]) != 0;
      if (!amb) { r = (*this)(n->a[t ? 1 : 2]); break; }
      // rounding may take the other branch, which matters only where the branches differ
      amb = false; double x = (*this)(n->a[1]), y = (*this)(n->a[2]);
      r = t ? x : y; if (!(std::fabs(x - y) <= 1e-6 * std::max(1.0, std::fabs(r)))) amb = true;
      break;
    }
    case KSign: {
      N e = n->a[0]; double x = (*this)(e); double sc = std::fabs(x);
      if (e->k == KPoly) { sc = 0; for (auto &t : e->terms) { double m = t.c; for (auto &q : t.m) m *= std::pow((*this)(P.nodes[q.first]), q.second); sc += std::fabs(m); } }
      int b = std::isnan(x) ? 8 : x < 0 ? 1 : x > 0 ? 4 : 2;
      if (x != 0 && std::isfinite(x) && (std::fabs(x) < 2e-7 * sc || std::fabs(x) < 1e-13)) amb = true;
      if (x == 0 && sc > 0 && !exact(e)) amb = true; // cancelled, but the terms are themselves rounded
      r = (n->i & b) ? 1 : 0;
      break;
    }
    case KUndef: bad = true; break;
    default: bad = true;
    }
    val[n->id] = r; stamp[n->id] = epoch; ambv[n->id] = amb; amb |= before;
    return r;
  }
};
static NumEval NE;
static void collect(N n, std::unordered_set<int> &seen, std::vector<N> &syms, std::vector<N> &signs) {
  if (!seen.insert(n->id).second) return;
  if (n->k == KSym) { syms.push_back(n); return; }
  if (n->k == KSign) signs.push_back(n);
  if (n->k == KPoly) for (auto &t : n->terms) for (auto &q : t.m) collect(P.nodes[q.first], seen, syms, signs);
  if (n->k == KFn && n->op == OpFmod && 0) {}
  for (N x : n->a) collect(x, seen, syms, signs);
}
struct Sampler {
  std::vector<N> syms, signs; std::vector<std::pair<N,bool>> lits; std::vector<N> roots;
  std::vector<std::vector<N>> signSyms;
  std::mt19937 rng{12345};
  std::vector<double> pool;
  Sampler(const Ctx *c, N pc, std::vector<N> extra) {
    std::unordered_set<int> seen;
    for (const Ctx *q = c; q && q->lit; q = q->parent) { lits.push_back({q->lit, q->truth}); collect(q->lit, seen, syms, signs); }
    if (pc && !isC(pc)) { lits.push_back({pc, true}); collect(pc, seen, syms, signs); }
    std::reverse(lits.begin(), lits.end());
    for (N x : extra) collect(x, seen, syms, signs);
    for (N s : signs) { std::unordered_set<int> se; std::vector<N> sy, sg; collect(s->a[0], se, sy, sg); signSyms.push_back(sy); }
  }
  double u() { return std::uniform_real_distribution<double>(0, 1)(rng); }
  double fit(N s, double x) {
    if (std::isnan(x) || std::isinf(x)) return (s->base.nan && std::isnan(x)) || (s->base.inf && std::isinf(x)) ? x : draw(s);
    if (s->ty == TI) x = std::round(x);
    if (x < s->base.lo) x = s->base.lo;
    if (x > s->base.hi) x = s->base.hi;
    return x;
  }
  double draw(N s) {
    double lo = s->base.lo, hi = s->base.hi;
    int k = rng() % 10;
    if (s->base.nan || s->base.inf) {
      int j = rng() % 16;
      if (j == 0 && s->base.nan) return NAN;
      if (j == 1 && s->base.inf) return INF;
      if (j == 2 && s->base.inf) return -INF;
    }
    if (std::isinf(lo) || std::isinf(hi)) { static const double sp[] = {0, 1, -1, 0.5, 2, -0.25, 100, -100, 255, 256, 359, 360, 361, -1000, 1e6, -1e6, 1e-3}; double x = sp[rng() % 17]; return std::min(std::max(x, lo), hi); }
    double x;
    if (k == 0) x = lo; else if (k == 1) x = hi;
    else if (k < 5) x = lo + (hi - lo) * (double)(1 + rng() % 15) / 16;
    else x = lo + (hi - lo) * std::ldexp(std::floor(u() * 4096), -12);
    return s->ty == TI ? std::round(x) : x;
  }
  bool litsHold(Val &v, int *bad = nullptr) {
    NE.start(v);
    for (size_t i = 0; i < lits.size(); ++i) {
      bool t = NE(lits[i].first) != 0;
      if (NE.bad) return false;
      if (t != lits[i].second) { if (bad) *bad = i; return false; }
    }
    return true;
  }
  void solve(Val &v, N sg, const std::vector<N> &sy) { // move one symbol onto (or next to) the zero of the condition
    if (sy.empty()) return;
    N s = sy[rng() % sy.size()];
    double x0 = v.sym[s->id];
    auto at = [&](double x) { v.sym[s->id] = x; NE.start(v); return NE(sg->a[0]); };
    double a = s->base.lo, b = s->base.hi;
    if (!std::isfinite(a)) a = -1000;
    if (!std::isfinite(b)) b = 1000;
    double fa = at(a), fb = at(b), r = x0;
    if (std::isfinite(fa) && std::isfinite(fb) && fa != fb) {
      double lin = a - fa * (b - a) / (fb - fa);
      double fl = at(lin);
      if (lin >= a && lin <= b && std::fabs(fl) < 1e-9 * (std::fabs(fa) + std::fabs(fb))) r = lin;
      else if ((fa < 0) != (fb < 0)) { for (int i = 0; i < 60; ++i) { double m = (a + b) / 2, fm = at(m); if ((fm < 0) == (fa < 0)) a = m; else b = m; } r = (a + b) / 2; }
      double sn = std::ldexp(std::round(std::ldexp(r, 20)), -20);
      if (std::fabs(sn - r) < 1e-9 * std::max(1.0, std::fabs(r))) r = sn;
    }
    int k = rng() % 3;
    double sp = s->base.hi - s->base.lo; if (!std::isfinite(sp)) sp = 10;
    if (s->ty == TI) { if (k == 1) r += 1; if (k == 2) r -= 1; }
    else { if (k == 1) r += sp * std::ldexp(u(), -(int)(rng() % 12)); if (k == 2) r -= sp * std::ldexp(u(), -(int)(rng() % 12)); }
    v.sym[s->id] = fit(s, r);
  }
  bool sample(Val &v) {
    for (N s : syms) v.sym[s->id] = draw(s);
    int nsol = signs.empty() ? 0 : rng() % 4;
    if (syms.size() > 1 && rng() % 6 == 0) { double x = draw(syms[0]); for (N s : syms) if (rng() % 2) v.sym[s->id] = fit(s, x); }
    for (int i = 0; i < nsol; ++i) { size_t k = rng() % signs.size(); solve(v, signs[k], signSyms[k]); }
    if (lits.empty()) return true;
    for (int tries = 0; tries < 12; ++tries) {
      int bad = -1;
      if (litsHold(v, &bad)) return true;
      if (bad < 0) return false;
      std::unordered_set<int> se; std::vector<N> sy, sg; collect(lits[bad].first, se, sy, sg);
      if (sy.empty()) return false;
      if (!sg.empty() && rng() % 3) { N g = sg[rng() % sg.size()]; std::unordered_set<int> s2; std::vector<N> y2, g2; collect(g->a[0], s2, y2, g2); solve(v, g, y2); }
      else { N s = sy[rng() % sy.size()]; v.sym[s->id] = draw(s); }
    }
    return litsHold(v);
  }
  std::string desc(Val &v) {
    std::string s;
    for (N x : syms) { s += (s.empty() ? "" : ", ") + x->name + "=" + num(v.sym[x->id]); }
    return s.empty() ? "always" : s;
  }
};
static double searchBudget() { return 4000; }
bool findWitness(const Ctx *c, N pc, std::string &d) {
  Sampler S(c, pc, {});
  if (S.lits.empty()) { d = "always"; return true; }
  for (int i = 0; i < searchBudget(); ++i) {
    Val v;
    if (!S.sample(v)) continue;
    NE.start(v); bool ok = true;
    for (auto &l : S.lits) if ((NE(l.first) != 0) != l.second) ok = false;
    if (ok && !NE.bad && !NE.amb) { d = S.desc(v); return true; }
  }
  return false;
}
static bool refuteEq(N a, N b, const Ctx *c, N pc, double tol, std::string &why, int budget = 4000) {
  if (a->unk || b->unk || a->und || b->und) return false;
  Sampler S(c, pc, {a, b});
  for (int i = 0; i < budget; ++i) {
    Val v;
    if (!S.sample(v)) { if (S.syms.empty()) break; continue; }
    NE.start(v); bool ok = true;
    for (auto &l : S.lits) if ((NE(l.first) != 0) != l.second) ok = false;
    if (!ok || NE.bad) continue;
    double x = NE(a), y = NE(b);
    if (NE.bad || NE.amb) continue;
    bool diff;
    if (std::isnan(x) || std::isnan(y)) diff = std::isnan(x) != std::isnan(y);
    else if (std::isinf(x) || std::isinf(y)) diff = x != y;
    else diff = std::fabs(x - y) > tol * std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
    if (diff) { why = "for " + S.desc(v) + ": code gives " + num(x) + ", specification gives " + num(y); return true; }
    if (S.syms.empty()) break;
  }
  return false;
}

// ------------------------------------------------------------------ proofs
static N findSplit(N n, const Ctx *c, std::unordered_set<int> &seen, int depth) {
  if (!n->split || !seen.insert(n->id).second) return nullptr;
  if (n->k == KPoly) { for (auto &t : n->terms) for (auto &q : t.m) if (N r = findSplit(P.nodes[q.first], c, seen, depth + 1)) return r; return nullptr; }
  if (n->k == KIte) {
    // innermost condition first
    if (N r = findSplit(n->a[0], c, seen, depth + 1)) return r;
    if (n->a[0]->k != KIte && decide(n->a[0], c, 0) == 2) return n->a[0];
    if (n->a[0]->k == KIte) { if (decide(n->a[0]->a[0], c, 0) == 2) return n->a[0]->a[0]; }
    if (N r = findSplit(n->a[1], c, seen, depth + 1)) return r;
    return findSplit(n->a[2], c, seen, depth + 1);
  }
  for (N x : n->a) if (N r = findSplit(x, c, seen, depth + 1)) return r;
  if (n->k == KFn && piecewise(n->op)) {
    Iv v = eval(n->a[0], c);
    double m = 1; if (n->op == OpFmod) { if (!isC(n->a[1])) return nullptr; m = std::fabs(cval(n->a[1])); }
    if (v.nan || v.inf || !std::isfinite(v.lo) || !std::isfinite(v.hi) || (v.hi - v.lo) / m > 20) return nullptr;
    double k;
    if (n->op == OpRound) k = std::floor((v.lo + v.hi) / 2) + 0.5;
    else { k = std::round((v.lo + v.hi) / 2 / m) * m; if (n->op == OpFmod && v.lo < 0 && v.hi > 0) k = 0; }
    if (k <= v.lo || k > v.hi) { k = (n->op == OpRound) ? std::ceil(v.lo - 0.5) + 0.5 : std::ceil(v.lo / m) * m; if (k <= v.lo) k += m; }
    if (k > v.hi) return nullptr;
    WithCtx wc(c);
    N g = mkSign(nsub(n->a[0], mkF(k), TF, 32), 1);
    if (isC(g) || decide(g, c, 0) != 2) return nullptr;
    return g;
  }
  return nullptr;
}

static bool polyTiny(const Poly &p, const Ctx *c, double tol) {
  double s = 0;
  for (auto &t : p) {
    Iv m{t.c, t.c}; for (auto &q : t.m) m = ivMul(m, ivPowI(eval(P.nodes[q.first], c), q.second));
    s += std::max(std::fabs(m.lo), std::fabs(m.hi));
    if (!(s <= tol)) return false;
  }
  return true;
}
static double maxCoef(const Poly &p) { double m = 0; for (auto &t : p) m = std::max(m, std::fabs(t.c)); return m; }
static bool leafZero(N d, const Ctx *c, double tol, int depth) {
  if (isC(d)) return std::fabs(cval(d)) <= tol;
  if (!numericNode(d)) return false;
  if (depth == 0 && !c->zero.empty()) { WithCtx wc(c); N z = reduceZero(d, c); if (z != d && leafZero(z, c, tol, 1)) return true; }
  Iv v = eval(d, c);
  if (!v.nan && std::fabs(v.lo) <= tol && std::fabs(v.hi) <= tol) return true;
  Poly p = polyOf(d);
  if (!v.nan && polyTiny(p, c, tol)) return true;
  if (depth < 4) for (auto &t : p) if (t.m.size() == 1 && t.m[0].second == 1) { // rounding moves a value by at most a half
    N f = P.nodes[t.m[0].first];
    if (f->k != KFn || (f->op != OpRound && f->op != OpFloor && f->op != OpTrunc)) continue;
    double k = t.c, slack = std::fabs(k) * (f->op == OpRound ? 0.5 : 1);
    if (slack > tol) continue;
    WithCtx wc(c);
    N e = mkPoly(padd(padd(p, polyOf(f), -k), polyOf(f->a[0]), k), TF, 32);
    if (leafZero(e, c, tol - slack, depth + 1)) return true;
  }
  if (depth == 0 && p.size() <= 40) { WithCtx wc(c); N z = mkSign(d, 2); if (isTrue(z) || decide(z, c, 3) == 1) return true; }
  double scale = maxCoef(p);
  // clear denominators
  for (int g = 0; g < 12; ++g) {
    int den = -1, ex = 0; bool isDen = false;
    for (auto &t : p) for (auto &q : t.m) {
      N x = P.nodes[q.first];
      if (x->k == KFn && x->op == OpDen && q.second > 0) { if (den < 0 || (isDen && q.first == den)) { den = q.first; isDen = true; ex = std::max(ex, q.second); } }
      else if (q.second < 0) { if (den < 0 || (!isDen && q.first == den)) { den = q.first; isDen = false; ex = std::max(ex, -q.second); } }
    }
    if (den < 0) break;
    Poly D = isDen ? polyOf(P.nodes[den]->a[0]) : Poly{Term{1, {{den, 1}}}};
    Poly r;
    for (auto &t : p) {
      Term u = t; int e = 0;
      for (size_t k = 0; k < u.m.size(); ++k) if (u.m[k].first == den) { e = u.m[k].second; u.m.erase(u.m.begin() + k); break; }
      int need = isDen ? ex - e : ex + e;
      Poly q = {u}; for (int i = 0; i < need; ++i) q = pmul(q, D);
      if (q.size() > 3000) return false;
      r = padd(r, q, 1);
    }
    scale = std::max(scale, maxCoef(r));
    N nn; { WithCtx wc(c); nn = mkPoly(r, TF, 32); }
    p = polyOf(nn);
    if (p.size() > 3000) return false;
  }
  if (maxCoef(p) <= 3e-7 * scale || maxCoef(p) <= 1e-9) return true;
  if (depth > 3) return false;
  // unify function atoms with equal arguments
  std::vector<N> fns;
  for (auto &t : p) for (auto &q : t.m) { N x = P.nodes[q.first]; if (x->k == KFn && x->op != OpUnknown && std::find(fns.begin(), fns.end(), x) == fns.end()) fns.push_back(x); }
  for (size_t i = 0; i < fns.size(); ++i) for (size_t j = i + 1; j < fns.size(); ++j) {
    N x = fns[i], y = fns[j];
    if (x->op != y->op || x->a.size() != y->a.size()) continue;
    bool eq = true;
    for (size_t k = 0; k < x->a.size() && eq; ++k) { N df; { WithCtx wc(c); df = nsub(x->a[k], y->a[k], TF, 32); } eq = leafZero(df, c, 1e-7, depth + 1); }
    if (!eq) continue;
    Poly r;
    for (auto &t : p) { Term u{t.c, {}}; std::vector<std::pair<int,int>> m; int e = 0; for (auto &q : t.m) { if (q.first == (int)y->id) e = q.second; else m.push_back(q); } u.m = m; if (e) u.m = mmul(u.m, {{(int)x->id, e}}); r = padd(r, {u}, 1); }
    N nn; { WithCtx wc(c); nn = mkPoly(r, TF, 32); }
    if (leafZero(nn, c, tol, depth + 1)) return true;
    return false;
  }
  return false;
}
// leaves: cases of the trace partition whose proof failed; where a counter valuation is looked for first
struct Budget { long cases = 0, limit = 6000; std::vector<const Ctx *> leaves; bool fail(const Ctx *c) { leaves.push_back(c); return false; } bool full() const { return leaves.size() >= 8 || cases > limit; } };
static const int leafSearch = 300;
static bool eqRec(N d, const Ctx *c, double tol, Budget &b, int depth) {
  if (++b.cases > b.limit || depth > 40) return false;
  resetWork();
  N r = rebuild(d, c);
  if (isC(r) && std::fabs(cval(r)) <= tol) return true;
  std::unordered_set<int> seen;
  N g = findSplit(r, c, seen, 0);
  if (!g) {
    WithCtx wc(c);
    // NaN-gated division by zero values compare equal structurally only
    return leafZero(r, c, tol, 0) || b.fail(c);
  }
  { Iv v = eval(r, c); if (!v.nan && std::fabs(v.lo) <= tol && std::fabs(v.hi) <= tol) return true; }
  const Ctx *ct = withLit(c, g, true), *ce = withLit(c, g, false);
  if (!ct->infeasible && !ce->infeasible) { int d = decide(g, c, 3); if (d == 1) return eqRec(r, ct, tol, b, depth + 1); if (d == 0) return eqRec(r, ce, tol, b, depth + 1); }
  bool ok = true;
  if (!ct->infeasible && !eqRec(r, ct, tol, b, depth + 1)) { ok = false; if (b.full()) return false; }
  if (!ce->infeasible && !eqRec(r, ce, tol, b, depth + 1)) ok = false;
  return ok;
}
Result proveEq(N a, N b, const Ctx *c, N pc, double tol) {
  Result R{2, ""};
  if (a == b && !a->und) { R.verdict = 1; return R; }
  if (a->k == KUndef || b->k == KUndef) { std::string w; if (findWitness(c, pc, w)) { R.verdict = 0; R.why = "value is uninitialised (" + w + ")"; } else R.why = "uninitialised"; return R; }
  if (a->ty == TP || b->ty == TP) {
    auto isP = [](N x) { return x->k == KPtr; };
    N x = rebuild(a, c), y = rebuild(b, c);
    if (x == y) { R.verdict = 1; return R; }
    if (isP(x) && isP(y)) { std::string w; if (findWitness(c, pc, w)) { R.verdict = 0; R.why = "different pointers (" + w + ")"; } return R; }
    if (x->k == KIte) {
      const Ctx *ct = withLit(c, x->a[0], true), *ce = withLit(c, x->a[0], false);
      Result r1 = ct->infeasible ? Result{1, ""} : proveEq(x->a[1], y, ct, pc, tol);
      Result r2 = ce->infeasible ? Result{1, ""} : proveEq(x->a[2], y, ce, pc, tol);
      if (r1.verdict == 0) return r1;
      if (r2.verdict == 0) return r2;
      R.verdict = (r1.verdict == 1 && r2.verdict == 1) ? 1 : 2;
      return R;
    }
    if (y->k == KIte) return proveEq(y, x, c, pc, tol);
    R.why = "pointer comparison"; return R;
  }
  if (!numericNode(a) || !numericNode(b)) { R.why = "not numeric"; return R; }
  Budget bud;
  N d;
  { WithCtx wc(c);
    if (isBool(a) && isBool(b)) { N x = mkIte(a, mkF(1), mkF(0)), y = mkIte(b, mkF(1), mkF(0)); a = x; b = y; }
    if (nonfinite(a) || nonfinite(b)) { R.why = "non finite constant"; std::string w; if (refuteEq(a, b, c, pc, tol, w)) { R.verdict = 0; R.why = w; } return R; }
    d = nsub(a, b, TF, 32); }
  bool ok = eqRec(d, c, tol, bud, 0);
  R.cases = bud.cases;
  if (ok && !a->unk && !b->unk && !a->und && !b->und) { R.verdict = 1; return R; }
  if (ok && isC(d)) { R.verdict = 1; return R; }
  std::string w;
  for (const Ctx *l : bud.leaves) if (refuteEq(a, b, l, pc, tol, w, leafSearch)) { R.verdict = 0; R.why = w; return R; }
  if (refuteEq(a, b, c, pc, tol, w)) { R.verdict = 0; R.why = w; }
  else { if (getenv("CMAI_DBG")) { fprintf(stderr, "UND %s\n  IN %s\n", show(d, 12).c_str(), showLits(c).c_str()); for (const Ctx *l : bud.leaves) { fprintf(stderr, "  LEAF %s\n", showLits(l).c_str()); WithCtx wc(l); fprintf(stderr, "    LEFT %s\n", show(rebuild(d, l), 12).c_str()); } }
    R.why = (a->unk || b->unk) ? "depends on an unmodelled value" : bud.cases > bud.limit ? "case budget" : "normal forms differ, no counter valuation"; }
  return R;
}
static bool inRec(N a, double lo, double hi, const Ctx *c, double tol, Budget &b, int depth) {
  if (++b.cases > b.limit || depth > 40) return false;
  resetWork();
  Iv v = eval(a, c);
  if (!v.nan && v.lo >= lo - tol && v.hi <= hi + tol) return true;
  N r = rebuild(a, c);
  v = eval(r, c);
  if (!v.nan && v.lo >= lo - tol && v.hi <= hi + tol) return true;
  { // polynomial bound through sign facts
    if (!v.nan) { Poly p = polyOf(r);
      Poly l = p, h; if (lo != 0) l = padd(p, {Term{1, {}}}, -(lo - tol)); h = padd(Poly{Term{hi + tol, {}}}, p, -1);
      if ((v.lo >= lo - tol || polyNonneg(l, c, 2, false)) && (v.hi <= hi + tol || polyNonneg(h, c, 2, false))) return true; }
  }
  std::unordered_set<int> seen;
  N g = findSplit(r, c, seen, 0);
  if (!g) return b.fail(c);
  const Ctx *ct = withLit(c, g, true), *ce = withLit(c, g, false);
  bool ok = true;
  if (!ct->infeasible && !inRec(r, lo, hi, ct, tol, b, depth + 1)) { ok = false; if (b.full()) return false; }
  if (!ce->infeasible && !inRec(r, lo, hi, ce, tol, b, depth + 1)) ok = false;
  return ok;
}
Result proveIn(N a, double lo, double hi, const Ctx *c, N pc, double tol) {
  Result R{2, ""};
  if (a->k == KUndef) { R.verdict = 0; R.why = "value is uninitialised"; return R; }
  if (!numericNode(a)) { R.why = "not numeric"; return R; }
  Budget b;
  bool ok = inRec(a, lo, hi, c, tol, b, 0);
  R.cases = b.cases;
  if (ok && !a->und) { R.verdict = 1; return R; }
  if (a->unk || a->und) { R.why = a->und ? "may be uninitialised" : "depends on an unmodelled value"; return R; }
  b.leaves.push_back(c);
  for (const Ctx *l : b.leaves) { Sampler S(l, pc, {a});
  for (int i = 0, n = l == c ? searchBudget() : leafSearch; i < n; ++i) {
    Val v;
    if (!S.sample(v)) { if (S.syms.empty()) break; continue; }
    NE.start(v); bool good = true;
    for (auto &l : S.lits) if ((NE(l.first) != 0) != l.second) good = false;
    if (!good || NE.bad) continue;
    double x = NE(a);
    if (NE.bad || NE.amb) continue;
    double t = std::max(tol, 1e-6 * std::max(std::fabs(lo), std::isfinite(hi) ? std::fabs(hi) : 0));
    if (std::isnan(x) || x < lo - t || x > hi + t) { R.verdict = 0; R.why = "for " + S.desc(v) + ": value is " + num(x) + ", outside [" + num(lo) + "," + num(hi) + "]"; return R; }
    if (S.syms.empty()) break;
  } }
  R.why = b.cases > b.limit ? "case budget" : "bound not derived, no counter valuation";
  if (getenv("CMAI_DBG")) for (const Ctx *l : b.leaves) { fprintf(stderr, "  ILEAF %s\n", showLits(l).c_str()); WithCtx wc(l); N q = rebuild(a, l); Iv v = eval(q, l); fprintf(stderr, "    LEFT [%g,%g] nan %d in %g..%g: %s\n", v.lo, v.hi, v.nan, lo, hi, show(q, 12).c_str()); }
  return R;
}
static int trueRec(N cond, const Ctx *c, Budget &b, int depth) {
  if (++b.cases > b.limit || depth > 40) return 2;
  resetWork();
  int d = decide(cond, c, 3);
  if (d == 2) { cond = rebuild(cond, c); d = decide(cond, c, 3); }
  if (d == 0) b.fail(c);
  if (d != 2) return d;
  N r = cond;
  std::unordered_set<int> seen;
  N g = findSplit(r, c, seen, 0);
  if (!g) { b.fail(c); return 2; }
  const Ctx *ct = withLit(c, g, true), *ce = withLit(c, g, false);
  int x = ct->infeasible ? 1 : trueRec(r, ct, b, depth + 1);
  if (x != 1 && b.full()) return 2;
  int y = ce->infeasible ? 1 : trueRec(r, ce, b, depth + 1);
  return x == 1 && y == 1 ? 1 : 2;
}
Result proveTrue(N cond, const Ctx *c, N pc) {
  Result R{2, ""};
  Budget b;
  int v = trueRec(cond, c, b, 0);
  R.cases = b.cases;
  if (v == 1 && !cond->und) { R.verdict = 1; return R; }
  if (cond->unk || cond->und) { R.why = "depends on an unmodelled or uninitialised value"; if (cond->k == KUndef) { R.verdict = 0; } return R; }
  b.leaves.push_back(c);
  for (const Ctx *l : b.leaves) { Sampler S(l, pc, {cond});
  for (int i = 0, n = l == c ? searchBudget() : leafSearch; i < n; ++i) {
    Val vv;
    if (!S.sample(vv)) { if (S.syms.empty()) break; continue; }
    NE.start(vv); bool good = true;
    for (auto &l : S.lits) if ((NE(l.first) != 0) != l.second) good = false;
    if (!good || NE.bad) continue;
    double x = NE(cond);
    if (NE.bad || NE.amb) continue;
    if (x == 0) { R.verdict = 0; R.why = "false for " + S.desc(vv); return R; }
    if (S.syms.empty()) break;
  } }
  R.why = "not derived, no counter valuation";
  if (getenv("CMAI_DBG")) for (const Ctx *l : b.leaves) { fprintf(stderr, "  TLEAF %s\n", showLits(l).c_str()); WithCtx wc(l); fprintf(stderr, "    LEFT %s\n", show(rebuild(cond, l), 12).c_str()); }
  return R;
}
