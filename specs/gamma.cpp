#include "ai.h"
typedef color_space::gamma G;
typedef gamma_part P;
typedef std::vector<P *> VP;
// recognisable functions
static float f0(float x) { return x + 10; }
static float f1(float x) { return x + 20; }
static float f2(float x) { return x + 30; }
static P *part(int k, float b) { return k == 0 ? new P(f0, b) : k == 1 ? new P(f1, b) : k == 2 ? new P(f2, b) : nullptr; }
static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static const char *on[] = {"0", "1", "2", "3", "4", "5"};
enum { CTOR, ADD, SET, COPY, ASSIGN, NW };
static const char *wn[] = {"constructor", "add", "set", "copy", "assignment"};
static G *build(int w, const VP &v, const VP &u) {
  switch (w) {
  case CTOR: return new G(v, u);
  case ADD: { G *g = new G(); for (size_t i = 0; i < v.size(); ++i) g->add_gamma_curve_part(v[i]); for (size_t i = 0; i < u.size(); ++i) g->add_inverse_gamma_curve_part(u[i]); return g; }
  case SET: { G *g = new G(VP{new P(f2, 0.5f)}, VP{new P(f2, 0.5f)}); g->set_gamma_curve_parts(v); g->set_inverse_gamma_curve_parts(u); return g; }
  case COPY: { G g(v, u); return new G(g); }
  }
  G g(v, u), *r = new G(); *r = g; return r;
}
static float run(G *g, bool inv, float x) { return inv ? g->inverse_gamma_correction(x) : g->gamma_correction(x); }
static VP pick(bool inv, G *g) { return inv ? g->get_inverse_gamma_curve_parts() : g->get_gamma_curve_parts(); }
// P37: a curve applies the part its border says
extern "C" void P37_select() {
  for (int w = 0; w < NW; ++w) for (int o = 0; o < 6; ++o) for (int inv = 0; inv < 2; ++inv) CASE(wn[w], on[o], inv ? "inverse" : "correction", [&] {
    float b[3] = {ai_sym("first border", 0, 0.3), ai_sym("second border", 0.35, 0.6), ai_sym("third border", 0.65, 1)}, x = ai_sym("x", -1, 2); VP v, e; for (int i = 0; i < 3; ++i) v.push_back(part(perm[o][i], b[perm[o][i]])); e.push_back(new P(f2, 5.f));
    G *g = inv ? build(w, e, v) : build(w, v, e); float r = run(g, inv, x); VP k = pick(inv, g); ai_true(k.size() == 3, "every part is kept");
    ai_true(k[0]->get_upper_border() <= k[1]->get_upper_border() && k[1]->get_upper_border() <= k[2]->get_upper_border(), "parts are ordered by their border");
    ai_eq(r, x <= b[0] ? x + 10 : x <= b[1] ? x + 20 : x <= b[2] ? x + 30 : x, 1e-6, "the part with the smallest border not below the value is applied, and none above all borders");
  });
  for (int w = 0; w < NW; ++w) for (int inv = 0; inv < 2; ++inv) {
    CASE(wn[w], "two parts with any borders", inv ? "inverse" : "correction", [&] {
      float b0 = ai_sym("first border", -1, 2), b1 = ai_sym("second border", -1, 2), x = ai_sym("x", -1, 2); if (b0 == b1) return; VP v{part(0, b0), part(1, b1)}; G *g = inv ? build(w, VP(), v) : build(w, v, VP()); float r = run(g, inv, x);
      float e = x; if (b0 < b1) { if (x <= b0) e = x + 10; else if (x <= b1) e = x + 20; } else { if (x <= b1) e = x + 20; else if (x <= b0) e = x + 10; }
      ai_eq(r, e, 1e-6, "the part with the smallest border not below the value is applied, and none above all borders");
    });
    CASE(wn[w], "no parts", inv ? "inverse" : "correction", [&] { float x = ai_sym("x", -1, 2); ai_eq(run(build(w, VP(), VP()), inv, x), x, 1e-6, "a curve without parts keeps the value"); });
    CASE(wn[w], "part without function", inv ? "inverse" : "correction", [&] { float x = ai_sym("x", 0, 1), b = ai_sym("border", 0, 1); VP v{new P(), part(1, 1.f)}; v[0]->set_upper_border(b); G *g = inv ? build(w, VP(), v) : build(w, v, VP()); ai_eq(run(g, inv, x), x + 20, 1e-6, "parts without function are skipped"); });
    for (int o = 0; o < 6; ++o) CASE(wn[w], on[o], inv ? "missing part in inverse" : "missing part", [&] {
      static const int ks[3] = {0, 1, 3}; float b = ai_sym("border", 0, 0.9), x = ai_sym("x", 0, 1); VP v; for (int i = 0; i < 3; ++i) v.push_back(part(ks[perm[o][i]], perm[o][i] == 0 ? b : 1)); G *g = inv ? build(w, VP(), v) : build(w, v, VP());
      ai_eq(run(g, inv, x), x <= b ? x + 10 : x + 20, 1e-6, "missing parts are skipped");
    });
  }
}
// more parts, in orders that are neither sorted nor reversed
static float g0(float x) { return x * 2 + 1; }
static float g1(float x) { return x * 3 + 2; }
static float g2(float x) { return x * 4 + 3; }
static float g3(float x) { return x * 5 + 4; }
extern "C" void P37_many() {
  typedef float (*F)(float); static const F f[7] = {f0, f1, f2, g0, g1, g2, g3};
  static const int n[] = {4, 5, 6, 7}, o[4][7] = {{2, 0, 3, 1}, {3, 4, 0, 2, 1}, {5, 1, 4, 0, 3, 2}, {4, 6, 2, 0, 5, 1, 3}}; static const char *cn[] = {"4 parts", "5 parts", "6 parts", "7 parts"};
  for (int w = 0; w < NW; ++w) for (int j = 0; j < 4; ++j) for (int inv = 0; inv < 2; ++inv) CASE(wn[w], cn[j], inv ? "inverse" : "correction", [&] {
    float x = ai_sym("x", -1, 2), b[7]; for (int i = 0; i < n[j]; ++i) b[i] = (i + 1) * 0.125f; b[2] = ai_sym("border", 0.26, 0.49);
    VP v; for (int i = 0; i < n[j]; ++i) v.push_back(new P(f[o[j][i]], b[o[j][i]])); G *g = inv ? build(w, VP(), v) : build(w, v, VP());
    float r = run(g, inv, x), e = x; for (int i = n[j]; i-- > 0;) if (x <= b[i]) e = f[i](x);
    VP k = pick(inv, g); ai_true((int)k.size() == n[j], "every part is kept"); ai_eq(r, e, 1e-6, "the part with the smallest border not below the value is applied, and none above all borders");
  });
}
struct Editable : G { // a curve that takes its own parts out
  Editable(const VP &v, const VP &u) : G(v, u) {}
  bool take(bool inv, int i) { return inv ? remove_inverse_gamma_curve_part(m_inverse_gamma_curve_parts.begin() + i) : remove_gamma_curve_part(m_gamma_curve_parts.begin() + i); }
};
extern "C" void P37_remove() {
  for (int i = 0; i < 3; ++i) for (int inv = 0; inv < 2; ++inv) CASE("remove", on[i], inv ? "inverse" : "correction", [&] {
    float b[3] = {ai_sym("first border", 0, 0.3), ai_sym("second border", 0.35, 0.6), ai_sym("third border", 0.65, 1)}, x = ai_sym("x", -1, 2); VP v; for (int j = 0; j < 3; ++j) v.push_back(part(j, b[j]));
    Editable g(v, v); ai_true(g.take(inv, i), "removing a part reports success"); VP k = pick(inv, &g), o = pick(!inv, &g); ai_true(k.size() == 2 && o.size() == 3, "exactly one part is removed");
    float e = x; for (int j = 3; j-- > 0;) if (j != i && x <= b[j]) e = x + 10 * (j + 1); ai_eq(run(&g, inv, x), e, 1e-6, "the remaining parts apply as before");
  });
}
extern "C" void P37_parts() {
  CASE("part", "", "", [&] {
    float b = ai_sym("border", -1, 2), x = ai_sym("x", -1, 2), b2 = ai_sym("border2", -1, 2); P p(f0, b), c(p), d, e(f1); d = p; ai_eq(e.get_upper_border(), 1, 1e-6, "the border defaults to 1"); P def; ai_true(!def.get_gamma_function(), "a default part has no function"); ai_eq(def.get_upper_border(), 1, 1e-6, "the border defaults to 1");
    p.set_upper_border(b2); p.set_gamma_function(f1); ai_eq(p.get_upper_border(), b2, 1e-6, "the border can be set"); ai_eq(p.get_gamma_function()(x), x + 20, 1e-6, "the function can be set");
    ai_eq(c.get_upper_border(), b, 1e-6, "copies are independent"); ai_eq(c.get_gamma_function()(x), x + 10, 1e-6, "copies are independent"); ai_eq(d.get_upper_border(), b, 1e-6, "copies are independent"); ai_eq(d.get_gamma_function()(x), x + 10, 1e-6, "copies are independent");
    d = d; ai_eq(d.get_gamma_function()(x), x + 10, 1e-6, "assigning a part to itself keeps it");
  });
  CASE("part", "comparison", "", [&] {
    float a = ai_sym("a", -1, 2), b = ai_sym("b", -1, 2); P p(f0, a), q(f1, b); const P &cp = p, &cq = q; ai_true((p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b), "parts compare by border"); ai_true((cp < cq) == (a < b) && (cp > cq) == (a > b) && (cp <= cq) == (a <= b) && (cp >= cq) == (a >= b), "parts compare by border");
  });
  CASE("part", "equality", "", [&] {
    float a = ai_sym("a", -1, 1), b = ai_sym("b", 1.1, 2); P p(f0, a), c(p), q(f1, a), r(f0, b), n; const P &cp = p, &cc = c, &cq = q, &cr = r; ai_true(p == c && !(p != c) && cp == cc && !(cp != cc), "a part equals its copy"); ai_true(p != q && !(p == q) && cp != cq && !(cp == cq), "parts with different functions are not equal");
    ai_true(p != r && !(p == r) && cp != cr && !(cp == cr), "parts with different borders are not equal"); ai_true(p != n, "a part with function does not equal one without");
    P l([](float x) { return x * 2; }, a), m([](float x) { return x * 3; }, a); const P &cl = l, &cm = m; ai_true(l != m && !(l == m) && cl != cm && !(cl == cm), "parts with different functions are not equal"); P k(l); ai_true(k == l && !(k != l), "a part equals its copy");
  });
  CASE("curve", "equality", "", [&] {
    VP v{part(0, 0.25f), part(1, 1)}, u{part(2, 1)}; G g(v, u), h(g), i(u, u), j(v, v), k(v, VP()); const G &cg = g, &ch = h, &ci = i, &cj = j, &ck = k; ai_true(g == h && !(g != h) && cg == ch && !(cg != ch), "a curve equals its copy");
    ai_true(!(g == i) && g != i && !(cg == ci) && cg != ci, "curves with different parts are not equal"); ai_true(!(g == j) && g != j && !(cg == cj) && cg != cj, "curves with different inverse parts are not equal"); ai_true(!(g == k) && g != k && !(cg == ck) && cg != ck, "curves with different inverse parts are not equal");
    G e(v, VP{part(1, 1)}), f(v, VP{part(2, 1)}); ai_true(e != f, "curves with different inverse parts are not equal");
  });
  CASE("curve", "copy", "", [&] {
    float x = ai_sym("x", 0, 1); VP v{part(0, 0.5f)}, u{part(1, 1)}; G g(v, u), c(g), d; d = g; d = d; g.add_gamma_curve_part(part(2, 0.25f)); g.set_inverse_gamma_curve_parts(VP()); ai_eq(run(&c, false, x), x <= 0.5f ? x + 10 : x, 1e-6, "copies are independent"); ai_eq(run(&d, false, x), x <= 0.5f ? x + 10 : x, 1e-6, "copies are independent");
    ai_eq(run(&c, true, x), x + 20, 1e-6, "copies are independent"); ai_eq(run(&d, true, x), x + 20, 1e-6, "copies are independent"); ai_eq(run(&g, false, x), x <= 0.25f ? x + 30 : x <= 0.5f ? x + 10 : x, 1e-6, "an added part is used"); ai_eq(run(&g, true, x), x, 1e-6, "a replaced list is used");
  });
}
// P38: the presets
typedef G *(gamma_presets::*GP)();
static const GP gp[] = {&gamma_presets::gamma1_8, &gamma_presets::gamma2_2, &gamma_presets::gamma2_6, &gamma_presets::gamma2_8, &gamma_presets::sRGB, &gamma_presets::gammaAdobe, &gamma_presets::gammaRomm, &gamma_presets::gammaUHDTV};
static const char *gn[] = {"gamma1_8", "gamma2_2", "gamma2_6", "gamma2_8", "sRGB", "gammaAdobe", "gammaRomm", "gammaUHDTV"};
static const double ge[] = {1.8, 2.2, 2.6, 2.8, 2.4, 2.19921875, 1.8, 1 / 0.45}, ga[] = {0, 0, 0, 0, 0.055, 0, 0, 0.099}, gs[] = {0, 0, 0, 0, 12.92, 0, 16, 4.5}, gb[] = {0, 0, 0, 0, 0.0031308, 0, 0.001953, 0.018053968510807};
extern "C" void P38_presets() {
  gamma_presets p;
  for (int k = 0; k < 8; ++k) {
    G *g = (p.*gp[k])();
    CASE(gn[k], "ends", "", [&] { ai_eq(run(g, false, 0), 0, 1e-6, "0 is kept"); ai_eq(run(g, true, 0), 0, 1e-6, "0 is kept"); ai_eq(run(g, false, 1), 1, 1e-4, "1 is kept"); ai_eq(run(g, true, 1), 1, 1e-4, "1 is kept"); });
    double m = gb[k], e = gs[k] * m;
    CASE(gn[k], "power part", "", [&] { float x = ai_sym("x", m + 1e-5, 1); ai_eq(run(g, false, x), (1 + ga[k]) * pow(x, 1 / ge[k]) - ga[k], 1e-4, "the correction is the documented power"); });
    CASE(gn[k], "inverse power part", "", [&] { float x = ai_sym("x", e + 3e-4, 1); ai_eq(run(g, true, x), pow((x + ga[k]) / (1 + ga[k]), ge[k]), 1e-4, "the inverse is the documented power"); });
    if (gs[k]) {
      CASE(gn[k], "linear part", "", [&] { float x = ai_sym("x", 0, m - 1e-5); ai_eq(run(g, false, x), gs[k] * x, 1e-5, "the correction of dark values is linear"); });
      CASE(gn[k], "inverse linear part", "", [&] { float x = ai_sym("x", 0, e - 3e-4); ai_eq(run(g, true, x), x / gs[k], 1e-6, "the inverse of dark values is linear"); });
    }
    CASE(gn[k], "there and back", "bright", [&] { float x = ai_sym("x", m + 1e-3, 1); ai_eq(run(g, true, run(g, false, x)), x, 2e-3, "the inverse undoes the correction"); });
    CASE(gn[k], "back and there", "bright", [&] { float x = ai_sym("x", e + 5e-3, 1); ai_eq(run(g, false, run(g, true, x)), x, 2e-3, "the correction undoes the inverse"); });
    if (gs[k]) CASE(gn[k], "there and back", "dark", [&] { float x = ai_sym("x", 0, m - 1e-4); ai_eq(run(g, true, run(g, false, x)), x, 2e-3, "the inverse undoes the correction"); ai_eq(run(g, false, run(g, true, x)), x, 2e-3, "the correction undoes the inverse"); });
    CASE(gn[k], "range", "", [&] { float x = ai_sym("x", 0, 1); ai_in(run(g, false, x), -1e-4, 1 + 1e-4, "values stay in 0..1"); ai_in(run(g, true, x), -1e-4, 1 + 1e-4, "values stay in 0..1"); });
  }
}
