#include "ai.h"
typedef std::vector<color_base *> VC;
struct Out { VC c; float f[12]; int n; Out() : n(0) {} void add(float x) { f[n++] = x; } };
static void equal(Out &a, Out &b, const char *what) {
  ai_true(a.c.size() == b.c.size() && a.n == b.n, what);
  for (int i = 0; i < a.n; ++i) ai_eq(a.f[i], b.f[i], 1e-3, what);
  for (size_t i = 0; i < a.c.size() && i < b.c.size(); ++i) same(a.c[i], b.c[i], what);
}
static color_base *copy(color_base *c) {
  std::vector<float> v = c->get_component_vector(); float w[4] = {0, 0, 0, 0}; for (size_t i = 0; i < v.size() && i < 4; ++i) w[i] = v[i]; return mkc(c->get_color_type(), w, alpha01(c), c->get_rgb_color_space());
}
// the operation gives the same for the same colours whatever was computed before, and sees changes made to a colour since
template <class F> static void history(color_base *a, color_base *b, rgb_def *s2, const F &f) {
  color_base *a1 = copy(a), *b1 = copy(b), *c = copy(b), *d = copy(a); Out r = f(a1, b1);
  a1->set_rgb_color_space(s2); b1->set_rgb_color_space(s2); f(b1, a1); f(c, d); a1->set_rgb_color_space(a->get_rgb_color_space());
  ai_havoc_statics();
  Out q = f(a, b); equal(r, q, "the result does not depend on earlier calls");
  color_base *x = copy(a), *y = copy(b); f(x, y); *x = *copy(b); *y = *copy(a); ai_havoc_statics(); Out u = f(x, y), v = f(copy(b), copy(a)); equal(u, v, "the result is that of the current value of the colors");
}
// and that of the current contents of its working space
static rgb_def *custom(white_point *w, color_space::gamma *g) { return new rgb_def(.64f, .33f, .3f, .6f, .15f, .06f, w, g); }
extern "C" void P36_space() {
  for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if (t != u && (t >= XYZ || u >= XYZ)) for (int k = 0; k < 2; ++k) CASE(tname(t), tname(u), k ? "gamma curve replaced" : "white point replaced", [&] {
    white_point_presets ws; gamma_presets gs; white_point *w = ws.D65_2Degree(), *w2 = ws.A_2Degree(); color_space::gamma *g = gs.sRGB(), *g2 = gs.gamma1_8();
    rgb_def *s = custom(w, g), *e = k ? custom(w, g2) : custom(w2, g); color_base *a = symc(t, "p", s);
    color_converter::convertTo(a, (color_type)u); color_converter::convertTo(symc(u, "q", s), (color_type)t);
    if (k) s->set_gamma_curve(g2); else s->set_white_point(w2);
    ai_havoc_statics(); color_base *r = color_converter::convertTo(a, (color_type)u), *q = color_converter::convertTo(symc(t, "p", e), (color_type)u);
    if (q) q->set_rgb_color_space(s);
    same(r, q, "the result is that of the current contents of the working space");
  });
}
static rgb_def *other() { rgb_def *s = adobe(); return s; }
extern "C" void P36_convert() {
  rgb_def *s = srgb(), *s2 = other();
  for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if (t != u) CASE(tname(t), tname(u), "", [&] {
    history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *) { Out o; o.c.push_back(color_converter::convertTo(a, (color_type)u)); return o; });
  });
}
typedef color_calculation C;
extern "C" void P36_calculate() {
  rgb_def *s = srgb(), *s2 = other();
  for (int t = 0; t < NT; ++t) {
    CASE(tname(t), "add", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.c.push_back(C::add(a, b, 0.5f, 0.25f, true)); return o; }); });
    CASE(tname(t), "mix", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.c.push_back(C::mix(a, b, 0.25f, true)); return o; }); });
    CASE(tname(t), "subtract", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.c.push_back(C::subtract(a, b, 0.5f, true)); return o; }); });
  }
}
typedef color_blend B;
typedef color_base *(*PD)(color_base *, color_base *);
typedef color_base *(*BL)(color_base *, color_base *, bool, bool);
struct PdOp { const char *n; PD f; };
struct BlOp { const char *n; BL f; };
static const PdOp pds[] = {{"src", porter_duff::src}, {"dest", porter_duff::dest}, {"atop", porter_duff::atop}, {"dest_atop", porter_duff::dest_atop}, {"over", porter_duff::over}, {"dest_over", porter_duff::dest_over}, {"in", porter_duff::in},
  {"dest_in", porter_duff::dest_in}, {"out", porter_duff::out}, {"dest_out", porter_duff::dest_out}, {"x_or", porter_duff::x_or}, {"clear", porter_duff::clear}};
static const BlOp bls[] = {{"normal", B::normal}, {"multiply", B::multiply}, {"screen", B::screen}, {"overlay", B::overlay}, {"darken", B::darken}, {"lighten", B::lighten}, {"color_dodge", B::color_dodge}, {"linear_dodge", B::linear_dodge},
  {"color_burn", B::color_burn}, {"linear_burn", B::linear_burn}, {"hard_light", B::hard_light}, {"soft_light", B::soft_light}, {"vivid_light", B::vivid_light}, {"linear_light", B::linear_light}, {"pin_light", B::pin_light},
  {"hard_mix", B::hard_mix}, {"difference", B::difference}, {"subtract", B::subtract}, {"divide", B::divide}, {"plus_lighter", B::plus_lighter}, {"plus_darker", B::plus_darker}, {"exclusion", B::exclusion},
  {"hue", B::hue}, {"saturation", B::saturation}, {"color", B::color}, {"luminosity", B::luminosity}};
extern "C" void P36_blend() {
  rgb_def *s = srgb(), *s2 = other();
  for (int k = 0; k < 12; ++k) CASE(pds[k].n, "", "", [&] { history(symc(RGB_DEEP, "p", s), symc(RGB_DEEP, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.c.push_back(pds[k].f(a, b)); return o; }); });
  for (int k = 0; k < 26; ++k) CASE(bls[k].n, "", "", [&] { history(symc(RGB_DEEP, "p", s), symc(RGB_DEEP, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.c.push_back(bls[k].f(a, b, true, true)); return o; }); });
}
typedef color_distance D;
typedef color_adjustments A;
typedef color_combinations K;
extern "C" void P36_other() {
  rgb_def *s = srgb(), *s2 = other();
  static const int ts[] = {RGB_TRUE, RGB_DEEP, HSL, LAB, CIELUV};
  for (int j = 0; j < 5; ++j) { int t = ts[j];
    CASE(tname(t), "distances", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.add(D::euclidean_distance_squared(a, b)); o.add(D::euclidean_distance(a, b, color_type::CIELUV)); o.add(D::euclidean_distance_weighted(a, b)); return o; }); });
    CASE(tname(t), "lab distances", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.add(D::cielab_delta_e_cie76(a, b)); o.add(D::cielab_delta_e_cie94(a, b)); o.add(D::cmc_delta_e_lc84(a, b)); return o; }); });
    CASE(tname(t), "cie00", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *b) { Out o; o.add(D::cielab_delta_e_cie00(a, b)); return o; }); });
    CASE(tname(t), "adjustments in rgb", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *) { Out o; o.c.push_back(A::saturate_in_rgb_space(a, 0.25f)); o.c.push_back(A::luminate_in_rgb_space(a, -0.25f)); return o; }); });
    CASE(tname(t), "adjustments in hsl", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *) { Out o; o.c.push_back(A::saturate_in_hsl_space(a, -0.25f)); o.c.push_back(A::luminate_in_hsl_space(a, 0.25f)); return o; }); });
    CASE(tname(t), "combinations", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *) { Out o; o.c = K::create_triplet(a); return o; }); });
    CASE(tname(t), "analogous", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *) { Out o; o.c = K::create_analogous(a, 30); return o; }); });
    CASE(tname(t), "monochromatic", "", [&] { history(symc(t, "p", s), symc(t, "q", s), s2, [&](color_base *a, color_base *) { Out o; o.c = K::create_monochromatic(a, 2, 0.25f, 2); return o; }); });
  }
}
// P49: one object as both operands gives what two equal colours give
template <class F> static void alias(color_base *a, const F &f) { color_base *b = copy(a), *c = copy(a); Snap n = snap(a); Out r = f(a, a), q = f(b, c); equal(r, q, "one object as both operands gives what two equal colors give"); unchanged(n, a, "the operand is unchanged"); }
#define TYPES(X) X(RGB_TRUE, rgb_truecolor, rgb_true) X(RGB_DEEP, rgb_deepcolor, rgb_deep) X(GREY_TRUE, grey_truecolor, grey_true) X(GREY_DEEP, grey_deepcolor, grey_deep) \
  X(CMYK, cmyk, cmyk) X(HSI, hsi, hsi) X(HSV, hsv, hsv) X(HSL, hsl, hsl) X(HCY, hcy, hcy) X(XYZ, xyz, xyz) X(XYY, xyy, xyy) X(CIELUV, cieluv, cieluv) X(LAB, lab, lab) X(LCH_AB, lch_ab, lch_ab) X(LCH_UV, lch_uv, lch_uv)
template <class T> static std::vector<T *> list(color_base *a, color_base *b, int k) { std::vector<T *> v; for (int i = 0; i < 6; ++i) v.push_back((T *)(k >> i & 1 ? b : a)); return v; }
static color_base *avg(int t, color_base *a, color_base *b, int k, bool al) {
#define X(K, T, N) case K: return C::average_##N(list<T>(a, b, k), al);
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
static color_base *typed(int op, int t, color_base *a, color_base *b, float w, float x) {
#define X(K, T, N) case K: return op == 0 ? (color_base *)C::add((T *)a, (T *)b, w, x, true) : op == 1 ? (color_base *)C::mix((T *)a, (T *)b, w, true) : (color_base *)C::subtract((T *)a, (T *)b, w, true);
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
static void calculate(int k) {
  rgb_def *s = srgb(); static const char *on[] = {"add", "mix", "subtract"};
  for (int t = 0; t < NT; ++t) CASE(tname(t), on[k], "one object", [&] {
    float w = ai_sym("w", 0, 1), x = ai_sym("x", 0, 1);
    alias(symc(t, "p", s), [&](color_base *a, color_base *b) { Out o; o.c.push_back(typed(k, t, a, b, w, x)); o.c.push_back(k == 0 ? C::add(a, b, w, x, true) : k == 1 ? C::mix(a, b, w, true) : C::subtract(a, b, w, true)); return o; });
  });
}
static void average() {
  rgb_def *s = srgb();
  static const char *kn[] = {"one color six times", "another color at the end", "another color first", "pairs", "alternating"}; static const int ks[] = {0, 32, 1, 12, 42};
  for (int t = 0; t < NT; ++t) for (int k = 0; k < 5; ++k) CASE(tname(t), "average", kn[k], [&] {
    color_base *a = symc(t, "p", s), *b = symc(t, "q", s); Snap n = snap(a), m = snap(b), e = snap(avg(t, a, b, ks[k], true)); float d[5] = {0, 0, 0, 0, 0}, q = 0; for (int i = 0; i < 6; ++i) { Snap &z = ks[k] >> i & 1 ? m : n; for (int j = 0; j < ncomp(t); ++j) d[j] += z.v[j]; q += z.a; }
    for (int j = 0; j < ncomp(t); ++j) ai_eq(e.v[j], d[j] / 6, 1e-3, "a color that occurs several times counts each time"); ai_eq(e.a, q / 6, 1e-3, "a color that occurs several times counts each time"); unchanged(n, a, "the operand is unchanged"); unchanged(m, b, "the operand is unchanged");
  });
}
static void blend(int from, int to) {
  rgb_def *s = srgb(); static const int ts[] = {RGB_DEEP, RGB_TRUE, CMYK, HSL, HCY, LAB};
  for (int k = from; k < to; ++k) CASE(k < 12 ? pds[k].n : bls[k - 12].n, "one object", "", [&] {
    for (int j = 0; j < 6; ++j) for (int u = 0; u < (k < 12 ? 1 : 4); ++u) if (u == 3 || k < 12 || ts[j] == RGB_DEEP) CASE(tname(ts[j]), u == 0 ? "" : u == 1 ? "source region" : u == 2 ? "destination region" : "both regions", "", [&] {
      alias(symc(ts[j], "p", s), [&](color_base *a, color_base *b) { Out o; color_base *r = k < 12 ? pds[k].f(a, b) : bls[k - 12].f(a, b, u & 1, u >> 1); ai_true(r != a && r != b, "the result is a new color"); o.c.push_back(r); return o; });
    });
  });
}
extern "C" void P49_calculate() { for (int k = 0; k < 3; ++k) calculate(k); average(); }
extern "C" void P13_alias() { calculate(0); }
extern "C" void P14_alias() { calculate(1); }
extern "C" void P15_alias() { calculate(2); }
extern "C" void P16_alias() { average(); }
extern "C" void P49_blend() { blend(0, 38); }
extern "C" void P20_alias() { blend(12, 34); }
extern "C" void P21_alias() { blend(34, 38); }
extern "C" void P49_distance() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) CASE(tname(t), "", "", [&] {
    color_base *a = symc(t, "p", s), *b = copy(a); ai_true(*a == *a && !(*a != *a), "a color equals itself");
    for (int k = 0; k < 7; ++k) {
      auto f = [&](color_base *c, color_base *d) { return k == 0 ? D::euclidean_distance_squared(c, d) : k == 1 ? D::euclidean_distance(c, d) : k == 2 ? D::euclidean_distance(c, d, color_type::CIELUV) : k == 3 ? D::euclidean_distance_weighted(c, d) : k == 4 ? D::cielab_delta_e_cie76(c, d) : k == 5 ? D::cielab_delta_e_cie94(c, d) : D::cmc_delta_e_lc84(c, d); };
      ai_eq(f(a, a), 0, 1e-3, "the distance of a color to itself is zero"); ai_eq(f(a, b), 0, 1e-3, "the distance of equal colors is zero");
    }
  });
}
