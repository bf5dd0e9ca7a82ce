#include "ai.h"
typedef color_adjustments A;
enum { SR, SH, LR, LH, NA };
static const char *an[] = {"saturate in rgb", "saturate in hsl", "luminate in rgb", "luminate in hsl"};
static color_base *adj(int k, color_base *c, float p) { return k == SR ? A::saturate_in_rgb_space(c, p) : k == SH ? A::saturate_in_hsl_space(c, p) : k == LR ? A::luminate_in_rgb_space(c, p) : A::luminate_in_hsl_space(c, p); }
static void adji(int k, color_base &c, float p) { k == SR ? A::saturate_in_rgb_space(c, p) : k == SH ? A::saturate_in_hsl_space(c, p) : k == LR ? A::luminate_in_rgb_space(c, p) : A::luminate_in_hsl_space(c, p); }
static int ahome(int k) { return k == SR || k == LR ? RGB_DEEP : HSL; }
static color_base *conv(color_base *c, int t) { return color_converter::convertTo(c, (color_type)t); }
static double lim(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
// P31: adjustments keep the kind of colour and leave their input alone
extern "C" void P31_kept() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NA; ++k) CASE(tname(t), an[k], "", [&] {
    float p = ai_sym("percentage", -1, 1); color_base *c = symc(t, "c", s); Snap n = snap(c);
    color_base *r = adj(k, c, p); ai_true(r != nullptr, "there is a result"); if (!r) return;
    ai_true(r->get_color_type() == (color_type)t && (int)r->get_component_vector().size() == ncomp(t), "the result has the type of the input");
    ai_peq(r->get_rgb_color_space(), s, "the result stays in the working space"); ai_eq(alpha01(r), alpha01(c), istrue(t) ? 3e-3 : 1e-5, "the result has the opacity of the input");
    unchanged(n, c, "the input is unchanged");
    for (int i = 0; i < ncomp(t); ++i) ai_in(r->get_component(i), clo(t, i), cmax(t, i), "components of the result are in range");
  });
}
extern "C" void P31_inplace() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NA; ++k) CASE(tname(t), an[k], "in place", [&] {
    float p = ai_sym("percentage", -1, 1); color_base *c = symc(t, "c", s), *e = symc(t, "c", s); color_base *r = adj(k, e, p);
    adji(k, *c, p); ai_true(c->get_color_type() == (color_type)t, "the color keeps its type"); ai_peq(c->get_rgb_color_space(), s, "the color stays in its working space");
    same(c, r, "adjusting in place gives the adjusted color");
  });
}
// P32: what they compute
static float amount(int u) { return u == 0 ? ai_sym("percentage", -1, 0) : u == 1 ? ai_sym("percentage", 0, 1) : u == 2 ? ai_sym("percentage", -3, -1) : ai_sym("percentage", 1, 3); }
extern "C" void P32_formula() {
  rgb_def *s = srgb();
  static const char *pn[] = {"decrease", "increase", "decrease by more than all", "increase by more than all"};
  for (int u = 0; u < 4; ++u) {
    CASE("saturate in rgb", pn[u], "", [&] {
      float p = amount(u), v[3]; for (int i = 0; i < 3; ++i) v[i] = ai_symi("v", i, 0, 1);
      double L = 0.299 * v[0] + 0.587 * v[1] + 0.114 * v[2]; color_base *r = adj(SR, mkc(RGB_DEEP, v, ai_sym("alpha", 0, 1), s), p);
      for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), lim(v[i] + p * (v[i] - L)), 1e-5, "each channel moves away from or towards the luma by the given part of its distance");
    });
    CASE("luminate in rgb", pn[u], "", [&] {
      float p = amount(u), v[3]; for (int i = 0; i < 3; ++i) v[i] = ai_symi("v", i, 0, 1);
      color_base *r = adj(LR, mkc(RGB_DEEP, v, ai_sym("alpha", 0, 1), s), p); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), lim(v[i] * (1 + p)), 1e-5, "each channel is scaled");
    });
    for (int k = 0; k < 2; ++k) CASE(k ? "luminate in hsl" : "saturate in hsl", pn[u], "", [&] {
      float p = amount(u), v[3] = {ai_sym("hue", 0, 359), ai_sym("s", 0, 1), ai_sym("l", 0, 1)};
      color_base *r = adj(k ? LH : SH, mkc(HSL, v, ai_sym("alpha", 0, 1), s), p); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), i == k + 1 ? lim(v[i] * (1 + p)) : (double)v[i], 1e-4, "saturation or lightness is scaled and the rest kept");
    });
  }
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NA; ++k) for (int u = 0; u < 2; ++u) if (t != ahome(k)) CASE(tname(t), an[k], pn[u], [&] {
    float p = u ? ai_sym("percentage", 0.01, 1) : ai_sym("percentage", -1, -0.01); color_base *c = symc(t, "c", s); color_base *e = conv(adj(k, conv(c, ahome(k)), p), t), *r = adj(k, c, p);
    same(r, e, "other types are adjusted through the type the adjustment works in");
  });
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NA; ++k) CASE(tname(t), an[k], "by zero", [&] {
    if (ahome(k) == RGB_DEEP && t != RGB_DEEP && t != RGB_TRUE) return;
    color_base *c = symc(t, "c", s), *e = symc(t, "c", s); same(adj(k, c, 0), t == RGB_TRUE && ahome(k) == RGB_DEEP ? conv(conv(e, RGB_DEEP), t) : e, "adjusting by zero keeps the color");
  });
}
