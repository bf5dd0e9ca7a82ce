#include "ai.h"
static double lim(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static const char *kn[] = {"0", "1", "2", "3"};
// P47: operations every colour has
extern "C" void P47_sum() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) {
    CASE(tname(t), "sum", "", [&] {
      color_base *a = symc(t, "a", s), *b = symc(t, "b", s); Snap x = snap(a), y = snap(b); color_base r = *a + *b; ai_true(r.get_color_type() == (color_type)t && (int)r.get_component_vector().size() == ncomp(t), "the sum has the type of the colors"); ai_peq(r.get_rgb_color_space(), s, "the sum is in the working space of the first color"); ai_eq(r.alpha(), alpha01(a), 1e-5, "the sum has the opacity of the first color");
      for (int i = 0; i < ncomp(t); ++i) ai_eq(r.get_component(i), lim((double)x.v[i] + y.v[i], a->get_component_min(), a->get_component_max()), 1e-4, "the sum adds components, limited to the range"); unchanged(x, a, "the operands are unchanged"); unchanged(y, b, "the operands are unchanged");
    });
    for (int u = 0; u < NT; ++u) if (u != t) CASE(tname(t), "sum with", tname(u), [&] { color_base *a = symc(t, "a", s), *b = symc(u, "b", s); ai_expect_throw(""); color_base r = *a + *b; });
  }
}
extern "C" void P47_opacity() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) {
    CASE(tname(t), "multiply", "", [&] { color_base *a = symc(t, "a", s); Snap x = snap(a); double al = alpha01(a); a->alpha_multiply(); ai_eq(alpha01(a), al, 1e-5, "opacity is kept"); ai_peq(a->get_rgb_color_space(), s, "the working space is kept"); for (int i = 0; i < ncomp(t); ++i) ai_eq(a->get_component(i), x.v[i] * al, 1e-3, "components are multiplied by the opacity"); });
    for (int f = 0; f < 3; ++f) CASE(tname(t), "divide", f == 0 ? "" : f == 1 ? "faint" : "nearly transparent", [&] { float v[4]; for (int i = 0; i < ncomp(t); ++i) v[i] = ai_symi("a", i, clo(t, i), chi(t, i)); double al = f == 0 ? ai_sym("alpha", 0.1, 1) : f == 1 ? ai_sym("alpha", 0.004, 0.1) : ai_sym("alpha", 1e-5, 0.004); color_base *a = mkc(t, v, al, s); a->alpha_divide(); ai_eq(alpha01(a), al, 1e-4, "opacity is kept"); for (int i = 0; i < ncomp(t); ++i) ai_eq(a->get_component(i), lim(v[i] / al, a->get_component_min(), a->get_component_max()), 2e-2, "components are divided by the opacity, limited to the range"); });
    CASE(tname(t), "divide transparent", "", [&] { float v[4]; for (int i = 0; i < ncomp(t); ++i) v[i] = ai_symi("a", i, clo(t, i), chi(t, i)); color_base *a = mkc(t, v, 0, s); Snap x = snap(a); a->alpha_divide(); unchanged(x, a, "a fully transparent color is kept"); });
    for (int f = 0; f < 2; ++f) CASE(tname(t), "there and back", f ? "faint" : "", [&] { float v[4]; for (int i = 0; i < ncomp(t); ++i) v[i] = ai_symi("a", i, clo(t, i), chi(t, i)); color_base *a = mkc(t, v, f ? ai_sym("alpha", 1e-4, 0.05) : ai_sym("alpha", 0.05, 1), s); Snap x = snap(a); a->alpha_multiply(); a->alpha_divide(); for (int i = 0; i < ncomp(t); ++i) if (chi(t, i) <= a->get_component_max() && clo(t, i) >= a->get_component_min()) ai_eq(a->get_component(i), x.v[i], 1e-2, "dividing undoes multiplying"); });
  }
}
static float dbl(float x) { return 2 * x; }
static float quarter(float x) { return x / 4; }
extern "C" void P47_gamma() {
  for (int t = 0; t < NT; ++t) {
    CASE(tname(t), "gamma", "", [&] {
      white_point_presets w; color_space::gamma *g = new color_space::gamma(std::vector<gamma_part *>{new gamma_part(dbl, 1000.f)}, std::vector<gamma_part *>{new gamma_part(quarter, 1000.f)}); rgb_def *s = new rgb_def(.64f, .33f, .3f, .6f, .15f, .06f, w.D65_2Degree(), g);
      color_base *a = symc(t, "a", s), *b = symc(t, "a", s); Snap x = snap(a); a->do_gamma_correction(); b->do_inverse_gamma_correction(); ai_eq(a->alpha(), x.a, 1e-6, "opacity is kept"); ai_eq(b->alpha(), x.a, 1e-6, "opacity is kept");
      for (int i = 0; i < ncomp(t); ++i) { ai_eq(a->get_component(i), lim(2 * x.v[i], a->get_component_min(), a->get_component_max()), 1e-3, "gamma correction applies the curve to each component"); ai_eq(b->get_component(i), lim(x.v[i] / 4, a->get_component_min(), a->get_component_max()), 1e-3, "inverse gamma correction applies the inverse curve to each component"); }
    });
    if (t == RGB_DEEP || t == GREY_DEEP) for (int dark = 0; dark < 2; ++dark) CASE(tname(t), "gamma there and back", dark ? "nearly black" : "", [&] { float v[3]; rgb_def *s = srgb(); for (int i = 0; i < 3; ++i) v[i] = ai_symi("v", i, dark ? 0 : 0.01, dark ? 0.01 : 1); color_base *a = mkc(t, v, 1, s); a->do_gamma_correction(); a->do_inverse_gamma_correction(); for (int i = 0; i < ncomp(t); ++i) ai_eq(a->get_component(i), v[i], 2e-3, "the inverse correction undoes the correction"); });
  }
}
