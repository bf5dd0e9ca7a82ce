#include "ai.h"
typedef chromatic_adaptation A;
enum { VK, BS, XS, SH, C97S, C00S, C02S, BF, C97, C00, C02, NA };
static const char *an[] = {"von Kries", "Bradford simplified", "XYZ scale", "Sharp", "CMCCAT97 simplified", "CMCCAT2000 simplified", "CAT02 simplified", "Bradford", "CMCCAT97", "CMCCAT2000", "CAT02"};
static color_base *adapt(int k, color_base *c, white_point *w, float f = 1, float la = 100, float lr = 100) {
  switch (k) {
  case VK: return A::von_kries_adaptation(c, w);
  case BS: return A::bradford_adaptation_simplified(c, w);
  case XS: return A::xyz_scale_adaptation(c, w);
  case SH: return A::sharp_adaptation(c, w);
  case C97S: return A::cmccat97_adaptation_simplified(c, w);
  case C00S: return A::cmccat2000_adaptation_simplified(c, w);
  case C02S: return A::cat02_adaptation_simplified(c, w);
  case BF: return A::bradford_adaptation(c, w);
  case C97: return A::cmccat97_adaptation(c, w, f, la);
  case C00: return A::cmccat2000_adaptation(c, w, f, la, lr);
  }
  return A::cat02_adaptation(c, w, f, la);
}
static const double mvk[9] = {0.40024, 0.7076, -0.08081, -0.2263, 1.16532, 0.0457, 0, 0, 0.91822}, mb[9] = {0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296}, mi[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1},
  ms[9] = {1.2694, -0.0988, -0.1706, -0.8364, 1.8006, 0.0357, 0.0297, -0.0315, 1.0018}, m00[9] = {0.7982, 0.3389, -0.1371, -0.5918, 1.5512, 0.0406, 0.0008, 0.0239, 0.9753}, m02[9] = {0.7328, 0.4296, -0.1624, -0.7036, 1.6975, 0.0061, 0.0030, 0.0136, 0.9834};
static const double *amat[] = {mvk, mb, mi, ms, mb, m00, m02, mb, mb, m00, m02};
static color_base *conv(color_base *c, int t) { return color_converter::convertTo(c, (color_type)t); }
static void mul(const double *m, const double *v, double *r) { for (int i = 0; i < 3; ++i) { r[i] = 0; for (int j = 0; j < 3; ++j) r[i] += m[3 * i + j] * v[j]; } }
static void inv(const double *m, double *r) {
  double d = 0; for (int j = 0; j < 3; ++j) d += m[j] * (m[3 + (j + 1) % 3] * m[6 + (j + 2) % 3] - m[3 + (j + 2) % 3] * m[6 + (j + 1) % 3]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[3 * j + i] = (m[3 * ((i + 1) % 3) + (j + 1) % 3] * m[3 * ((i + 2) % 3) + (j + 2) % 3] - m[3 * ((i + 1) % 3) + (j + 2) % 3] * m[3 * ((i + 2) % 3) + (j + 1) % 3]) / d;
}
static double lim(double x) { return x < 0 ? 0 : x > 100 ? 100 : x; }
static white_point *d50() { white_point_presets p; return p.D50_2Degree(); }
// P44: what adaptation keeps
extern "C" void P44_kept() {
  rgb_def *s = srgb(); white_point *w = d50(), *ow = s->get_white_point(); matrix<float> om = s->get_transform_matrix();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NA; ++k) CASE(tname(t), an[k], "", [&] {
    color_base *c = symc(t, "c", s); Snap n = snap(c); color_base *r = adapt(k, c, w); ai_true(r != nullptr, "there is a result"); if (!r) return;
    ai_true(r->get_color_type() == (color_type)t && (int)r->get_component_vector().size() == ncomp(t), "the result has the type of the input"); ai_eq(alpha01(r), alpha01(c), istrue(t) ? 3e-3 : 1e-5, "the result has the opacity of the input");
    for (int i = 0; i < ncomp(t); ++i) ai_in(r->get_component(i), clo(t, i), cmax(t, i), "components of the result are in range");
    rgb_def *d = r->get_rgb_color_space(); ai_peq(d->get_white_point(), w, "the working space of the result has the target white"); ai_peq(d->get_gamma_curve(), s->get_gamma_curve(), "the working space of the result has the same gamma");
    ai_true(d->get_red_chromaticity_coordinate() == s->get_red_chromaticity_coordinate() && d->get_green_chromaticity_coordinate() == s->get_green_chromaticity_coordinate() && d->get_blue_chromaticity_coordinate() == s->get_blue_chromaticity_coordinate(), "the working space of the result has the same primaries");
    matrix<float> m = d->get_transform_matrix(); std::array<float, 3> x = w->get_tristimulus(); for (int i = 0; i < 3; ++i) ai_eq((double)m(i, 0) + m(i, 1) + m(i, 2), x[i], 1e-4, "the matrix of the working space has the target white");
    unchanged(n, c, "the input is unchanged"); ai_peq(s->get_white_point(), ow, "the working space of the input is unchanged"); ai_true(s->get_transform_matrix() == om, "the working space of the input is unchanged");
  });
}
extern "C" void P44_same() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NA; ++k) {
    CASE(tname(t), an[k], "to an equal white", [&] {
      white_point *w = new white_point(*s->get_white_point()); color_base *c = symc(t, "c", s), *e = symc(t, "c", s); Snap n = snap(c); color_base *r = adapt(k, c, w); ai_true(r != nullptr, "there is a result"); if (!r) return;
      ai_peq(r->get_rgb_color_space()->get_white_point(), w, "the working space of the result has the target white"); ai_peq(c->get_rgb_color_space()->get_white_point(), s->get_white_point(), "the working space of the input is unchanged"); unchanged(n, c, "the input is unchanged");
      if (t == XYZ) for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), e->get_component(i), 1e-3, "adapting to an equal white keeps the color");
    });
    CASE(tname(t), an[k], "to its own white", [&] { color_base *c = symc(t, "c", s), *e = symc(t, "c", s); same(adapt(k, c, s->get_white_point()), e, "adapting to the white a color has keeps it"); });
    if (t != XYZ) CASE(tname(t), an[k], "black", [&] {
      float v[4] = {0, 0, 0, t == CMYK ? 1.f : 0.f}; if (ishue(t, 0)) v[0] = ai_sym("hue", 0, 359); color_base *r = adapt(k, mkc(t, v, 1, s), d50()); color_base *x = conv(r, XYZ); for (int i = 0; i < 3; ++i) ai_eq(x->get_component(i), 0, 1e-3, "black stays black");
    });
    else CASE(tname(t), an[k], "black", [&] { float v[3] = {0, 0, 0}; color_base *r = adapt(k, mkc(t, v, 1, s), d50()); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), 0, 1e-3, "black stays black"); });
  }
}
static const double wmin = 0.8, wmax = 1.1;
static white_point *anyw(float *v) { v[0] = ai_sym("white X", 0.2, 2); v[1] = ai_sym("white Y", 0.2, 2); v[2] = ai_sym("white Z", 0.1, 2); return new white_point(v[0], v[1], v[2]); }
static white_point *symw(float *v) { v[0] = ai_sym("white X", 0.9, 1.1); v[1] = 1; v[2] = ai_sym("white Z", 0.6, 1.2); return new white_point(v[0], v[1], v[2]); }
// P45: what adaptation computes
extern "C" void P45_linear() {
  rgb_def *s = srgb();
  for (int k = 0; k < BF; ++k) {
    CASE(an[k], "white", "", [&] { float t[3]; white_point *w = symw(t); std::array<float, 3> o = s->get_white_point()->get_tristimulus(); color_base *r = adapt(k, mkc(XYZ, o.data(), 1, s), w); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), t[i], 1e-3, "white becomes the target white"); });
    for (int any = 0; any < 2; ++any) CASE(an[k], "colors", any ? "any white" : "", [&] {
      float t[3], v[3]; white_point *w = any ? anyw(t) : symw(t); std::array<float, 3> o = s->get_white_point()->get_tristimulus(); for (int i = 0; i < 3; ++i) v[i] = ai_symi("v", i, 0, 2); color_base *r = adapt(k, mkc(XYZ, v, 1, s), w);
      double a[3], b[3], c[3], x[3], n[9], ov[3], tv[3], vv[3]; for (int i = 0; i < 3; ++i) { ov[i] = o[i]; tv[i] = t[i]; vv[i] = v[i]; } mul(amat[k], ov, a); mul(amat[k], tv, b); mul(amat[k], vv, c); inv(amat[k], n); for (int i = 0; i < 3; ++i) c[i] = c[i] * b[i] / a[i]; mul(n, c, x);
      for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), lim(x[i]), 2e-3, "cone responses scale by the ratio of the whites");
    });
  }
}
static double degree(int k, double f, double la, double lr) {
  double d = k == C97 ? f - f / (1 + 2 * pow(la, 0.25) + la * la / 300) : k == C00 ? f * (0.08 * log10(0.5 * (la + lr)) + 0.76 - 0.45 * (la - lr) / (la + lr)) : k == C02 ? f * (1 - exp((-la - 42) / 92) / 3.6) : 1;
  return d < 0 ? 0 : d > 1 ? 1 : d;
}
static void full(int k, rgb_def *s, const float *v, const float *t, white_point *w, float f, float la, float lr, int blue) {
  color_base *r = adapt(k, mkc(XYZ, v, 1, s), w, f, la, lr); std::array<float, 3> o = s->get_white_point()->get_tristimulus();
  double a[3], b[3], c[3], x[3], n[9], ov[3], tv[3], vv[3], d = degree(k, f, la, lr); for (int i = 0; i < 3; ++i) { ov[i] = o[i] / o[1]; tv[i] = t[i] / t[1]; vv[i] = v[i]; } mul(amat[k], ov, a); mul(amat[k], tv, b); mul(amat[k], vv, c); inv(amat[k], n);
  for (int i = 0; i < 3; ++i) {
    if (i == 2 && (k == BF || k == C97)) { double p = pow(a[2] / b[2], 0.0834), y = v[1], q = c[2] / y, m = pow(q < 0 ? -q : q, p) * (d * b[2] / pow(a[2], p) + 1 - d) * y; c[2] = q < 0 ? -m : m; }
    else c[i] *= d * b[i] / a[i] + 1 - d;
  }
  mul(n, c, x); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), lim(x[i]), 2e-3, "cone responses scale by the degree of adaptation");
}
extern "C" void P45_full() {
  rgb_def *s = srgb(); static const char *fn[] = {"normal", "dim", "dark", "any surround", "any luminance"};
  for (int k = BF; k < NA; ++k) {
    CASE(an[k], "white", "", [&] { if (k != BF) return; float t[3]; white_point *w = symw(t); std::array<float, 3> o = s->get_white_point()->get_tristimulus(); color_base *r = adapt(k, mkc(XYZ, o.data(), 1, s), w); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), t[i], 1e-3, "white becomes the target white"); });
    for (int m = 0; m < 5; ++m) if (k != BF || m == 0) for (int b = 0; b < 2; ++b) if (b == 0 || k == BF || k == C97) CASE(an[k], fn[m], b ? "negative blue response" : "", [&] {
      float t[3], v[3]; white_point *w = symw(t); v[0] = ai_sym("X", 0, 2); v[1] = ai_sym("Y", 0.2, 1); v[2] = b ? ai_sym("Z", 0, 0.005) : ai_sym("Z", 0.1, 2); if (b) ai_assume(0.0389f * v[0] - 0.0685f * v[1] + 1.0296f * v[2] < -0.001f); else if (k == BF || k == C97) ai_assume(0.0389f * v[0] - 0.0685f * v[1] + 1.0296f * v[2] > 0.001f);
      float f = m == 3 ? ai_sym("f", 0, 1) : m == 1 ? 0.9f : m == 2 ? 0.8f : 1.f, la = m == 4 ? ai_sym("adapting luminance", 1, 1000) : 100, lr = m == 4 ? ai_sym("reference luminance", 1, 1000) : 100; full(k, s, v, t, w, f, la, lr, b);
    });
  }
  CASE("adapting luminance", "", "", [&] { float l = ai_sym("luminance", 0, 1000), b = ai_sym("background", 0, 100); ai_eq(A::calculate_adapting_luminance(l, b), (double)l * b / 100, 1e-2, "the adapting luminance is the part of the luminance the background reflects"); ai_eq(A::calculate_adapting_luminance(l), l, 1e-2, "the background defaults to 100"); });
}
// whites that share something with the white of the colour, but not all
extern "C" void P45_whites() {
  rgb_def *s = srgb(); static const char *wn[] = {"same X", "same Z", "same x", "same y", "other luminance"};
  for (int k = 0; k < NA; ++k) for (int j = 0; j < 5; ++j) if (j != 4 || k < BF) CASE(an[k], wn[j], "", [&] {
    white_point *o = s->get_white_point(); std::array<float, 3> e = o->get_tristimulus(); float x = ai_sym("x", 0.3, 0.4), y = ai_sym("y", 0.3, 0.4), z = ai_sym("Z", 0.6, 1.2); ai_assume(j != 2 || y < 0.32 || y > 0.34); ai_assume(j != 3 || x < 0.305 || x > 0.32); ai_assume(j > 1 || (z < 1.05 || z > 1.12));
    white_point *w = j == 0 ? new white_point(e[0], 1, z) : j == 1 ? new white_point(z, 1, e[2]) : j == 2 ? new white_point(o->get_chromaticity_x(), y) : j == 3 ? new white_point(x, o->get_chromaticity_y()) : new white_point(e[0] * 0.9f, e[1] * 0.9f, e[2] * 0.9f);
    std::array<float, 3> u = w->get_tristimulus(); float t[3] = {u[0], u[1], u[2]}, v[3] = {0.3f, 0.4f, 0.5f};
    if (k >= BF) { full(k, s, v, t, w, 1, 100, 100, 0); return; }
    color_base *r = adapt(k, mkc(XYZ, v, 1, s), w); double a[3], b[3], c[3], q[3], n[9], ov[3], tv[3], vv[3]; for (int i = 0; i < 3; ++i) { ov[i] = e[i]; tv[i] = t[i]; vv[i] = v[i]; } mul(amat[k], ov, a); mul(amat[k], tv, b); mul(amat[k], vv, c); inv(amat[k], n); for (int i = 0; i < 3; ++i) c[i] = c[i] * b[i] / a[i]; mul(n, c, q);
    for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), lim(q[i]), 2e-3, "cone responses scale by the ratio of the whites");
  });
}
extern "C" void P45_types() {
  rgb_def *s = srgb(); white_point *w = d50();
  for (int t = 0; t < NT; ++t) if (t != XYZ) for (int k = 0; k < NA; ++k) if (k == BF || k == C97 || k == C02 || k == VK) CASE(tname(t), an[k], "", [&] {
    color_base *c = symc(t, "c", s), *x = conv(c, XYZ), *e = conv(adapt(k, x, w), t), *r = adapt(k, c, w); Snap a = snap(r), b = snap(e); ai_true(a.type == b.type && a.n == b.n, "other types are adapted in xyz");
    for (int i = 0; i < b.n; ++i) { if (!ishue(t, i)) ai_eq(a.v[i], b.v[i], 1e-3, "other types are adapted in xyz"); }
  });
}
