#include "ai.h"
template <class F> static void pairs(const F &f) {
  for (int a = 0; a < NT; ++a)
    CASE("from", tname(a), "", [&] { for (int b = 0; b < NT; ++b) CASE("to", tname(b), "", [&] { f(a, b); }); });
}
static color_base *conv(int how, color_base *c, int t) {
  if (how == 0) return color_converter::convertTo(c, (color_type)t);
  switch (t) {
  case RGB_TRUE: return color_converter::to_rgb_true(c);
  case RGB_DEEP: return color_converter::to_rgb_deep(c);
  case GREY_TRUE: return color_converter::to_grey_true(c);
  case GREY_DEEP: return color_converter::to_grey_deep(c);
  case CMYK: return color_converter::to_cmyk(c);
  case HSI: return color_converter::to_hsi(c);
  case HSV: return color_converter::to_hsv(c);
  case HSL: return color_converter::to_hsl(c);
  case HCY: return color_converter::to_hcy(c);
  case XYZ: return color_converter::to_xyz(c);
  case XYY: return color_converter::to_xyy(c);
  case CIELUV: return color_converter::to_cieluv(c);
  case LAB: return color_converter::to_lab(c);
  case LCH_AB: return color_converter::to_lch_ab(c);
  case LCH_UV: return color_converter::to_lch_uv(c);
  }
  return nullptr;
}
// P01: every ordered pair of spaces converts, through both entry points, to a colour of the asked type
extern "C" void P01_total() {
  rgb_def *s = srgb();
  pairs([&](int a, int b) {
    for (int how = 0; how < 2; ++how) {
      color_base *c = symc(a, "c", s);
      color_base *r = conv(how, c, b);
      ai_true(r != nullptr, how ? "the conversion to the named space returns a colour" : "the generic conversion returns a colour");
      if (r) {
        ai_true(r->get_color_type() == b, "result has the requested type");
        ai_true((int)r->get_component_vector().size() == ncomp(b), "result has the component count of its type");
      }
    }
  });
}
// P02: opacity survives every conversion (8 bit targets: up to rounding)
extern "C" void P02_alpha() {
  rgb_def *s = srgb();
  pairs([&](int a, int b) {
    for (int how = 0; how < 2; ++how) {
      color_base *c = symc(a, "c", s);
      float al = alpha01(c);
      color_base *r = conv(how, c, b);
      if (r) ai_eq(alpha01(r), al, istrue(b) ? 0.5 / 255 + 1e-4 : 1e-4, "opacity is preserved");
    }
  });
}
// and at the ends of the lightness scale, where branches on zero sit
extern "C" void P02_ends() {
  rgb_def *s = srgb();
  for (int w = 0; w < 3; ++w) CASE(w == 0 ? "black" : w == 1 ? "grey" : "white", "", "", [&] {
    for (int a = 0; a < NT; ++a) CASE("from", tname(a), "", [&] { for (int b = 0; b < NT; ++b) {
      float v[3]; for (int i = 0; i < 3; ++i) v[i] = 0.5f * w;
      color_base *c = color_converter::convertTo(mkc(RGB_DEEP, v, 1, s), (color_type)a); if (!c) continue;
      float al = ai_sym("alpha", 0, 1); c->alpha(istrue(a) ? al * 255.f : al);
      color_base *r = color_converter::convertTo(c, (color_type)b);
      if (r) ai_eq(alpha01(r), al, istrue(b) ? 0.5 / 255 + 1e-4 : 1e-4, "opacity is preserved");
    } });
  });
}
// P03: the result stays in the working space of the source
extern "C" void P03_space() {
  pairs([&](int a, int b) {
    for (int how = 0; how < 2; ++how) {
      rgb_def *s = how ? srgb() : adobe();
      color_base *c = symc(a, "c", s);
      color_base *r = conv(how, c, b);
      if (r) ai_peq(r->get_rgb_color_space(), s, "result keeps the working space");
    }
  });
}
// P04: conversions do not change their input and return an independent object
extern "C" void P04_pure() {
  pairs([&](int a, int b) {
    for (int how = 0; how < 2; ++how) {
      rgb_def *s = srgb();
      color_base *c = symc(a, "c", s);
      Snap o = snap(c);
      auto m0 = s->get_transform_matrix().values(), m1 = s->get_inverse_transform_matrix().values();
      white_point *w = s->get_white_point(); gamma *g = s->get_gamma_curve();
      float wx = w->get_tristimulus_x(), wy = w->get_tristimulus_y(), wz = w->get_tristimulus_z();
      color_base *r = conv(how, c, b);
      unchanged(o, c, "input colour is unchanged");
      for (int i = 0; i < 9; ++i) { ai_eq(s->get_transform_matrix().values()[i / 3][i % 3], m0[i / 3][i % 3], 1e-6, "working space is unchanged"); ai_eq(s->get_inverse_transform_matrix().values()[i / 3][i % 3], m1[i / 3][i % 3], 1e-6, "working space is unchanged"); }
      ai_peq(s->get_white_point(), w, "working space is unchanged"); ai_peq(s->get_gamma_curve(), g, "working space is unchanged");
      ai_eq(w->get_tristimulus_x(), wx, 1e-6, "working space is unchanged"); ai_eq(w->get_tristimulus_y(), wy, 1e-6, "working space is unchanged"); ai_eq(w->get_tristimulus_z(), wz, 1e-6, "working space is unchanged");
      if (r && a != b) {
        ai_true((void *)r != (void *)c, "result is a new object");
        for (int i = 0; i < ncomp(b); ++i) r->set_component(0.25f, i);
        r->alpha(0.5f);
        unchanged(o, c, "input colour is independent of the result");
      }
    }
  });
}
