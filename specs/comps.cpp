#include "ai.h"
// bounds a component can have at all (the generic bounds of the type)
static double bhi(int t, int i) { return t == XYY ? 100 : chi(t, i); }
static color_base *anyc(int t, const char *pre, rgb_def *s) {
  float v[4];
  for (int i = 0; i < ncomp(t); ++i) v[i] = ai_anyi(pre, i);
  float a = ai_anyi(pre, 9);
  switch (t) { // alpha in the unit of the type
  case RGB_TRUE: return new rgb_truecolor(v[0], v[1], v[2], a, s);
  case GREY_TRUE: return new grey_truecolor(v[0], a, s);
  }
  return mkc(t, v, a, s);
}
template <class F> static void types(const F &f) {
  for (int t = 0; t < NT; ++t) CASE(tname(t), "", "", [&] { f(t); });
}
static void inrange(color_base *c, int t, const char *what) {
  for (int i = 0; i < ncomp(t); ++i) ai_in(c->get_component(i), clo(t, i), bhi(t, i), what);
}
// named accessors, by index
static float getn(color_base *c, int t, int i) {
  switch (t) {
  case RGB_TRUE: { auto p = (rgb_truecolor *)c; return i == 0 ? p->red() : i == 1 ? p->green() : p->blue(); }
  case RGB_DEEP: { auto p = (rgb_deepcolor *)c; return i == 0 ? p->red() : i == 1 ? p->green() : p->blue(); }
  case GREY_TRUE: return ((grey_truecolor *)c)->grey();
  case GREY_DEEP: return ((grey_deepcolor *)c)->grey();
  case CMYK: { auto p = (cmyk *)c; return i == 0 ? p->cyan() : i == 1 ? p->magenta() : i == 2 ? p->yellow() : p->black(); }
  case HSI: { auto p = (hsi *)c; return i == 0 ? p->hue() : i == 1 ? p->saturation() : p->intensity(); }
  case HSV: { auto p = (hsv *)c; return i == 0 ? p->hue() : i == 1 ? p->saturation() : p->value(); }
  case HSL: { auto p = (hsl *)c; return i == 0 ? p->hue() : i == 1 ? p->saturation() : p->lightness(); }
  case HCY: { auto p = (hcy *)c; return i == 0 ? p->hue() : i == 1 ? p->chroma() : p->luma(); }
  case XYZ: { auto p = (xyz *)c; return i == 0 ? p->x() : i == 1 ? p->y() : p->z(); }
  case XYY: { auto p = (xyy *)c; return i == 0 ? p->x() : i == 1 ? p->y() : p->Y(); }
  case CIELUV: { auto p = (cieluv *)c; return i == 0 ? p->L() : i == 1 ? p->u() : p->v(); }
  case LAB: { auto p = (lab *)c; return i == 0 ? p->luminance() : i == 1 ? p->a() : p->b(); }
  case LCH_AB: { auto p = (lch_ab *)c; return i == 0 ? p->luminance() : i == 1 ? p->chroma() : p->hue(); }
  case LCH_UV: { auto p = (lch_uv *)c; return i == 0 ? p->luminance() : i == 1 ? p->chroma() : p->hue(); }
  }
  return 0;
}
static void setn(color_base *c, int t, int i, float v) {
#define S3(T, A, B, C) { auto p = (T *)c; if (i == 0) p->A(v); else if (i == 1) p->B(v); else p->C(v); break; }
  switch (t) {
  case RGB_TRUE: S3(rgb_truecolor, red, green, blue)
  case RGB_DEEP: S3(rgb_deepcolor, red, green, blue)
  case GREY_TRUE: ((grey_truecolor *)c)->grey(v); break;
  case GREY_DEEP: ((grey_deepcolor *)c)->grey(v); break;
  case CMYK: { auto p = (cmyk *)c; if (i == 0) p->cyan(v); else if (i == 1) p->magenta(v); else if (i == 2) p->yellow(v); else p->black(v); break; }
  case HSI: S3(hsi, hue, saturation, intensity)
  case HSV: S3(hsv, hue, saturation, value)
  case HSL: S3(hsl, hue, saturation, lightness)
  case HCY: S3(hcy, hue, chroma, luma)
  case XYZ: S3(xyz, x, y, z)
  case XYY: S3(xyy, x, y, Y)
  case CIELUV: S3(cieluv, L, u, v)
  case LAB: S3(lab, luminance, a, b)
  case LCH_AB: S3(lch_ab, luminance, chroma, hue)
  case LCH_UV: S3(lch_uv, luminance, chroma, hue)
  }
#undef S3
}
// P05: components never leave their range, whatever is stored
extern "C" void P05_range() {
  rgb_def *s = srgb();
  types([&](int t) {
    CASE("constructor", "", "", [&] { inrange(anyc(t, "c", s), t, "components are in range after construction"); });
    for (int i = 0; i < ncomp(t); ++i) {
      CASE("named setter", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] { color_base *c = symc(t, "c", s); setn(c, t, i, ai_any("v")); inrange(c, t, "components are in range after a named setter"); });
      CASE("set_component", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] {
        color_base *c = symc(t, "c", s); c->set_component(ai_any("v"), i);
        for (int k = 0; k < ncomp(t); ++k) ai_in(c->get_component(k), k == i ? c->get_component_min() : clo(t, k), k == i ? c->get_component_max() : bhi(t, k), "components are in range after an indexed set"); });
      CASE("set_component with bounds", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] {
        color_base *c = symc(t, "c", s); c->set_component(ai_any("v"), i, 0.75f, 0.25f);
        ai_in(c->get_component(i), 0.25, 0.75, "an indexed set with explicit bounds respects them"); });
    }
    CASE("sum", "", "", [&] { color_base *a = symc(t, "a", s), *b = symc(t, "b", s); color_base r = *a + *b; 
        for (int k = 0; k < ncomp(t); ++k) ai_in(r.get_component(k), a->get_component_min(), a->get_component_max(), "components are in range after adding"); });
    CASE("gamma", "", "", [&] { color_base *a = symc(t, "a", s); a->do_gamma_correction(); 
        for (int k = 0; k < ncomp(t); ++k) ai_in(a->get_component(k), a->get_component_min(), a->get_component_max(), "components are in range after gamma correction"); });
    CASE("inverse gamma", "", "", [&] { color_base *a = symc(t, "a", s); a->do_inverse_gamma_correction(); 
        for (int k = 0; k < ncomp(t); ++k) ai_in(a->get_component(k), a->get_component_min(), a->get_component_max(), "components are in range after inverse gamma correction"); });
    CASE("premultiply", "", "", [&] { color_base *a = symc(t, "a", s); a->alpha_multiply(); inrange(a, t, "components are in range after multiplying by opacity"); });
    CASE("unpremultiply", "", "", [&] { color_base *a = symc(t, "a", s); a->alpha_multiply(); a->alpha_divide(); inrange(a, t, "components are in range after dividing by opacity"); });
  });
  CASE("rgb_true", "uniform constructor", "", [&] { rgb_truecolor c(ai_any("v"), ai_any("a"), s); inrange(&c, RGB_TRUE, "components are in range after construction"); });
  CASE("rgb_deep", "uniform constructor", "", [&] { rgb_deepcolor c(ai_any("v"), ai_any("a"), s); inrange(&c, RGB_DEEP, "components are in range after construction"); });
}
extern "C" void P05_conversions() {
  rgb_def *s = srgb();
  for (int a = 0; a < NT; ++a)
    CASE("convert from", tname(a), "", [&] { for (int b = 0; b < NT; ++b) if (a != b) CASE("to", tname(b), "", [&] {
      color_base *r = color_converter::convertTo(symc(a, "c", s), (color_type)b);
      if (r) inrange(r, b, "components are in range after a conversion");
      color_base *f = symc(b, "f", s);
      if (r) { ai_eq(r->get_component_min(), f->get_component_min(), 1e-6, "the bounds of a converted colour are those of its type"); ai_eq(r->get_component_max(), f->get_component_max(), 1e-6, "the bounds of a converted colour are those of its type"); }
    }); });
}
// P06: opacity never leaves its range
extern "C" void P06_alpha() {
  rgb_def *s = srgb();
  types([&](int t) {
    double m = istrue(t) ? 255 : 1;
    CASE("constructor", "", "", [&] { ai_in(anyc(t, "c", s)->alpha(), 0, m, "opacity is in range after construction"); });
    CASE("setter", "", "", [&] { color_base *c = symc(t, "c", s); c->alpha(ai_any("v")); ai_in(c->alpha(), 0, m, "opacity is in range after setting it"); });
    CASE("value", "", "", [&] { color_base *c = symc(t, "c", s); float v = ai_sym("v", 0, m); c->alpha(v); ai_eq(c->alpha(), v, 1e-4, "an in-range opacity is stored as given"); });
    CASE("given", "", "", [&] { color_base *c = symc(t, "c", s); ai_eq(c->alpha(), ai_symi("c", 9, 0, 1) * m, 1e-4, "the opacity given to the constructor is reported"); });
    CASE("clamped", "", "", [&] { color_base *c = symc(t, "c", s); c->alpha(ai_sym("v", m, m * 1000)); ai_eq(c->alpha(), m, 1e-4, "too large an opacity is clamped to opaque"); c->alpha(ai_sym("v2", -m * 1000, 0)); ai_eq(c->alpha(), 0, 1e-4, "a negative opacity is clamped to transparent"); });
  });
  CASE("rgb_true", "uniform constructor", "", [&] { float a = ai_sym("a", 0, 255); rgb_truecolor c(ai_sym("v", 0, 255), a, s); ai_eq(c.alpha(), a, 1e-4, "the opacity given to the constructor is reported"); });
  CASE("rgb_deep", "uniform constructor", "", [&] { float a = ai_sym("a", 0, 1); rgb_deepcolor c(ai_sym("v", 0, 1), a, s); ai_eq(c.alpha(), a, 1e-4, "the opacity given to the constructor is reported"); });
}
// P07: constructor arguments, named accessors, indexed access and the component vector agree
extern "C" void P07_access() {
  rgb_def *s = srgb();
  types([&](int t) {
    CASE("constructor order", "", "", [&] {
      color_base *c = symc(t, "c", s);
      ai_true(c->get_color_type() == t, "the type is reported"); ai_true((int)c->get_component_vector().size() == ncomp(t), "component count"); ai_peq(c->get_rgb_color_space(), s, "the working space is stored");
      for (int i = 0; i < ncomp(t); ++i) {
        float v = ai_symi("c", i, clo(t, i), chi(t, i));
        ai_eq(c->get_component(i), v, 1e-4, "indexed read gives the constructor argument");
        ai_eq(c->get_component_vector()[i], v, 1e-4, "the component vector gives the constructor argument");
        ai_eq(getn(c, t, i), v, 1e-4, "the named getter gives the constructor argument");
      }
    });
    for (int i = 0; i < ncomp(t); ++i)
      CASE("named setter", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] {
        color_base *c = symc(t, "c", s); Snap o = snap(c);
        float v = ai_sym("v", clo(t, i), chi(t, i));
        setn(c, t, i, v);
        for (int k = 0; k < ncomp(t); ++k) ai_eq(c->get_component(k), k == i ? v : o.v[k], 1e-4, k == i ? "a named setter stores an in-range value" : "a named setter leaves the other components alone");
        ai_eq(c->alpha(), o.a, 1e-4, "a named setter leaves the opacity alone"); ai_true(c->get_color_type() == t, "a named setter leaves the type alone"); ai_peq(c->get_rgb_color_space(), s, "a named setter leaves the working space alone");
      });
    for (int i = 0; i < ncomp(t); ++i) if (!ishue(t, i))
      CASE("named setter beyond the range", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] {
        color_base *c = symc(t, "c", s); Snap o = snap(c); float lo = clo(t, i), hi = cmax(t, i), v = ai_sym("v", lo - 1000, hi + 1000); setn(c, t, i, v);
        for (int k = 0; k < ncomp(t); ++k) ai_eq(c->get_component(k), k == i ? v < lo ? lo : v > hi ? hi : v : o.v[k], 1e-4, k == i ? "a named setter limits values beyond the range" : "a named setter leaves the other components alone");
      });
    for (int i = 0; i < ncomp(t); ++i)
      CASE("set_component", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] {
        color_base *c = symc(t, "c", s); Snap o = snap(c);
        float v = ai_sym("v", c->get_component_min(), c->get_component_max());
        c->set_component(v, i);
        for (int k = 0; k < ncomp(t); ++k) ai_eq(c->get_component(k), k == i ? v : o.v[k], 1e-4, k == i ? "an indexed set stores an in-range value" : "an indexed set leaves the other components alone");
        ai_eq(c->alpha(), o.a, 1e-4, "an indexed set leaves the opacity alone");
      });
    CASE("working space", "", "", [&] { color_base *c = symc(t, "c", s); Snap o = snap(c); rgb_def *n = adobe(); c->set_rgb_color_space(n); ai_peq(c->get_rgb_color_space(), n, "a new working space is stored"); c->set_rgb_color_space(s); unchanged(o, c, "setting the working space changes nothing else"); });
    CASE("opacity", "", "", [&] { color_base *c = symc(t, "c", s); Snap o = snap(c); c->alpha(ai_sym("v", 0, 1)); c->alpha(o.a); unchanged(o, c, "setting the opacity changes nothing else"); });
  });
  CASE("uniform constructors", "", "", [&] {
    float v = ai_sym("v", 0, 255), w = ai_sym("w", 0, 1); rgb_truecolor a(v, 255.f, s); rgb_deepcolor b(w, 1.f, s);
    for (int i = 0; i < 3; ++i) { ai_eq(a.get_component(i), v, 1e-4, "a uniform value reaches every channel"); ai_eq(b.get_component(i), w, 1e-4, "a uniform value reaches every channel"); }
    ai_true(a.get_color_type() == RGB_TRUE && b.get_color_type() == RGB_DEEP, "the type is reported");
    ai_peq(a.get_rgb_color_space(), s, "the working space is stored"); ai_peq(b.get_rgb_color_space(), s, "the working space is stored");
  });
}
// P08: copies and assignments
static color_base *copyof(const color_base *c, int t, bool base) {
#define CC(K, T) case K: return base ? new T(*c) : new T(*(const T *)c);
  switch (t) {
  CC(RGB_TRUE, rgb_truecolor) CC(RGB_DEEP, rgb_deepcolor) CC(GREY_TRUE, grey_truecolor) CC(GREY_DEEP, grey_deepcolor) CC(CMYK, cmyk) CC(HSI, hsi) CC(HSV, hsv) CC(HSL, hsl)
  CC(HCY, hcy) CC(XYZ, xyz) CC(XYY, xyy) CC(CIELUV, cieluv) CC(LAB, lab) CC(LCH_AB, lch_ab) CC(LCH_UV, lch_uv)
  }
#undef CC
  return nullptr;
}
static void assign(color_base *d, const color_base *c, int t) {
#define CC(K, T) case K: *(T *)d = *(const T *)c; break;
  switch (t) {
  CC(RGB_TRUE, rgb_truecolor) CC(RGB_DEEP, rgb_deepcolor) CC(GREY_TRUE, grey_truecolor) CC(GREY_DEEP, grey_deepcolor) CC(CMYK, cmyk) CC(HSI, hsi) CC(HSV, hsv) CC(HSL, hsl)
  CC(HCY, hcy) CC(XYZ, xyz) CC(XYY, xyy) CC(CIELUV, cieluv) CC(LAB, lab) CC(LCH_AB, lch_ab) CC(LCH_UV, lch_uv)
  }
#undef CC
}
static void samecolor(color_base *r, const Snap &o, const char *what) {
  unchanged(o, r, what);
}
extern "C" void P08_copy() {
  rgb_def *s = srgb();
  types([&](int t) {
    for (int base = 0; base < 2; ++base)
      CASE(base ? "from the common interface" : "copy", "", "", [&] {
        color_base *c = symc(t, "c", s); Snap o = snap(c);
        color_base *r = copyof(c, t, base);
        samecolor(r, o, "a copy has the type, components, opacity and working space of the original");
        ai_eq(r->get_component_max(), c->get_component_max(), 1e-6, "a copy has the bounds of the original"); ai_eq(r->get_component_min(), c->get_component_min(), 1e-6, "a copy has the bounds of the original");
        ai_true(*r == *c, "a copy equals the original");
        r->set_component(0.25f, 0); r->alpha(0.5f);
        unchanged(o, c, "the original is independent of the copy");
      });
    CASE("from a plain colour", "", "", [&] { // a colour held by value as the common base: the result of a sum, a colour returned by value
      color_base *c = symc(t, "c", s); Snap o = snap(c); color_base plain = *c; color_base *r = copyof(&plain, t, true);
      samecolor(r, o, "a colour made of a plain colour has the type, components, opacity and working space of the original");
      color_base *a = symc(t, "a", s); color_base sum = *c + *a; color_base *k = copyof(&sum, t, true);
      ai_eq(alpha01(k), alpha01(c), 1e-5, "a colour made of a sum has the opacity of the sum");
      assign(c, copyof(&sum, t, true), t); ai_eq(alpha01(c), alpha01(k), 1e-5, "a colour assigned a sum has the opacity of the sum");
    });
    for (int base = 0; base < 2; ++base) CASE(base ? "assignment through the common interface" : "assignment", "", "", [&] {
      color_base *c = symc(t, "c", s), *d = symc(t, "d", adobe()); Snap o = snap(c);
      if (base) *d = *c; else assign(d, c, t);
      ai_true(d->get_color_type() == t, "assignment keeps the type");
      ai_true((int)d->get_component_vector().size() == ncomp(t), "assignment copies the components");
      for (int i = 0; i < ncomp(t); ++i) ai_eq(d->get_component(i), o.v[i], 1e-4, "assignment copies the components");
      unchanged(o, d, "the assigned colour has the components, opacity and working space of its source");
      ai_eq(d->get_component_max(), c->get_component_max(), 1e-6, "the assigned colour has the bounds of its source"); ai_eq(d->get_component_min(), c->get_component_min(), 1e-6, "the assigned colour has the bounds of its source");
      ai_true(*d == *c, "the assigned colour equals its source");
      unchanged(o, c, "assignment leaves its source alone");
      if (base) *c = *c; else assign(c, c, t);
      unchanged(o, c, "self assignment changes nothing");
      d->set_component(0.25f, 0); d->alpha(0.5f); d->set_rgb_color_space(adobe());
      unchanged(o, c, "the source is independent of the assigned colour");
    });
    for (int u = 0; u < NT; ++u) if (u != t)
      CASE("from the common interface of", tname(u), "", [&] { ai_expect_throw(""); copyof(symc(u, "c", s), t, true); });
  });
}
// P09: equality
extern "C" void P09_equal() {
  rgb_def *s = srgb();
  types([&](int t) {
    CASE("reflexive", "", "", [&] { color_base *c = symc(t, "c", s), *d = symc(t, "c", s); ai_true(*c == *c && *c == *d && *d == *c, "a colour equals a colour with the same components"); ai_true(!(*c != *d), "inequality is the negation of equality"); });
    for (int i = 0; i < ncomp(t); ++i)
      CASE("component differs", i == 0 ? "0" : i == 1 ? "1" : i == 2 ? "2" : "3", "", [&] {
        float v[4], w[4];
        for (int k = 0; k < ncomp(t); ++k) w[k] = v[k] = ai_symi("c", k, clo(t, k), chi(t, k));
        w[i] = ai_sym("w", clo(t, i), chi(t, i));
        ai_assume(v[i] != w[i]);
        color_base *c = mkc(t, v, 1, s), *d = mkc(t, w, 1, s);
        ai_true(!(*c == *d) && !(*d == *c), "colours differing in one component are unequal"); ai_true(*c != *d, "inequality is the negation of equality");
      });
    for (int u = 0; u < NT; ++u) if (u != t)
      CASE("other type", tname(u), "", [&] { color_base *c = symc(t, "c", s), *d = symc(u, "d", s); ai_true(!(*c == *d), "colours of different types are unequal"); ai_true(*c != *d, "inequality is the negation of equality"); });
  });
}
// P10: hue is an angle
extern "C" void P10_hue() {
  rgb_def *s = srgb();
  int ts[] = {HSI, HSV, HSL, HCY};
  for (int k = 0; k < 4; ++k) {
    int t = ts[k];
    CASE(tname(t), "hue", "", [&] {
      CASE("turns", "", "", [&] { for (int n = -3; n <= 3; ++n) { float h = ai_sym("h", 0, 359); color_base *c = symc(t, "c", s); setn(c, t, 0, h + 360.f * n); ai_eq(c->get_component(0), h, 1e-2, "a hue shifted by whole turns is the same hue"); } });
      CASE("any", "", "", [&] { color_base *c = symc(t, "c", s); setn(c, t, 0, ai_sym("h", -100000, 100000)); ai_in(c->get_component(0), 0, 360, "hue is normalised to one turn"); });
      CASE("just below whole turns", "", "", [&] { for (int n = -2; n <= 2; ++n) { float x = 360.f * n - ai_sym("x", 0.001, 1), v[3] = {x, ai_sym("s", 0, 1), ai_sym("v", 0, 1)}; color_base *c = symc(t, "c", s); setn(c, t, 0, x); ai_in(c->get_component(0), 358.9, 360, "a hue just below whole turns is at the end of the range"); ai_in(mkc(t, v, 1, s)->get_component(0), 358.9, 360, "a hue just below whole turns is at the end of the range"); } });
      CASE("constructor", "", "", [&] { for (int n = -2; n <= 2; ++n) { float v[3] = {ai_sym("h", 0, 359) + 360.f * n, ai_sym("s", 0, 1), ai_sym("v", 0, 1)}; color_base *c = mkc(t, v, 1, s); ai_eq(c->get_component(0), v[0] - 360.f * n, 1e-2, "a hue shifted by whole turns is the same hue"); } });
    });
  }
}
// P11: indices outside the components are rejected
extern "C" void P11_index() {
  rgb_def *s = srgb();
  types([&](int t) {
    CASE("read above", "", "", [&] { ai_expect_throw(""); symc(t, "c", s)->get_component(ai_int("i", ncomp(t), 1000)); });
    CASE("read below", "", "", [&] { ai_expect_throw(""); symc(t, "c", s)->get_component(ai_int("i", -1000, -1)); });
    CASE("write above", "", "", [&] { ai_expect_throw(""); symc(t, "c", s)->set_component(ai_any("v"), ai_int("i", ncomp(t), 1000)); });
    CASE("write below", "", "", [&] { ai_expect_throw(""); symc(t, "c", s)->set_component(ai_any("v"), ai_int("i", -1000, -1)); });
    CASE("write with bounds above", "", "", [&] { ai_expect_throw(""); symc(t, "c", s)->set_component(ai_any("v"), ai_int("i", ncomp(t), 1000), 1, 0); });
    CASE("write with bounds below", "", "", [&] { ai_expect_throw(""); symc(t, "c", s)->set_component(ai_any("v"), ai_int("i", -1000, -1), 1, 0); });
  });
}
// P12: packed 0xAARRGGBB codes
extern "C" void P12_packed() {
  rgb_def *s = srgb();
  CASE("fields", "", "", [&] {
    int a = ai_int("a", 0, 255), r = ai_int("r", 0, 255), g = ai_int("g", 0, 255), b = ai_int("b", 0, 255);
    unsigned u = (((unsigned)a * 256u + (unsigned)r) * 256u + (unsigned)g) * 256u + (unsigned)b;
    rgb_truecolor c((int)u, s);
    ai_eq(c.red(), r, 1e-3, "red is bits 16..23"); ai_eq(c.green(), g, 1e-3, "green is bits 8..15"); ai_eq(c.blue(), b, 1e-3, "blue is bits 0..7"); ai_eq(c.alpha(), a, 1e-2, "alpha is bits 24..31");
    ai_true(c.get_color_type() == RGB_TRUE, "type"); ai_peq(c.get_rgb_color_space(), s, "working space");
  });
  CASE("bounds", "", "", [&] {
    rgb_truecolor c(ai_int("code", -2147483648., 2147483647.), s);
    ai_eq(c.get_component_min(), 0, 1e-6, "the bounds are those of 8 bit colours"); ai_eq(c.get_component_max(), 255, 1e-6, "the bounds are those of 8 bit colours"); ai_true((int)c.get_component_vector().size() == 3, "component count");
    float v = ai_any("v"); c.red(v); c.green(v); c.blue(v); c.set_component(v, 1); c.alpha(v); inrange(&c, RGB_TRUE, "components set later stay in range"); ai_in(c.alpha(), 0, 255, "opacity set later stays in range");
  });
}
