#include "ai.h"
// additions to ai.h used by the calculation properties
#define TYPES(X) X(RGB_TRUE, rgb_truecolor, rgb_true) X(RGB_DEEP, rgb_deepcolor, rgb_deep) X(GREY_TRUE, grey_truecolor, grey_true) X(GREY_DEEP, grey_deepcolor, grey_deep) \
  X(CMYK, cmyk, cmyk) X(HSI, hsi, hsi) X(HSV, hsv, hsv) X(HSL, hsl, hsl) X(HCY, hcy, hcy) X(XYZ, xyz, xyz) X(XYY, xyy, xyy) X(CIELUV, cieluv, cieluv) X(LAB, lab, lab) X(LCH_AB, lch_ab, lch_ab) X(LCH_UV, lch_uv, lch_uv)
typedef color_calculation C;
static color_base *conv(color_base *c, int t) {
#define X(K, T, N) case K: return color_converter::to_##N(c);
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
// the overload for one colour type
static color_base *tadd(int t, color_base *a, color_base *b, float w1, float w2, bool al) {
#define X(K, T, N) case K: return C::add((T *)a, (T *)b, w1, w2, al);
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
static color_base *tmix(int t, color_base *a, color_base *b, float w, bool al) {
#define X(K, T, N) case K: return C::mix((T *)a, (T *)b, w, al);
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
static color_base *tsub(int t, color_base *a, color_base *b, float w, bool al) {
#define X(K, T, N) case K: return C::subtract((T *)a, (T *)b, w, al);
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
static color_base *avg(int t, const std::vector<color_base *> &v, bool al) {
#define X(K, T, N) case K: { std::vector<T *> w; for (auto *c : v) w.push_back((T *)c); return C::average_##N(w, al); }
  switch (t) { TYPES(X) }
#undef X
  return nullptr;
}
template <class F> static void types(const F &f) { for (int t = 0; t < NT; ++t) CASE(tname(t), "", "", [&] { f(t); }); }
template <class F> static void alphas(const F &f) { CASE("with opacity", "", "", [&] { f(true); }); CASE("without opacity", "", "", [&] { f(false); }); }
static int family(int t) { // 0 power mean, 1 linear, 2 polar, 3 through hsv, 4 through xyz
  switch (t) {
  case RGB_TRUE: case RGB_DEEP: return 0;
  case HSV: return 2;
  case HSI: case HSL: case HCY: return 3;
  case LAB: case LCH_AB: case LCH_UV: return 4;
  }
  return 1;
}
static float lim(float v, float lo, float hi) { return v < lo ? lo : v > hi ? hi : v; }
static float amax(int t) { return istrue(t) ? 255.f : 1.f; }
static color_base *polar(hsv *a, hsv *b, float w1, float w2, float alpha) {
  const float k = 3.14159265358979f / 180.f;
  float x = w1 * cosf(a->hue() * k) * a->saturation() + w2 * cosf(b->hue() * k) * b->saturation();
  float y = w1 * sinf(a->hue() * k) * a->saturation() + w2 * sinf(b->hue() * k) * b->saturation();
  return new hsv(atan2f(y, x) / k, sqrtf(x * x + y * y), w1 * a->value() + w2 * b->value(), alpha, a->get_rgb_color_space());
}
static color_base *through(int t, color_base *a, color_base *b, float w1, float w2, bool al, int how) {
  int via = family(t) == 3 ? HSV : XYZ;
  return conv(how == 2 ? tsub(via, conv(a, via), conv(b, via), w2, al) : tadd(via, conv(a, via), conv(b, via), w1, w2, al), t);
}
static void meta(color_base *r, int t, rgb_def *s) {
  ai_true(r != nullptr, "a colour is returned");
  if (!r) return;
  ai_true(r->get_color_type() == t, "the result has the type of the first colour"); ai_peq(r->get_rgb_color_space(), s, "the result is in the working space of the first colour");
}
static void sum(int t, color_base *r, color_base *a, color_base *b, float w1, float w2, bool al, int how) {
  Snap p = snap(a), q = snap(b);
  meta(r, t, p.s);
  if (!r) return;
  int f = family(t);
  if (f >= 3) return same(r, through(t, a, b, w1, w2, al, how), "the result is computed in the underlying vector space");
  float sg = how == 2 ? -1.f : 1.f;
  float ea;
  if (f == 0 && how != 2) ea = lim(sqrtf(w1 * p.a * p.a + w2 * q.a * q.a), 0, amax(t)); else ea = lim(w1 * p.a + sg * w2 * q.a, 0, amax(t));
  if (!al) ea = p.a;
  ai_eq(r->alpha(), ea, 1e-3, al ? "opacity follows the components' rule" : "opacity is that of the first colour");
  if (f == 2) { color_base *e = polar((hsv *)a, (hsv *)b, w1, sg * w2, ea); for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), e->get_component(i), 1e-2, "hue and saturation combine as vectors"); return; }
  for (int i = 0; i < p.n; ++i) {
    float e = f == 0 && how != 2 ? sqrtf(w1 * p.v[i] * p.v[i] + w2 * q.v[i] * q.v[i]) : w1 * p.v[i] + sg * w2 * q.v[i];
    ai_eq(r->get_component(i), lim(e, clo(t, i), cmax(t, i)), 1e-3, how == 2 ? "the weighted second colour is subtracted, limited to the range" : "components combine by the weights, limited to the range");
  }
}
// P13: addition
extern "C" void P13_add() {
  rgb_def *s = srgb();
  types([&](int t) { alphas([&](bool al) {
    for (int how = 0; how < 2; ++how) CASE(how ? "any types" : "same type", "", "", [&] {
      color_base *a = symc(t, "a", s), *b = symc(t, "b", s); float w1 = ai_sym("w1", 0, 1), w2 = ai_sym("w2", 0, 1);
      sum(t, how ? C::add(a, b, w1, w2, al) : tadd(t, a, b, w1, w2, al), a, b, w1, w2, al, 0);
    });
  }); });
}
// P14: mixing
extern "C" void P14_mix() {
  rgb_def *s = srgb();
  types([&](int t) { alphas([&](bool al) {
    for (int how = 0; how < 2; ++how) CASE(how ? "any types" : "same type", "", "", [&] {
      color_base *a = symc(t, "a", s), *b = symc(t, "b", s); float w = ai_sym("w", 0, 1);
      sum(t, how ? C::mix(a, b, w, al) : tmix(t, a, b, w, al), a, b, w, 1.f - w, al, 1);
    });
  });
  CASE("with itself", "", "", [&] { if (family(t) > 1) return; color_base *a = symc(t, "a", s); Snap o = snap(a); float w = ai_sym("w", 0, 1); color_base *r = tmix(t, a, a, w, true); for (int i = 0; i < o.n; ++i) ai_eq(r->get_component(i), o.v[i], 1e-3, "mixing a colour with itself gives the colour"); ai_eq(r->alpha(), o.a, 1e-3, "mixing a colour with itself gives the colour"); });
  });
}
// P15: subtraction
extern "C" void P15_subtract() {
  rgb_def *s = srgb();
  types([&](int t) { alphas([&](bool al) {
    for (int how = 0; how < 2; ++how) CASE(how ? "any types" : "same type", "", "", [&] {
      color_base *a = symc(t, "a", s), *b = symc(t, "b", s); float w = ai_sym("w", 0, 1);
      sum(t, how ? C::subtract(a, b, w, al) : tsub(t, a, b, w, al), a, b, 1, w, al, 2);
    });
  }); });
}
// P16: averages
extern "C" void P16_average() {
  rgb_def *s = srgb(), *s2 = adobe();
  types([&](int t) {
    static const char *nn[] = {"1", "2", "3", "4", "5", "6", "9", "17", "32", "101"}; static const int cn[] = {1, 2, 3, 4, 5, 6, 9, 17, 32, 101}; static char pre[101][3];
    for (int k = 0; k < 101; ++k) { pre[k][0] = 'a' + k % 26; pre[k][1] = k < 26 ? 0 : 'a' + k / 26; pre[k][2] = 0; }
    for (int j = 0; j < 10; ++j) for (int al = 0; al < 2; ++al) CASE(nn[j], al ? "with opacity" : "without opacity", "", [&] {
      int n = cn[j]; std::vector<color_base *> v; std::vector<Snap> o;
      for (int k = 0; k < n; ++k) { v.push_back(symc(t, pre[k], k % 2 ? s2 : s)); o.push_back(snap(v[k])); }
      color_base *r = avg(t, v, al);
      meta(r, t, s);
      float sum[5] = {0, 0, 0, 0, 0}, sa = 0;
      for (int k = 0; k < n; ++k) { for (int i = 0; i < ncomp(t); ++i) sum[i] += o[k].v[i]; sa += o[k].a; }
      for (int i = 0; i < ncomp(t); ++i) ai_eq(r->get_component(i), sum[i] / n, 1e-3, "each component is the mean");
      ai_eq(r->alpha(), al ? sa / n : o[0].a, 1e-3, al ? "opacity is the mean" : "opacity is that of the first colour");
      for (int k = 0; k < n; ++k) unchanged(o[k], v[k], "the inputs are unchanged");
    });
    for (int al = 0; al < 2; ++al) CASE("0", al ? "with opacity" : "without opacity", "", [&] { ai_expect_throw(""); avg(t, std::vector<color_base *>(), al); });
  });
}
// P17: weights outside [0,1] are rejected, all others accepted
extern "C" void P17_weights() {
  rgb_def *s = srgb();
  types([&](int t) {
    for (int d = 0; d < 2; ++d) CASE(d ? "any types" : "same type", "", "", [&] {
      auto A = [&] { return symc(t, "a", s); }; auto B = [&] { return symc(t, "b", s); };
      auto add = [&](float w, float x) { d ? C::add(A(), B(), w, x, true) : tadd(t, A(), B(), w, x, true); };
      auto mix = [&](float w) { d ? C::mix(A(), B(), w, true) : tmix(t, A(), B(), w, true); };
      auto sub = [&](float w) { d ? C::subtract(A(), B(), w, true) : tsub(t, A(), B(), w, true); };
      for (int k = 0; k < 2; ++k) {
        auto bad = [&] { float w = k ? ai_sym("w", 1, 1e30) : ai_sym("w", -1e30, 0); ai_assume(k ? w > 1 : w < 0); return w; };
        const char *n = k ? "above one" : "below zero";
        CASE("first weight of an addition", n, "", [&] { ai_expect_throw(""); add(bad(), ai_sym("x", 0, 1)); });
        CASE("second weight of an addition", n, "", [&] { ai_expect_throw(""); add(ai_sym("x", 0, 1), bad()); });
        CASE("weight of a mixture", n, "", [&] { ai_expect_throw(""); mix(bad()); });
        CASE("weight of a subtraction", n, "", [&] { ai_expect_throw(""); sub(bad()); });
      }
      CASE("weights of an addition", "in range", "", [&] { add(ai_sym("w", 0, 1), ai_sym("x", 0, 1)); });
      CASE("weight of a mixture", "in range", "", [&] { mix(ai_sym("w", 0, 1)); });
      CASE("weight of a subtraction", "in range", "", [&] { sub(ai_sym("w", 0, 1)); });
    });
  });
}
// P18: colours of different types
extern "C" void P18_operands() {
  rgb_def *s = srgb(), *s2 = adobe();
  types([&](int t) {
    for (int u = 0; u < NT; ++u) CASE("and", tname(u), "", [&] {
      color_base *a = symc(t, "a", s), *b = symc(u, "b", s2); float w = ai_sym("w", 0, 1), x = ai_sym("x", 0, 1);
      Snap p = snap(a), q = snap(b);
      for (int how = 0; how < 3; ++how) {
        CASE(how == 0 ? "add" : how == 1 ? "mix" : "subtract", "", "", [&] {
          color_base *r = how == 0 ? C::add(a, b, w, x, true) : how == 1 ? C::mix(a, b, w, true) : C::subtract(a, b, w, true);
          meta(r, t, s);
          unchanged(p, a, "the first colour is unchanged"); unchanged(q, b, "the second colour is unchanged");
          if (!r) return;
          ai_true((void *)r != (void *)a && (void *)r != (void *)b, "the result is a new object");
          color_base *b2 = conv(b, t);
          same(r, how == 0 ? tadd(t, a, b2, w, x, true) : how == 1 ? tmix(t, a, b2, w, true) : tsub(t, a, b2, w, true), "a second colour of another type is converted to the type of the first");
          for (int i = 0; i < ncomp(t); ++i) ai_in(r->get_component(i), clo(t, i), ishue(t, i) ? 360 : cmax(t, i), "the result is in range");
          ai_in(alpha01(r), 0, 1, "the result is in range");
        });
      }
    });
  });
}
