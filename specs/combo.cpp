#include "ai.h"
typedef color_combinations B;
typedef std::vector<color_base *> VC;
static color_base *conv(color_base *c, int t) { return color_converter::convertTo(c, (color_type)t); }
enum { COMPL, TRIPLET, QUARTET, QUINTET, C2, C7, ANALOG, SPLIT, M0, M1, M2, NK };
static const char *kn[] = {"complimentary", "triplet", "quartet", "quintet", "combination of 2", "combination of 7", "analogous", "complimentary split", "monochromatic by saturation", "monochromatic by lightness", "monochromatic by both"};
static const int kcount[] = {1, 3, 4, 5, 2, 7, 3, 3, 4, 4, 4};
static const int kbase[] = {-1, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0};
static VC make(int k, color_base *c, float x) {
  switch (k) {
  case COMPL: { VC v; v.push_back(B::create_complimentary(c)); return v; }
  case TRIPLET: return B::create_triplet(c);
  case QUARTET: return B::create_quartet(c);
  case QUINTET: return B::create_quintet(c);
  case C2: return B::create_combination(c, 2);
  case C7: return B::create_combination(c, 7);
  case ANALOG: return B::create_analogous(c, x);
  case SPLIT: return B::create_complimentary_split(c, x);
  }
  return B::create_monochromatic(c, k - M0, x, 4);
}
static float par(int k) { return k == ANALOG || k == SPLIT ? ai_sym("distance", 1e-4, 120) : ai_sym("amount", 0, 1); }
// the hue of colour i of combination k is that of the base plus this
static double turn(int k, int i, double x) {
  switch (k) {
  case COMPL: return 180;
  case ANALOG: return i == 0 ? -x : i == 2 ? x : 0;
  case SPLIT: return i == 0 ? 180 - x : i == 2 ? 180 + x : 0;
  case M0: case M1: case M2: return 0;
  }
  return i * 360. / kcount[k];
}
// P33: combinations are sets of colours of the kind of their base colour, which is one of them
extern "C" void P33_kept() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NK; ++k) if ((k != QUINTET && k != C7 && k != M1) || t == RGB_TRUE || t == HSL || t == CMYK) CASE(tname(t), kn[k], "", [&] {
    color_base *c = symc(t, "c", s); Snap n = snap(c); VC v = make(k, c, par(k)); ai_true((int)v.size() == kcount[k], "the combination has the number of colors asked for");
    if ((int)v.size() != kcount[k]) return;
    unchanged(n, c, "the base color is unchanged");
    if (kbase[k] >= 0) { Snap b = snap(v[kbase[k]]); ai_true(b.type == n.type, "the base color is in its documented place"); for (int i = 0; i < n.n; ++i) ai_eq(b.v[i], n.v[i], 1e-6, "the base color is in its documented place"); ai_eq(b.a, n.a, 1e-6, "the base color is in its documented place"); }
    for (int i = 0; i < kcount[k]; ++i) {
      ai_true(v[i] != nullptr && v[i]->get_color_type() == (color_type)t && (int)v[i]->get_component_vector().size() == ncomp(t), "every color has the type of the base color");
      ai_peq(v[i]->get_rgb_color_space(), s, "every color is in the working space of the base color"); ai_eq(alpha01(v[i]), alpha01(c), istrue(t) ? 3e-3 : 1e-5, "every color has the opacity of the base color");
      if (i != kbase[k]) ai_true(v[i] != c, "the created colors are not the base color itself");
    }
  });
}
// sets of any size
extern "C" void P33_sizes() {
  rgb_def *s = srgb(); static const int ns[] = {9, 13, 24, 36, 72, 180, 360}, ts[] = {HSL, RGB_DEEP, CMYK, GREY_TRUE, LAB}; static const char *nn[] = {"9", "13", "24", "36", "72", "180", "360"};
  for (int m = 0; m < 2; ++m) for (int j = 0; j < 7; ++j) for (int q = 0; q < 5; ++q) if (q == 0 ? !m || j < 5 : j < (m ? 1 : 2)) CASE(tname(ts[q]), m ? "monochromatic" : "combination", nn[j], [&] {
    int t = ts[q]; color_base *c = symc(t, "c", s); Snap n = snap(c); VC v = m ? B::create_monochromatic(c, j % 3, 0.125f, ns[j]) : B::create_combination(c, ns[j]); ai_true((int)v.size() == ns[j], "the combination has the number of colors asked for"); if ((int)v.size() != ns[j]) return;
    unchanged(n, c, "the base color is unchanged"); Snap b = snap(v[0]); ai_true(b.type == n.type, "the base color is in its documented place"); for (int i = 0; i < n.n; ++i) ai_eq(b.v[i], n.v[i], 1e-6, "the base color is in its documented place");
    for (int i = 0; i < ns[j]; ++i) {
      ai_true(v[i] != nullptr && v[i]->get_color_type() == (color_type)t && (int)v[i]->get_component_vector().size() == ncomp(t), "every color has the type of the base color");
      ai_peq(v[i]->get_rgb_color_space(), s, "every color is in the working space of the base color"); ai_eq(alpha01(v[i]), alpha01(c), istrue(t) ? 3e-3 : 1e-5, "every color has the opacity of the base color");
      if (i) ai_true(v[i] != c && v[i] != v[i - 1], "the created colors are new colors");
    }
  });
}
static bool huediff(float h, double e, float tol) { // equal angles, h in 0..360
  double d = h - e; for (int i = 0; i < 3; ++i) { if (d > 180) d -= 360; if (d < -180) d += 360; } return (d < 0 ? -d : d) <= tol;
}
// P34: hues are spaced as documented, saturation and lightness follow the mode
extern "C" void P34_hsl() {
  rgb_def *s = srgb();
  for (int k = 0; k < NK; ++k) CASE("hsl", kn[k], "", [&] {
    float h = ai_sym("hue", 0, 359), sa = ai_sym("s", 0, 1), l = ai_sym("l", 0, 1), x = par(k); VC v = make(k, new hsl(h, sa, l, ai_sym("alpha", 0, 1), s), x);
    double ks = 1, kl = 1;
    for (int i = 0; i < kcount[k] && i < (int)v.size(); ++i) {
      double e = h + turn(k, i, x); ai_true(huediff(v[i]->get_component(0), e, k == SPLIT ? 2.02f : 1.01f), "the hue is turned as documented");
      ai_eq(v[i]->get_component(1), sa * ks, 1e-4, "saturation is kept or reduced by the amount"); ai_eq(v[i]->get_component(2), l * kl, 1e-4, "lightness is kept or reduced by the amount");
      if (k == M0 || k == M2) ks *= 1 - x; if (k == M1 || k == M2) kl *= 1 - x;
    }
  });
  static char cn[361][4]; // every number of colors up to 48, and some of the larger ones
  for (int n = 2; n <= 360; ++n) { char *q = cn[n]; if (n > 99) *q++ = '0' + n / 100; if (n > 9) *q++ = '0' + n / 10 % 10; *q++ = '0' + n % 10; *q = 0; }
  for (int n = 2; n <= 360; ++n) if (n <= 48 || n % 30 == 0 || n % 49 == 1 || n >= 359) CASE("hsl", "combination", cn[n], [&] {
    float h = ai_sym("hue", 0, 359), sa = ai_sym("s", 0, 1), l = ai_sym("l", 0, 1); VC v = B::create_combination(new hsl(h, sa, l, ai_sym("alpha", 0, 1), s), n);
    ai_true((int)v.size() == n, "the combination has the number of colors asked for");
    for (int i = 0; i < n && i < (int)v.size(); ++i) { ai_true(huediff(v[i]->get_component(0), h + i * 360. / n, 1.01f), "the hue is turned as documented"); ai_eq(v[i]->get_component(1), sa, 1e-5, "saturation is kept or reduced by the amount"); ai_eq(v[i]->get_component(2), l, 1e-5, "lightness is kept or reduced by the amount"); }
  });
  static const int mc[] = {2, 3, 8, 15}; static const char *mn[] = {"2", "3", "8", "15"};
  for (int m = 0; m < 3; ++m) for (int j = 0; j < 4; ++j) CASE("hsl", kn[M0 + m], mn[j], [&] {
    float h = ai_sym("hue", 0, 359), sa = ai_sym("s", 0, 1), l = ai_sym("l", 0, 1), x = j < 3 ? ai_sym("amount", 0, 1) : 0.25f; VC v = B::create_monochromatic(new hsl(h, sa, l, ai_sym("alpha", 0, 1), s), m, x, mc[j]);
    ai_true((int)v.size() == mc[j], "the combination has the number of colors asked for"); double ks = 1, kl = 1;
    for (int i = 0; i < mc[j] && i < (int)v.size(); ++i) {
      ai_eq(v[i]->get_component(0), h, 1e-3, "monochromatic colors keep the hue"); ai_eq(v[i]->get_component(1), sa * ks, 1e-4, "saturation is kept or reduced by the amount"); ai_eq(v[i]->get_component(2), l * kl, 1e-4, "lightness is kept or reduced by the amount");
      if (m != 1) ks *= 1 - x; if (m) kl *= 1 - x;
    }
  });
}
extern "C" void P34_types() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < NK; ++k) if (t != HSL && k != QUARTET && k != QUINTET && k != C7 && k != C2 && (k != M0 || t < HSI)) CASE(tname(t), kn[k], "", [&] {
    color_base *c = symc(t, "c", s); float x = par(k); VC v = make(k, c, x), w = make(k, conv(c, HSL), x); ai_true(v.size() == w.size(), "other types are combined in hsl"); if (v.size() != w.size()) return;
    int m = k >= M0 ? 2 : (int)v.size(); for (int i = 0; i < m; ++i) if (i != kbase[k]) same(v[i], conv(w[i], t), "other types are combined in hsl");
  });
}
// P35: impossible combinations are rejected
extern "C" void P35_rejected() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) {
    CASE(tname(t), "combination of no color", "", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_combination(c, 0); });
    CASE(tname(t), "combination of one color", "", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_combination(c, 1); });
    CASE(tname(t), "negative number of colors", "", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_combination(c, ai_int("count", -2147483647, -1)); });
    CASE(tname(t), "more than 360 colors", "", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_combination(c, ai_int("count", 361, 2147483647)); });
    CASE(tname(t), "no distance", "", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_analogous(c, 0); });
    CASE(tname(t), "distance above 120", "", [&] { color_base *c = symc(t, "c", s); float d = ai_sym("distance", 120, 1e30); ai_assume(d > 120); ai_expect_throw(""); B::create_analogous(c, d); });
    CASE(tname(t), "split without distance", "", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_complimentary_split(c, 0); });
    CASE(tname(t), "split with distance above 120", "", [&] { color_base *c = symc(t, "c", s); float d = ai_sym("distance", 120, 1e30); ai_assume(d > 120); ai_expect_throw(""); B::create_complimentary_split(c, d); });
    static const char *mn[] = {"0", "1", "2"};
    for (int m = 0; m < 3; ++m) {
      CASE(tname(t), "negative amount", mn[m], [&] { color_base *c = symc(t, "c", s); float x = ai_sym("amount", -1e30, 0); ai_assume(x < 0); ai_expect_throw(""); B::create_monochromatic(c, m, x, 3); });
      CASE(tname(t), "amount above 1", mn[m], [&] { color_base *c = symc(t, "c", s); float x = ai_sym("amount", 1, 1e30); ai_assume(x > 1); ai_expect_throw(""); B::create_monochromatic(c, m, x, 3); });
      CASE(tname(t), "no monochromatic color", mn[m], [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_monochromatic(c, m, ai_sym("amount", 0, 1), ai_int("count", -2147483647, 0)); });
    }
    CASE(tname(t), "unknown mode", "below", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_monochromatic(c, ai_int("mode", -2147483647, -1), 0.5f, 3); });
    CASE(tname(t), "unknown mode", "above", [&] { color_base *c = symc(t, "c", s); ai_expect_throw(""); B::create_monochromatic(c, ai_int("mode", 3, 2147483647), 0.5f, 3); });
    CASE(tname(t), "largest combination", "", [&] { if (t != HSL && t != RGB_DEEP) return; float v[3] = {0.25f, 0.5f, 0.75f}; if (t == HSL) v[0] = 100; VC r = B::create_combination(mkc(t, v, 1, s), 360); ai_true(r.size() == 360, "360 colors are allowed"); });
    CASE(tname(t), "single monochromatic", "", [&] { color_base *c = symc(t, "c", s); VC r = B::create_monochromatic(c, 0, ai_sym("amount", 0, 1), 1); ai_true(r.size() == 1, "one color is allowed"); ai_peq(r[0], c, "it is the base color"); });
    CASE(tname(t), "widest analogous", "", [&] { color_base *c = symc(t, "c", s); VC r = B::create_analogous(c, 120); ai_true(r.size() == 3, "120 degrees are allowed"); });
    CASE(tname(t), "any analogous", "", [&] { color_base *c = symc(t, "c", s); float d = ai_sym("distance", 0, 120); ai_assume(d > 0); VC r = B::create_analogous(c, d); ai_true(r.size() == 3, "distances up to 120 degrees are allowed"); });
    CASE(tname(t), "any split", "", [&] { color_base *c = symc(t, "c", s); float d = ai_sym("distance", 0, 120); ai_assume(d > 0); VC r = B::create_complimentary_split(c, d); ai_true(r.size() == 3, "distances up to 120 degrees are allowed"); });
    for (int m = 0; m < 3; ++m) CASE(tname(t), "any monochromatic", mn[m], [&] { color_base *c = symc(t, "c", s); VC r = B::create_monochromatic(c, m, ai_sym("amount", 0, 1), 3); ai_true(r.size() == 3, "amounts from 0 to 1 are allowed"); });
  }
}
