#include "ai.h"
static double lim(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
typedef color_converter V;
static const char *digit[] = {"0", "1", "2", "3", "4", "5", "6", "7"};
// P25: conversions between directly related types compute their definition
static void eqc(color_base *r, int t, const double *e, double tol, const char *what) {
  ai_true(r && r->get_color_type() == t, what);
  if (!r) return;
  for (int i = 0; i < ncomp(t); ++i) ai_eq(r->get_component(i), e[i], tol, what);
}
// deep rgb with the channel ranks of permutation p: p[0] >= p[1] >= p[2]; returns max, mid-fraction, delta
struct Rgb { float v[3]; float mx, mn, d, q; };
static const int perm[6][3] = {{0, 1, 2}, {1, 0, 2}, {1, 2, 0}, {2, 1, 0}, {2, 0, 1}, {0, 2, 1}};
static Rgb ordered(int k, int near = 0) { // near: 1 nearly grey, 2 nearly black
  Rgb o; o.mn = near == 2 ? ai_sym("min", 0, 0.004) : ai_sym("min", 0, 0.99); float e = near ? ai_sym("spread", 1e-4, 0.01) : ai_sym("spread", 0.01, 1); o.q = ai_sym("middle", k == 5 ? 0.02 : 0, 1);  /* hues above 359 do not fit the type */ o.d = e * (1.f - o.mn); o.mx = o.mn + o.d;
  o.v[perm[k][0]] = o.mx; o.v[perm[k][1]] = o.mn + o.q * o.d; o.v[perm[k][2]] = o.mn; return o;
}
// hue of sextant k with the middle channel at fraction q: even sextants rise, odd ones fall
static float hueof(int k, float q) { return 60.f * (k % 2 ? k + 1.f - q : k + q); }
extern "C" void P25_from_rgb() {
  rgb_def *s = srgb();
  for (int k = 0; k < 6; ++k) for (int near = 0; near < 3; ++near) CASE("hue sextant", digit[k], near == 1 ? "nearly grey" : near ? "nearly black" : "", [&] {
    Rgb o = ordered(k, near); float sum = o.v[0] + o.v[1] + o.v[2];
    auto c = [&] { return mkc(RGB_DEEP, o.v, 1, s); };
    float h = hueof(k, o.q);
    auto hue = [&](float got) { ai_eq(got, h, 0.1, "hue is the angle on the colour hexagon"); };
    CASE("hsv", "", "", [&] { hsv *r = V::to_hsv(c()); hue(r->hue()); ai_eq(r->value(), o.mx, 1e-3, "value is the largest channel"); ai_eq(r->saturation() * o.mx, o.d, 1e-3, "saturation is the spread relative to the value"); ai_eq(r->saturation(), o.d / o.mx, 1e-3, "saturation is the spread relative to the value"); });
    CASE("hsl", "", "", [&] { hsl *r = V::to_hsl(c()); hue(r->hue()); ai_eq(r->lightness(), (o.mx + o.mn) / 2.f, 1e-3, "lightness is the middle of the largest and smallest channel");
      float l2 = o.mx + o.mn; ai_eq(r->saturation() * (l2 <= 1.f ? l2 : 2.f - l2), o.d, 1e-3, "saturation is the spread relative to the largest possible"); ai_eq(r->saturation(), o.d / (l2 <= 1.f ? l2 : 2.f - l2), 1e-3, "saturation is the spread relative to the largest possible"); });
    CASE("hsi", "", "", [&] { hsi *r = V::to_hsi(c()); hue(r->hue()); ai_eq(r->intensity(), sum / 3.f, 1e-3, "intensity is the mean"); ai_eq((1.f - r->saturation()) * sum / 3.f, o.mn, 1e-3, "saturation is one minus smallest over mean"); ai_eq(r->saturation(), 1.f - 3.f * o.mn / sum, 1e-3, "saturation is one minus smallest over mean"); });
    CASE("hcy", "", "", [&] { hcy *r = V::to_hcy(c()); hue(r->hue()); ai_eq(r->chroma(), o.d, 1e-3, "chroma is the spread"); ai_eq(r->luma(), 0.2126f * o.v[0] + 0.7152f * o.v[1] + 0.0722f * o.v[2], 1e-3, "luma is the Rec. 709 sum"); });
    CASE("cmyk", "", "", [&] { cmyk *r = V::to_cmyk(c()); ai_eq(r->black(), 1.f - o.mx, 1e-3, "black is the distance of the largest channel from one");
      ai_eq((1.f - r->cyan()) * o.mx, o.v[0], 1e-3, "cyan, magenta and yellow scale the channels"); ai_eq((1.f - r->magenta()) * o.mx, o.v[1], 1e-3, "cyan, magenta and yellow scale the channels"); ai_eq((1.f - r->yellow()) * o.mx, o.v[2], 1e-3, "cyan, magenta and yellow scale the channels"); });
    CASE("grey", "", "", [&] { ai_eq(V::to_grey_deep(c())->grey(), sum / 3.f, 1e-3, "grey is the mean"); ai_eq(V::to_grey_true(c())->grey(), sum * 85.f, 1.01, "grey is the mean"); });
  });
  CASE("achromatic", "", "", [&] {
    float g = ai_sym("g", 0, 1); float v[3] = {g, g, g};
    CASE("hsv", "", "", [&] { hsv *r = V::to_hsv(mkc(RGB_DEEP, v, 1, s)); ai_eq(r->saturation(), 0, 1e-3, "greys have no saturation"); ai_eq(r->value(), g, 1e-3, "value is the largest channel"); });
    CASE("hsl", "", "", [&] { hsl *r = V::to_hsl(mkc(RGB_DEEP, v, 1, s)); ai_eq(r->saturation(), 0, 1e-3, "greys have no saturation"); ai_eq(r->lightness(), g, 1e-3, "lightness is the middle of the largest and smallest channel"); });
    CASE("hsi", "", "", [&] { hsi *r = V::to_hsi(mkc(RGB_DEEP, v, 1, s)); ai_eq(r->saturation(), 0, 1e-3, "greys have no saturation"); ai_eq(r->intensity(), g, 1e-3, "intensity is the mean"); });
    CASE("hcy", "", "", [&] { hcy *r = V::to_hcy(mkc(RGB_DEEP, v, 1, s)); ai_eq(r->chroma(), 0, 1e-3, "chroma is the spread"); ai_eq(r->luma(), g, 1e-3, "luma is the Rec. 709 sum"); });
    CASE("grey", "", "", [&] { ai_eq(V::to_grey_deep(mkc(RGB_DEEP, v, 1, s))->grey(), g, 1e-3, "grey is the mean"); });
  });
  CASE("8 bit", "", "", [&] {
    float v[3], sum = 0; for (int i = 0; i < 3; ++i) { v[i] = ai_symi("c", i, 0, 255); sum += v[i]; }
    CASE("grey", "", "", [&] { ai_eq(V::to_grey_true(mkc(RGB_TRUE, v, 1, s))->grey(), sum / 3.f, 2.01, "grey is the mean"); ai_eq(V::to_grey_deep(mkc(RGB_TRUE, v, 1, s))->grey() * 255.f, sum / 3.f, 2.01, "grey is the mean"); });
  });
}
static void hexagon(int k, float f, float c, float m, double *e) {
  float x = k % 2 ? 1.f - f : f; e[perm[k][0]] = m + c; e[perm[k][1]] = m + c * x; e[perm[k][2]] = m;
}
extern "C" void P25_to_rgb() {
  rgb_def *s = srgb();
  for (int k = 0; k < 6; ++k) CASE("hue sextant", digit[k], "", [&] {
    float f = ai_sym("f", 0, k == 5 ? 0.98 : 1), h = 60.f * (k + f), sat = ai_sym("s", 0, 1), z = ai_sym("z", 0, 1); double e[3];
    CASE("hsv", "", "", [&] { float v[3] = {h, sat, z}; hexagon(k, f, z * sat, z - z * sat, e); eqc(V::to_rgb_deep(mkc(HSV, v, 1, s)), RGB_DEEP, e, 1e-3, "hsv to rgb follows the colour hexagon"); });
    CASE("hsl", "", "", [&] { float v[3] = {h, sat, z}; float c = sat * (z <= 0.5f ? 2.f * z : 2.f - 2.f * z); hexagon(k, f, c, z - c / 2.f, e); eqc(V::to_rgb_deep(mkc(HSL, v, 1, s)), RGB_DEEP, e, 1e-3, "hsl to rgb follows the colour hexagon"); });
    CASE("hsi", "", "", [&] { float v[3] = {h, sat, z / 3.f}; float x = k % 2 ? 1.f - f : f, c = z * sat / (1.f + x), m = z / 3.f * (1.f - sat); hexagon(k, f, c, m, e); eqc(V::to_rgb_deep(mkc(HSI, v, 1, s)), RGB_DEEP, e, 1e-3, "hsi to rgb follows the colour hexagon"); });
    CASE("hsi", "bright", "", [&] { float v[3] = {h, sat, (1.f + 2.f * z) / 3.f}; float x = k % 2 ? 1.f - f : f, c = 3.f * v[2] * sat / (1.f + x), m = v[2] * (1.f - sat); hexagon(k, f, c, m, e); for (int i = 0; i < 3; ++i) e[i] = e[i] > 1 ? 1 : e[i]; eqc(V::to_rgb_deep(mkc(HSI, v, 1, s)), RGB_DEEP, e, 1e-3, "hsi to rgb follows the colour hexagon, limited to the range"); });
    CASE("hcy", "", "", [&] { float v[3] = {h, sat, z}; hexagon(k, f, sat, 0, e); float y = 0.2126f * e[0] + 0.7152f * e[1] + 0.0722f * e[2]; for (int i = 0; i < 3; ++i) { e[i] += z - y; e[i] = e[i] < 0 ? 0 : e[i] > 1 ? 1 : e[i]; }
      eqc(V::to_rgb_deep(mkc(HCY, v, 1, s)), RGB_DEEP, e, 1e-3, "hcy to rgb follows the colour hexagon"); });
  });
  CASE("cmyk", "", "", [&] { float v[4]; for (int i = 0; i < 4; ++i) v[i] = ai_symi("c", i, 0, 1); double e[3]; for (int i = 0; i < 3; ++i) e[i] = (1. - v[i]) * (1. - v[3]); eqc(V::to_rgb_deep(mkc(CMYK, v, 1, s)), RGB_DEEP, e, 1e-3, "cmyk to rgb removes ink from white"); });
  CASE("grey", "", "", [&] { float g = ai_sym("g", 0, 1); double e[3] = {g, g, g}, e2[3] = {g * 255., g * 255., g * 255.}; eqc(V::to_rgb_deep(mkc(GREY_DEEP, &g, 1, s)), RGB_DEEP, e, 1e-3, "grey has equal channels"); eqc(V::to_rgb_true(mkc(GREY_DEEP, &g, 1, s)), RGB_TRUE, e2, 0.51, "grey has equal channels");
    float t = g * 255.f; eqc(V::to_rgb_deep(mkc(GREY_TRUE, &t, 1, s)), RGB_DEEP, e, 1e-3, "grey has equal channels"); eqc(V::to_rgb_true(mkc(GREY_TRUE, &t, 1, s)), RGB_TRUE, e2, 0.51, "grey has equal channels");
    eqc(V::to_grey_deep(mkc(GREY_TRUE, &t, 1, s)), GREY_DEEP, e, 1e-3, "8 bit and unit scales differ by 255"); eqc(V::to_grey_true(mkc(GREY_DEEP, &g, 1, s)), GREY_TRUE, e2, 0.51, "8 bit and unit scales differ by 255"); });
  CASE("rgb scales", "", "", [&] { float v[3], w[3]; double e[3], e2[3]; for (int i = 0; i < 3; ++i) { v[i] = ai_symi("c", i, 0, 1); w[i] = v[i] * 255.f; e[i] = v[i]; e2[i] = w[i]; }
    eqc(V::to_rgb_true(mkc(RGB_DEEP, v, 1, s)), RGB_TRUE, e2, 0.51, "8 bit and unit scales differ by 255"); eqc(V::to_rgb_deep(mkc(RGB_TRUE, w, 1, s)), RGB_DEEP, e, 1e-3, "8 bit and unit scales differ by 255"); });
  for (int e = 0; e < 3; ++e) CASE("hsv and hsl", e == 1 ? "dark" : e ? "light" : "", "", [&] {
    float h = ai_sym("h", 0, 359), sat = ai_sym("s", 0, 1), z = e == 1 ? ai_sym("z", 1e-4, 0.02) : e ? ai_sym("z", 0.98, 0.9999) : ai_sym("z", 0.02, 0.98), v[3] = {h, sat, z};
    hsl *l = V::to_hsl(mkc(HSV, v, 1, s)); float L = z - z * sat / 2.f; ai_eq(l->hue(), h, 1e-3, "hsv and hsl share the hue"); ai_eq(l->lightness(), L, 1e-3, "lightness is the middle of the largest and smallest channel"); ai_eq(l->saturation() * (2.f * L <= 1.f ? 2.f * L : 2.f - 2.f * L), z * sat, 1e-3, "saturation is the spread relative to the largest possible");
    hsv *w = V::to_hsv(mkc(HSL, v, 1, s)); float c = sat * (z <= 0.5f ? 2.f * z : 2.f - 2.f * z); ai_eq(w->hue(), h, 1e-3, "hsv and hsl share the hue"); ai_eq(w->value(), z + c / 2.f, 1e-3, "value is the largest channel"); ai_eq(w->saturation() * (z + c / 2.f), c, 1e-3, "saturation is the spread relative to the value");
  });
  CASE("black", "", "", [&] {
    double e[3] = {0, 0, 0};
    for (int t = 0; t < NT; ++t) CASE(tname(t), "", "", [&] {
      float v[4] = {0, 0, 0, 0}; color_base *b = t == CMYK ? V::to_cmyk(mkc(RGB_DEEP, v, 1, s)) : mkc(t, v, 1, s);
      eqc(V::to_rgb_deep(b), RGB_DEEP, e, 1e-2, "black is black in every type"); eqc(V::convertTo(mkc(RGB_DEEP, v, 1, s), (color_type)t)->get_color_type() == t ? V::to_rgb_deep(V::convertTo(mkc(RGB_DEEP, v, 1, s), (color_type)t)) : nullptr, RGB_DEEP, e, 1e-2, "black is black in every type");
      for (int u = 0; u < NT; ++u) if (u != t) CASE("by way of", tname(u), "", [&] { eqc(V::to_rgb_deep(V::convertTo(V::convertTo(mkc(RGB_DEEP, v, 1, s), (color_type)t), (color_type)u)), RGB_DEEP, e, 1e-2, "black is black in every type"); });
    });
  });
  CASE("white", "", "", [&] {
    double e[3] = {1, 1, 1}; float v[3] = {1, 1, 1};
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if (u != t) CASE(tname(t), tname(u), "", [&] { eqc(V::to_rgb_deep(V::convertTo(V::convertTo(mkc(RGB_DEEP, v, 1, s), (color_type)t), (color_type)u)), RGB_DEEP, e, 1e-2, "white is white in every type"); });
  });
}
static double lin(double v) { return v <= 0.04045 ? v / 12.92 : pow((v + 0.055) / 1.055, 2.4); }
static double fcube(double t) { return t > 216. / 24389. ? pow(t, 1. / 3.) : (24389. / 27. * t + 16.) / 116.; }
static void white(rgb_def *s, double *w) { white_point *p = s->get_white_point(); w[0] = p->get_tristimulus_x(); w[1] = p->get_tristimulus_y(); w[2] = p->get_tristimulus_z(); }
// P26: the CIE types
// sRGB seen under another reference white: an incandescent one, and one of half the luminance
static rgb_def *whitened(int k) {
  rgb_def *s = srgb(); if (!k) return s;
  s->set_white_point(k == 1 ? new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f) : new white_point(0.4752f, 0.5f, 0.5444f, 0.3127f, 0.3290f)); return s;
}
static void P26_white(rgb_def *s);
static void P26_polar(rgb_def *s);
extern "C" void P26_cie() {
  rgb_def *s = srgb();
  for (int dark = 0; dark < 3; ++dark) CASE("rgb to xyz", dark == 1 ? "nearly black" : dark ? "dark" : "", "", [&] {
    float v[3]; for (int i = 0; i < 3; ++i) v[i] = dark ? dark == 1 ? ai_symi("c", i, 0, 0.04) : ai_symi("c", i, 0.041, 0.1) : ai_symi("c", i, 0, 1);
    auto m = s->get_transform_matrix().values(); double e[3]; for (int i = 0; i < 3; ++i) { e[i] = 0; for (int k = 0; k < 3; ++k) e[i] += m[i][k] * lin(v[k]); }
    eqc(V::to_xyz(mkc(RGB_DEEP, v, 1, s)), XYZ, e, dark ? 1e-5 : 1e-3, "xyz is the working space matrix times linear rgb");
  });
  for (int far = 0; far < 2; ++far) CASE("xyz to rgb", far ? "brighter than white" : "", "", [&] {
    float v[3]; for (int i = 0; i < 3; ++i) v[i] = ai_symi("c", i, far ? 1 : 0, far ? 100 : 1.1);
    auto m = s->get_inverse_transform_matrix().values(); gamma *g = s->get_gamma_curve(); double e[3];
    for (int i = 0; i < 3; ++i) { double l = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; l = l < 0 ? 0 : l > 1 ? 1 : l; e[i] = l <= 0.0031308 ? 12.92 * l : 1.055 * pow(l, 1. / 2.4) - 0.055; e[i] = e[i] < 0 ? 0 : e[i] > 1 ? 1 : e[i]; }
    eqc(V::to_rgb_deep(mkc(XYZ, v, 1, s)), RGB_DEEP, e, 1e-3, "rgb is the companded inverse matrix times xyz");
  });
  static const char *bn[] = {"", "nearly black", "bright"}; static const double bl[] = {0.01, 1e-5, 1}, bh[] = {1.1, 0.01, 100};
  for (int b = 0; b < 3; ++b) CASE("xyz to xyy", bn[b], "", [&] {
    float v[3]; for (int i = 0; i < 3; ++i) v[i] = ai_symi("c", i, bl[b], bh[b]); float sum = v[0] + v[1] + v[2]; xyy *r = V::to_xyy(mkc(XYZ, v, 1, s));
    ai_eq(r->x(), v[0] / sum, 1e-3, "chromaticity is the share of the sum"); ai_eq(r->y(), v[1] / sum, 1e-3, "chromaticity is the share of the sum"); ai_eq(r->Y(), v[1], 1e-3, "luminance is kept");
  });
  for (int i = 0; i < 3; ++i) CASE("xyz axis to xyy", digit[i], "", [&] {
    float v[3] = {0, 0, 0}; v[i] = ai_sym("c", 0.01, 1.1); xyy *r = V::to_xyy(mkc(XYZ, v, 1, s));
    ai_eq(r->x(), i == 0, 1e-3, "chromaticity is the share of the sum"); ai_eq(r->y(), i == 1, 1e-3, "chromaticity is the share of the sum"); ai_eq(r->Y(), v[1], 1e-3, "luminance is kept");
  });
  static const char *cn[] = {"", "green", "violet", "red"}; static const double cx[][2] = {{0.05, 0.6}, {0, 0.3}, {0, 0.5}, {0.5, 0.9}}, cy[][2] = {{0.05, 0.4}, {0.4, 1}, {0.002, 0.05}, {0.05, 0.5}};
  for (int b = 0; b < 4; ++b) for (int br = 0; br < 2; ++br) CASE("xyy to xyz", cn[b], br ? "bright" : "", [&] {
    float x = ai_sym("x", cx[b][0], cx[b][1]), y = ai_sym("y", cy[b][0], cy[b][1]), Y = br ? ai_sym("Y", 1, 100) : ai_sym("Y", 0, 1); float v[3] = {x, y, Y}; xyz *r = V::to_xyz(mkc(XYY, v, 1, s));
    ai_eq(r->x(), lim(x * Y / y, 0, 100), 1e-3, "xyz has the chromaticity and luminance given"); ai_eq(r->y(), Y, 1e-3, "xyz has the chromaticity and luminance given"); ai_eq(r->z(), lim((1.f - x - y) * Y / y, 0, 100), 1e-3, "xyz has the chromaticity and luminance given");
  });
  static const char *wn[] = {"white of sRGB", "incandescent white", "dim white"};
  for (int k = 0; k < 3; ++k) CASE(wn[k], "", "", [&] { P26_white(whitened(k)); });
  P26_polar(s);
}
static void P26_white(rgb_def *s) {
  double w[3]; white(s, w);
  for (int far = 0; far < 2; ++far) CASE("xyz to lab", far ? "brighter than white" : "", "", [&] {
    float v[3]; double f[3]; for (int i = 0; i < 3; ++i) { v[i] = ai_symi("c", i, 0, far ? 100 : 1); f[i] = fcube(v[i] / w[i]); }
    double e[3] = {116. * f[1] - 16., 500. * (f[0] - f[1]), 200. * (f[1] - f[2])}; for (int i = 0; i < 3; ++i) { double lo = i ? -128 : 0, hi = i ? 128 : 100; e[i] = e[i] < lo ? lo : e[i] > hi ? hi : e[i]; }
    eqc(V::to_lab(mkc(XYZ, v, 1, s)), LAB, e, 2e-2, "lab follows the CIE definition");
  });
  for (int far = 0; far < 3; ++far) CASE("lab to xyz", far == 1 ? "any" : far ? "nearly black" : "", "", [&] {
    double m = far == 1 ? 128 : far ? 8 : 60; float v[3] = {far == 2 ? ai_sym("L", 0, 8.5) : ai_sym("L", 0, 100), ai_sym("a", -m, m), ai_sym("b", -m, m)}; double fy = (v[0] + 16.) / 116., f[3] = {fy + v[1] / 500., fy, fy - v[2] / 200.}, e[3];
    for (int i = 0; i < 3; ++i) { double t = f[i] * f[i] * f[i]; e[i] = w[i] * (t > 216. / 24389. ? t : (116. * f[i] - 16.) * 27. / 24389.); e[i] = e[i] < 0 ? 0 : e[i]; }
    eqc(V::to_xyz(mkc(LAB, v, 1, s)), XYZ, e, far == 2 ? 1e-5 : 1e-3, "xyz inverts the CIE lab definition");
  });
  for (int far = 0; far < 3; ++far) CASE("xyz to luv", far == 1 ? "nearly black" : far ? "bright" : "", "", [&] {
    float v[3]; for (int i = 0; i < 3; ++i) v[i] = ai_symi("c", i, far == 1 ? 1e-5 : far ? 1 : 0.01, far == 1 ? 0.01 : far ? 100 : 1); double d = v[0] + 15. * v[1] + 3. * v[2], dw = w[0] + 15. * w[1] + 3. * w[2], y = v[1] / w[1];
    double L = y > 0.008856 ? 116. * pow(y, 1. / 3.) - 16. : 903.3 * y, e[3] = {L, 13. * L * (4. * v[0] / d - 4. * w[0] / dw), 13. * L * (9. * v[1] / d - 9. * w[1] / dw)};
    for (int i = 0; i < 3; ++i) { double lo = i ? -100 : 0; e[i] = e[i] < lo ? lo : e[i] > 100 ? 100 : e[i]; }
    eqc(V::to_cieluv(mkc(XYZ, v, 1, s)), CIELUV, e, 2e-2, "luv follows the CIE definition");
  });
  CASE("luv to xyz", "", "", [&] {
    float v[3] = {ai_sym("L", 10, 100), ai_sym("u", -20, 20), ai_sym("v", -20, 20)}; double dw = w[0] + 15. * w[1] + 3. * w[2], L = v[0], up = v[1] / (13. * L) + 4. * w[0] / dw, vp = v[2] / (13. * L) + 9. * w[1] / dw;
    double Y = (L + 16.) / 116.; Y = w[1] * Y * Y * Y; double X = Y * 9. * up / (4. * vp), Z = Y * (12. - 3. * up - 20. * vp) / (4. * vp); Z = Z < 0 ? 0 : Z; X = X < 0 ? 0 : X; double e[3] = {X, Y, Z};
    eqc(V::to_xyz(mkc(CIELUV, v, 1, s)), XYZ, e, 2e-3, "xyz inverts the CIE luv definition");
  });
  for (int dark = 0; dark < 2; ++dark) CASE("luv to xyz", "any chromaticity", dark ? "nearly black" : "", [&] {
    double L = dark ? ai_sym("L", 0.01, 7.99) : ai_sym("L", 8.01, 100), up = ai_sym("u'", 0.05, 0.6), vp = ai_sym("v'", 0.1, 0.6), dw = w[0] + 15. * w[1] + 3. * w[2], u = 13. * L * (up - 4. * w[0] / dw), t = 13. * L * (vp - 9. * w[1] / dw);
    ai_assume(u > -100); ai_assume(u < 100); ai_assume(t > -100); ai_assume(t < 100);
    float v[3] = {(float)L, (float)u, (float)t}; double Y = (L + 16.) / 116.; Y = w[1] * (dark ? L / 903.3 : Y * Y * Y);
    double e[3] = {lim(Y * 9. * up / (4. * vp), 0, 100), Y, lim(Y * (12. - 3. * up - 20. * vp) / (4. * vp), 0, 100)};
    eqc(V::to_xyz(mkc(CIELUV, v, 1, s)), XYZ, e, dark ? 2e-5 : 2e-3, "xyz inverts the CIE luv definition");
  });
}
static void P26_polar(rgb_def *s) {
  for (int uv = 0; uv < 2; ++uv) CASE(uv ? "lch(uv)" : "lch(ab)", "", "", [&] {
    for (int q = 0; q < 4; ++q) for (int far = 0; far < 3; ++far) CASE("quadrant", digit[q], far == 1 ? "nearly grey" : far ? "vivid" : "", [&] {
      float L = ai_sym("L", 0, 100), x = ai_sym("x", far == 1 ? 1e-3 : 0.5, far == 1 ? 1 : far ? 100 : 60), y = ai_sym("y", far == 1 ? 1e-3 : 0.5, far == 1 ? 1 : far ? 100 : 60); float v[3] = {L, q == 1 || q == 2 ? -x : x, q >= 2 ? -y : y};
      color_base *r = V::convertTo(mkc(uv ? CIELUV : LAB, v, 1, s), uv ? LCH_UV : LCH_AB);
      ai_eq(r->get_component(0), L, 1e-3, "luminance is kept"); ai_eq(r->get_component(1), lim(sqrtf(x * x + y * y), 0, 100), 1e-2, "chroma is the distance from the grey axis");
      float h = atan2f(v[2], v[1]) * 180.f / 3.14159265f; if (h < 0.f) h += 360.f; if (h > 359.f) h = 359.f;
      ai_eq(r->get_component(2), h, 1e-1, "hue is the angle in degrees");
    });
    CASE("back", "", "", [&] {
      float v[3] = {ai_sym("L", 0, 100), ai_sym("C", 0, 100), ai_sym("h", 0, 359)}; color_base *r = V::convertTo(mkc(uv ? LCH_UV : LCH_AB, v, 1, s), uv ? CIELUV : LAB); float k = 3.14159265f / 180.f;
      ai_eq(r->get_component(0), v[0], 1e-3, "luminance is kept"); ai_eq(r->get_component(1), v[1] * cosf(v[2] * k), 1e-2, "hue and chroma are polar coordinates"); ai_eq(r->get_component(2), v[1] * sinf(v[2] * k), 1e-2, "hue and chroma are polar coordinates");
    });
  });
}
// P27: a conversion between types that are not directly related equals going step by step
static int parent(int t) { return t == RGB_DEEP ? -1 : t == LCH_AB ? LAB : t == LCH_UV ? CIELUV : t == LAB || t == CIELUV || t == XYY ? XYZ : RGB_DEEP; }
static bool above(int p, int t) { for (; t >= 0; t = parent(t)) if (t == p) return true; return false; }
static color_base *step(color_base *c, int from, int to) {
  while (!above(from, to)) { from = parent(from); c = V::convertTo(c, (color_type)from); }
  if (from == to) return c;
  return V::convertTo(step(c, from, parent(to)), (color_type)to);
}
extern "C" void P27_steps() {
  rgb_def *s = srgb();
  for (int a = 0; a < NT; ++a) CASE("from", tname(a), "", [&] { for (int b = 0; b < NT; ++b) if (a != b) CASE("to", tname(b), "", [&] {
    if ((a == HSV && b == HSL) || (a == HSL && b == HSV)) return; // have a definition of their own
    color_base *r = V::convertTo(symc(a, "c", s), (color_type)b), *e = step(symc(a, "c", s), a, b);
    double tol = istrue(b) || istrue(a) ? 1.51 : b == LAB || b >= CIELUV ? 2e-2 : 1e-3;
    for (int i = 0; i < ncomp(b); ++i) if (!ishue(b, i)) ai_eq(r->get_component(i), e->get_component(i), tol, "converting directly equals converting step by step");
      else { float x = r->get_component(i), y = e->get_component(i), d = x < y ? y - x : x - y; ai_true(d <= 0.1f || d >= 358.f || (b >= CIELUV ? r->get_component(1) < 0.5f : r->get_component(1) < 0.01f), "converting directly equals converting step by step"); }
  }); });
}
