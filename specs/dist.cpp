#include "ai.h"
typedef color_distance D;
enum { ESQ, ESQ_LUV, EU, EU_LUV, WEIGHTED, CIE76, CIE94, CIE94T, CIE00, CMC, CMC1, ND };
static const char *dname[] = {"squared euclidean", "squared euclidean in luv", "euclidean", "euclidean in luv", "weighted euclidean", "cie76", "cie94 graphic arts", "cie94 textiles", "cie00", "cmc 2:1", "cmc 1:1"};
static float dist(int k, color_base *a, color_base *b) {
  switch (k) {
  case ESQ: return D::euclidean_distance_squared(a, b);
  case ESQ_LUV: return D::euclidean_distance_squared(a, b, color_type::CIELUV);
  case EU: return D::euclidean_distance(a, b);
  case EU_LUV: return D::euclidean_distance(a, b, color_type::CIELUV);
  case WEIGHTED: return D::euclidean_distance_weighted(a, b);
  case CIE76: return D::cielab_delta_e_cie76(a, b);
  case CIE94: return D::cielab_delta_e_cie94(a, b);
  case CIE94T: return D::cielab_delta_e_cie94(a, b, 2.f, 0.048f, 0.014f);
  case CIE00: return D::cielab_delta_e_cie00(a, b);
  case CMC: return D::cmc_delta_e_lc84(a, b);
  case CMC1: return D::cmc_delta_e_lc84(a, b, 1.f);
  }
  return -1;
}
static int home(int k) { return k == ESQ_LUV || k == EU_LUV ? CIELUV : k <= WEIGHTED ? RGB_DEEP : LAB; }
static double sq(double x) { return x * x; }
static const double rad = 3.14159265358979 / 180.;
static double f94(const float *p, const float *q, double kL, double k1, double k2, double kC, double kH) {
  double c1 = sqrt(sq(p[1]) + sq(p[2])), c2 = sqrt(sq(q[1]) + sq(q[2])), dc = c1 - c2, dh2 = sq(p[1] - q[1]) + sq(p[2] - q[2]) - sq(dc);
  return sq((p[0] - q[0]) / kL) + sq(dc / (kC * (1 + k1 * c1))) + dh2 / (kH * (1 + k2 * c1)) / (kH * (1 + k2 * c1));
}
static const float radf = 3.14159265f / 180.f;
static double fcmc(const float *p, const float *q, double l, double c, double h) {
  double c1 = sqrt(sq(p[1]) + sq(p[2])), c2 = sqrt(sq(q[1]) + sq(q[2])), dc = c1 - c2, dh2 = sq(p[1] - q[1]) + sq(p[2] - q[2]) - sq(dc);
  double sl = p[0] < 16 ? 0.511f : 0.040975f * p[0] / (1 + 0.01765f * p[0]), sc = 0.0638f * c1 / (1 + 0.0131f * c1) + 0.638f, F = sqrt(sq(sq(c1)) / (sq(sq(c1)) + 1900.));
  double T = h > 164 && h <= 345 ? 0.56f + fabs(0.2f * cos((h + 168) * radf)) : 0.36f + fabs(0.4f * cos((h + 35) * radf)), sh = sc * (F * T + 1 - F);
  return sq((p[0] - q[0]) / (l * sl)) + sq(dc / (c * sc)) + dh2 / sh / sh;
}
static void lab2(float *p, float *q, double lo = 0) { p[0] = ai_sym("L", lo, 100); q[0] = ai_sym("M", 0, 100); p[1] = ai_sym("a", -128, 128); p[2] = ai_sym("b", -128, 128); q[1] = ai_sym("c", -128, 128); q[2] = ai_sym("d", -128, 128); }
// P28: each distance is its documented formula
extern "C" void P28_formula() {
  rgb_def *s = srgb();
  CASE("rgb", "", "", [&] {
    float p[3], q[3]; for (int i = 0; i < 3; ++i) { p[i] = ai_symi("p", i, 0, 1); q[i] = ai_symi("q", i, 0, 1); }
    color_base *a = mkc(RGB_DEEP, p, ai_sym("alpha", 0, 1), s), *b = mkc(RGB_DEEP, q, ai_sym("beta", 0, 1), s); double e = sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]);
    ai_eq(dist(ESQ, a, b), e, 1e-4, "the squared distance is the sum of the squared channel differences"); float d = dist(EU, a, b);
    ai_eq(d * d, e, 1e-4, "the distance is the root of the sum of the squared channel differences"); ai_in(d, 0, 1.7321, "the distance is between 0 and the root of 3");
    double r = (p[0] + q[0]) / 2. * 255.; float w = dist(WEIGHTED, a, b);
    ai_eq(w * w, (2 + r / 256.) * sq(p[0] - q[0]) + 4 * sq(p[1] - q[1]) + (2 + (255. - r) / 256.) * sq(p[2] - q[2]), 1e-3, "the channels are weighted 2 to 3, 4 and 3 to 2 by the mean red"); ai_in(w, 0, 3.01, "the weighted distance is not negative");
    ai_eq(dist(ESQ, a, b), D::euclidean_distance_squared(a, b, color_type::HSV), 1e-6, "other calculation types mean deep rgb");
  });
  CASE("luv", "", "", [&] {
    float p[3], q[3]; for (int i = 0; i < 3; ++i) { p[i] = ai_symi("p", i, i ? -100 : 0, 100); q[i] = ai_symi("q", i, i ? -100 : 0, 100); }
    color_base *a = mkc(CIELUV, p, 1, s), *b = mkc(CIELUV, q, 1, s); double e = sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]);
    ai_eq(dist(ESQ_LUV, a, b), e, 1e-1, "the squared distance is the sum of the squared component differences"); float d = dist(EU_LUV, a, b);
    ai_eq(d * d, e, 1e-1, "the distance is the root of the sum of the squared component differences");
  });
  CASE("lab", "", "", [&] {
    float p[3], q[3]; lab2(p, q); color_base *a = mkc(LAB, p, ai_sym("alpha", 0, 1), s), *b = mkc(LAB, q, ai_sym("beta", 0, 1), s);
    CASE("cie76", "", "", [&] { float d = dist(CIE76, a, b); ai_eq(d * d, sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]), 1e-1, "delta E 1976 is the euclidean distance in lab"); });
    CASE("cie94", "", "", [&] {
      double kL = ai_sym("kL", 0.5, 3), k1 = ai_sym("k1", 0, 0.1), k2 = ai_sym("k2", 0, 0.1), kC = ai_sym("kC", 0.5, 3), kH = ai_sym("kH", 0.5, 3); float d = D::cielab_delta_e_cie94(a, b, kL, k1, k2, kC, kH);
      ai_eq(d * d, f94(p, q, kL, k1, k2, kC, kH), 1e-1, "delta E 1994 weights lightness, chroma and hue differences as defined"); float g = dist(CIE94, a, b); ai_eq(g * g, f94(p, q, 1, 0.045f, 0.015f, 1, 1), 1e-1, "delta E 1994 defaults to graphic arts");
    });
    static const char *qn[] = {"1", "2", "3", "4"};
    for (int k = 0; k < 4; ++k) for (int dark = 0; dark < 2; ++dark) CASE("cmc, quadrant", qn[k], dark ? "dark" : "light", [&] {
      float x = ai_sym("x", 0, 128), y = ai_sym("y", 0, 128), v[3] = {dark ? ai_sym("L1", 0, 15.99) : ai_sym("L1", 16, 100), k == 1 || k == 2 ? -x : x, k >= 2 ? -y : y}; color_base *ref = mkc(LAB, v, 1, s);
      float h = atan2f(v[2], v[1]) * (180.f / 3.14159265f); if (h < 0) h += 360.f;
      float l = ai_sym("l", 0.5, 3), c = ai_sym("c", 0.5, 3), d = D::cmc_delta_e_lc84(ref, b, l, c);
      ai_eq(d * d, fcmc(v, q, l, c, h), 2e-1, "delta E CMC weights lightness, chroma and hue differences as defined"); float g = dist(CMC, ref, b); ai_eq(g * g, fcmc(v, q, 2, 1, h), 2e-1, "delta E CMC defaults to 2:1");
    });
    static const float dir[10][3] = {{1, 0, 0}, {0, 1, 90}, {-1, 0, 180}, {0, -1, 270}, {0.6f, 0.8f, 53.1301f}, {-0.6f, 0.8f, 126.8699f}, {-0.8f, -0.6f, 216.8699f}, {0.8f, -0.6f, 323.1301f}, {-0.96f, 0.28f, 163.7398f}, {0.96f, -0.28f, 343.7398f}};
    static const char *dn[] = {"0", "90", "180", "270", "53", "127", "217", "323", "163.7", "343.7"};
    for (int k = 0; k < 10; ++k) for (int dark = 0; dark < 2; ++dark) CASE("cmc, hue", dn[k], dark ? "dark" : "light", [&] {
      float x = ai_sym("C", 0.01, 100), v[3] = {dark ? ai_sym("L1", 0, 15.99) : ai_sym("L1", 16, 100), x * dir[k][0], x * dir[k][1]}, w[3] = {q[0], v[1], v[2]}; color_base *ref = mkc(LAB, v, 1, s);
      float l = ai_sym("l", 0.5, 3), c = ai_sym("c", 0.5, 3), d = D::cmc_delta_e_lc84(ref, b, l, c);
      ai_eq(d * d, fcmc(v, q, l, c, dir[k][2]), 2e-1, "delta E CMC weights lightness, chroma and hue differences as defined"); float g = dist(CMC, ref, mkc(LAB, w, 1, s));
      ai_eq(g * g, fcmc(v, w, 2, 1, dir[k][2]), 1e-2, "delta E CMC of colours differing in lightness only");
    });
  });
}
// colours close to each other, where the tolerances above say little
extern "C" void P28_close() {
  rgb_def *s = srgb();
  auto near = [](const float *p, float *q, double d, const double *lo, const double *hi) { for (int i = 0; i < 3; ++i) { float x = p[i] + ai_symi("d", i, -d, d); ai_assume(x >= lo[i]); ai_assume(x <= hi[i]); q[i] = x; } };
  static const double l0[] = {0, 0, 0}, h1[] = {1, 1, 1}, ll[] = {0, -128, -128}, lh[] = {100, 128, 128}, ul[] = {0, -100, -100}, uh[] = {100, 100, 100};
  CASE("rgb", "", "", [&] {
    float p[3], q[3]; for (int i = 0; i < 3; ++i) p[i] = ai_symi("p", i, 0, 1); near(p, q, 0.02, l0, h1); color_base *a = mkc(RGB_DEEP, p, 1, s), *b = mkc(RGB_DEEP, q, 1, s); double e = sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]), r = (p[0] + q[0]) / 2. * 255.;
    ai_eq(dist(ESQ, a, b), e, 1e-6, "the squared distance is the sum of the squared channel differences"); float d = dist(EU, a, b), w = dist(WEIGHTED, a, b); ai_eq(d * d, e, 1e-6, "the distance is the root of the sum of the squared channel differences");
    ai_eq(w * w, (2 + r / 256.) * sq(p[0] - q[0]) + 4 * sq(p[1] - q[1]) + (2 + (255. - r) / 256.) * sq(p[2] - q[2]), 1e-5, "the channels are weighted 2 to 3, 4 and 3 to 2 by the mean red");
  });
  CASE("luv", "", "", [&] {
    float p[3], q[3]; for (int i = 0; i < 3; ++i) p[i] = ai_symi("p", i, ul[i], uh[i]); near(p, q, 1, ul, uh); color_base *a = mkc(CIELUV, p, 1, s), *b = mkc(CIELUV, q, 1, s); double e = sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]);
    ai_eq(dist(ESQ_LUV, a, b), e, 1e-3, "the squared distance is the sum of the squared component differences"); float d = dist(EU_LUV, a, b); ai_eq(d * d, e, 1e-3, "the distance is the root of the sum of the squared component differences");
  });
  CASE("lab", "", "", [&] {
    float p[3], q[3]; for (int i = 0; i < 3; ++i) p[i] = ai_symi("p", i, ll[i], lh[i]); near(p, q, 1, ll, lh); color_base *a = mkc(LAB, p, 1, s), *b = mkc(LAB, q, 1, s);
    CASE("cie76", "", "", [&] { float d = dist(CIE76, a, b); ai_eq(d * d, sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]), 1e-3, "delta E 1976 is the euclidean distance in lab"); });
    CASE("cie94", "", "", [&] { float g = dist(CIE94, a, b), t = dist(CIE94T, a, b); ai_eq(g * g, f94(p, q, 1, 0.045f, 0.015f, 1, 1), 1e-3, "delta E 1994 defaults to graphic arts"); ai_eq(t * t, f94(p, q, 2, 0.048f, 0.014f, 1, 1), 1e-3, "delta E 1994 weights lightness, chroma and hue differences as defined"); });
  });
  static const char *qn[] = {"1", "2", "3", "4"};
  for (int k = 0; k < 4; ++k) for (int dark = 0; dark < 2; ++dark) CASE("cmc, quadrant", qn[k], dark ? "dark" : "light", [&] {
    float x = ai_sym("x", 0, 128), y = ai_sym("y", 0, 128), v[3] = {dark ? ai_sym("L1", 0, 15.99) : ai_sym("L1", 16, 100), k == 1 || k == 2 ? -x : x, k >= 2 ? -y : y}, q[3]; near(v, q, 1, ll, lh);
    float h = atan2f(v[2], v[1]) * (180.f / 3.14159265f); if (h < 0) h += 360.f;
    float g = dist(CMC, mkc(LAB, v, 1, s), mkc(LAB, q, 1, s)); ai_eq(g * g, fcmc(v, q, 2, 1, h), 1e-2, "delta E CMC defaults to 2:1");
  });
}
static color_base *conv(color_base *c, int t) { return color_converter::convertTo(c, (color_type)t); }

static const double p25 = 6103515625.;
static double t00(double H) { return 1 - 0.17f * cosf((H - 30) * radf) + 0.24f * cosf(2 * H * radf) + 0.32f * cosf((3 * H + 6) * radf) - 0.2f * cosf((4 * H - 63) * radf); }
static double sl00(double l) { return 1 + 0.015f * sq(l - 50) / sqrt(20 + sq(l - 50)); }
// CIEDE2000 where the hues are on the blue-yellow axis or do not matter
extern "C" void P28_cie00() {
  rgb_def *s = srgb();
  static const char *qn[] = {"1", "2", "3", "4"};
  for (int k = 1; k < 4; ++k) CASE("lightness difference, quadrant", qn[k], "", [&] {
    float x = ai_sym("x", 1, 100), y = ai_sym("y", 1, 100), v[3] = {ai_sym("L", 0, 100), k < 3 ? -x : x, k >= 2 ? -y : y}, w[3] = {ai_sym("M", 0, 100), v[1], v[2]}; double m = (v[0] + w[0]) / 2, kl = ai_sym("kL", 0.5, 3);
    float d = D::cielab_delta_e_cie00(mkc(LAB, v, ai_sym("alpha", 0, 1), s), mkc(LAB, w, ai_sym("beta", 0, 1), s), kl);
    ai_eq(d * d, sq((v[0] - w[0]) / kl / sl00(m)), 1e-1, "delta E 2000 weights the lightness difference as defined");
  });
  for (int k = 0; k < 2; ++k) CASE("chroma difference", k ? "blue" : "yellow", "", [&] {
    float x = ai_sym("x", 0.1, 100), y = ai_sym("y", 0.1, 100), v[3] = {ai_sym("L", 0, 100), -0.01f * x, k ? -x : x}, w[3] = {v[0], -0.01f * y, k ? -y : y}; double kc = ai_sym("kC", 0.5, 3);
    float d = D::cielab_delta_e_cie00(mkc(LAB, v, 1, s), mkc(LAB, w, 1, s), 1.f, 0.045f, 0.015f, kc); ai_eq(d * d, sq((x - y) / (kc * (1 + 0.045f * (x + y) / 2))), 3e-2, "delta E 2000 weights the chroma difference as defined");
  });
  for (int k = 0; k < 2; ++k) CASE("hue difference", k ? "blue to yellow" : "yellow to blue", "", [&] {
    float x = ai_sym("x", 0.1, 100), v[3] = {ai_sym("L", 0, 100), -0.01f * x, k ? -x : x}, w[3] = {v[0], -0.01f * x, k ? x : -x}; double kh = ai_sym("kH", 0.5, 3);
    float d = D::cielab_delta_e_cie00(mkc(LAB, v, 1, s), mkc(LAB, w, 1, s), 1.f, 0.045f, 0.015f, 1.f, kh); ai_eq(d * d, sq(2 * x / (kh * (1 + 0.015f * x * t00(180)))), 3e-2, "delta E 2000 weights the hue difference as defined");
  });
  CASE("rotation", "yellow to green", "", [&] {
    float x = ai_sym("x", 5, 100), y = ai_sym("y", 5, 100), v[3] = {ai_sym("L", 0, 100), -0.01f * x, x}, w[3] = {v[0], -y, 0.01f * y}; double c = (x + y) / 2, r = pow(c, 7.), root = sqrt(r / (r + p25)), ty = y * (1 + 0.5f * (1 - root)), tc = (x + ty) / 2;
    double dh = 2 * sqrt(x * ty) * sin(45 * rad), a = (ty - x) / (1 + 0.045f * tc), b = dh / (1 + 0.015f * tc * t00(135)), r2 = pow(tc, 7.), rt = -2 * sqrt(r2 / (r2 + p25)) * sin(60 * rad * exp(-sq((135 - 275) / 25.)));
    float d = D::cielab_delta_e_cie00(mkc(LAB, v, 1, s), mkc(LAB, w, 1, s)); ai_eq(d * d, a * a + b * b + rt * a * b, 3e-2, "delta E 2000 uses the adjusted chroma and rotates as defined");
  });
}
// P29: distances behave as such
extern "C" void P29_zero() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < ND; ++k) CASE(tname(t), dname[k], "", [&] {
    color_base *a = symc(t, "p", s), *b = symc(t, "p", s); Snap n = snap(a), m = snap(b);
    ai_eq(dist(k, a, a), 0, 0, "the distance of a color object to itself is zero");
    if (k != CIE00) ai_eq(dist(k, a, b), 0, 1e-2, "equal colors have distance zero");
    else dist(k, a, b);
    unchanged(n, a, "the colors are unchanged"); unchanged(m, b, "the colors are unchanged");
  });
}
extern "C" void P29_axioms() {
  rgb_def *s = srgb();
  for (int k = 0; k < ND; ++k) CASE(dname[k], "symmetry", "", [&] {
    if (k >= CIE94 && k != CIE00) return;
    int t = home(k); color_base *a = symc(t, "p", s), *b = symc(t, "q", s); ai_eq(dist(k, a, b), dist(k, b, a), t == RGB_DEEP ? 1e-4 : 2e-3, "the distance does not depend on the order");
  });
  for (int k = 0; k < ND; ++k) CASE(dname[k], "sign", "", [&] { int t = home(k); color_base *a = symc(t, "p", s), *b = symc(t, "q", s); float d = dist(k, a, b); ai_in(d, 0, 1e9, "distances are not negative"); });
  for (int k = 0; k < ND; ++k) CASE(dname[k], "alpha", "", [&] {
    int t = home(k); float v[3], w[3]; for (int i = 0; i < 3; ++i) { v[i] = ai_symi("v", i, clo(t, i), chi(t, i)); w[i] = ai_symi("w", i, clo(t, i), chi(t, i)); }
    ai_eq(dist(k, mkc(t, v, ai_sym("alpha", 0, 1), s), mkc(t, w, ai_sym("beta", 0, 1), s)), dist(k, mkc(t, v, 1, s), mkc(t, w, 1, s)), 1e-3, "alpha does not count");
  });
}
// P30: distances see colors, not representations
extern "C" void P30_types() {
  rgb_def *s = srgb();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < ND; ++k) {
    if (t == home(k)) continue;
    CASE(tname(t), dname[k], "", [&] {
      color_base *a = symc(t, "p", s), *b = symc(home(k), "q", s); color_base *c = conv(a, home(k));
      ai_eq(dist(k, a, b), dist(k, c, b), 1e-2, "the distance is that of the converted colors, first color");
      ai_eq(dist(k, b, a), dist(k, b, c), 1e-2, "the distance is that of the converted colors, second color");
    });
  }
  for (int k = 0; k < ND; ++k) CASE(dname[k], "both", "", [&] {
    int t = home(k) == LAB ? XYZ : GREY_DEEP; color_base *a = symc(t, "p", s), *b = symc(t, "q", s);
    ai_eq(dist(k, a, b), dist(k, conv(a, home(k)), conv(b, home(k))), 1e-2, "the distance is that of the converted colors, both");
  });
  rgb_def *s2 = adobe();
  for (int t = 0; t < NT; ++t) for (int k = 0; k < ND; ++k) if (t != home(k)) CASE(tname(t), dname[k], "of two working spaces", [&] {
    color_base *a = symc(t, "p", s), *b = symc(t, "q", s2);
    ai_eq(dist(k, a, b), dist(k, conv(a, home(k)), conv(b, home(k))), 1e-2, "the distance is that of the converted colors, both");
  });
}
