#include "ai.h"
typedef std::array<float, 3> A3;
typedef std::array<float, 2> A2;
static A3 a3(float x, float y, float z) { A3 a; a[0] = x; a[1] = y; a[2] = z; return a; }
static A2 a2(float x, float y) { A2 a; a[0] = x; a[1] = y; return a; }
static void wp(white_point *w, double X, double Y, double Z, double x, double y, double z, double tol, const char *what) {
  ai_eq(w->get_tristimulus_x(), X, tol, what); ai_eq(w->get_tristimulus_y(), Y, tol, what); ai_eq(w->get_tristimulus_z(), Z, tol, what); ai_eq(w->get_chromaticity_x(), x, tol, what); ai_eq(w->get_chromaticity_y(), y, tol, what); ai_eq(w->get_chromaticity_z(), z, tol, what);
  A3 t = w->get_tristimulus(), c = w->get_chromaticity_coordinate(); ai_eq(t[0], X, tol, what); ai_eq(t[1], Y, tol, what); ai_eq(t[2], Z, tol, what); ai_eq(c[0], x, tol, what); ai_eq(c[1], y, tol, what); ai_eq(c[2], z, tol, what);
}
typedef white_point_presets WP;
typedef white_point *(WP::*WF)();
struct Wh { const char *n; WF f; };
static const Wh ws[] = {{"D50_2Degree", &WP::D50_2Degree}, {"D55_2Degree", &WP::D55_2Degree}, {"D65_2Degree", &WP::D65_2Degree}, {"D75_2Degree", &WP::D75_2Degree}, {"A_2Degree", &WP::A_2Degree}, {"B_2Degree", &WP::B_2Degree}, {"C_2Degree", &WP::C_2Degree}, {"E_2Degree", &WP::E_2Degree},
  {"F1_2Degree", &WP::F1_2Degree}, {"F2_2Degree", &WP::F2_2Degree}, {"F3_2Degree", &WP::F3_2Degree}, {"F4_2Degree", &WP::F4_2Degree}, {"F5_2Degree", &WP::F5_2Degree}, {"F6_2Degree", &WP::F6_2Degree}, {"F7_2Degree", &WP::F7_2Degree}, {"F8_2Degree", &WP::F8_2Degree}, {"F9_2Degree", &WP::F9_2Degree},
  {"F10_2Degree", &WP::F10_2Degree}, {"F11_2Degree", &WP::F11_2Degree}, {"F12_2Degree", &WP::F12_2Degree}, {"D50_10Degree", &WP::D50_10Degree}, {"D55_10Degree", &WP::D55_10Degree}, {"D65_10Degree", &WP::D65_10Degree}, {"D75_10Degree", &WP::D75_10Degree}, {"A_10Degree", &WP::A_10Degree},
  {"B_10Degree", &WP::B_10Degree}, {"C_10Degree", &WP::C_10Degree}, {"E_10Degree", &WP::E_10Degree}, {"F1_10Degree", &WP::F1_10Degree}, {"F2_10Degree", &WP::F2_10Degree}, {"F3_10Degree", &WP::F3_10Degree}, {"F4_10Degree", &WP::F4_10Degree}, {"F5_10Degree", &WP::F5_10Degree}, {"F6_10Degree", &WP::F6_10Degree},
  {"F7_10Degree", &WP::F7_10Degree}, {"F8_10Degree", &WP::F8_10Degree}, {"F9_10Degree", &WP::F9_10Degree}, {"F10_10Degree", &WP::F10_10Degree}, {"F11_10Degree", &WP::F11_10Degree}, {"F12_10Degree", &WP::F12_10Degree}};
enum { NWH = sizeof ws / sizeof *ws };
// P39: white points
extern "C" void P39_white() {
  CASE("tristimulus", "", "", [&] { float X = ai_sym("X", 0, 100), Y = ai_sym("Y", 0.01, 100), Z = ai_sym("Z", 0, 100); double s = (double)X + Y + Z; white_point w(X, Y, Z); wp(&w, X, Y, Z, X / s, Y / s, Z / s, 1e-5, "chromaticities are the shares of the tristimulus values"); A3 c = white_point::tristimulus_to_chromaticity_coordinate(a3(X, Y, Z)); ai_eq(c[0], X / s, 1e-5, "chromaticities are the shares of the tristimulus values"); ai_eq(c[1], Y / s, 1e-5, "chromaticities are the shares of the tristimulus values"); ai_eq(c[2], Z / s, 1e-5, "chromaticities are the shares of the tristimulus values"); });
  CASE("chromaticity", "", "", [&] { float x = ai_sym("x", 0, 0.99), y = ai_sym("y", 0.01, 1); white_point w(x, y); wp(&w, x / y, 1, (1 - x - y) / y, x, y, 1 - x - y, 1e-5, "the tristimulus values have the chromaticity and Y of 1"); });
  CASE("chromaticity", "scaled", "", [&] { float x = ai_sym("x", 0, 0.99), y = ai_sym("y", 0.01, 1), Y = ai_sym("Y", 0.001, 100); A3 t = white_point::chromaticity_coordinate_to_tristimulus(a3(x, y, 1 - x - y), Y); ai_eq(t[0], x / y * Y, 1e-3, "the tristimulus values have the chromaticity and the Y given"); ai_eq(t[1], Y, 1e-3, "the tristimulus values have the chromaticity and the Y given"); ai_eq(t[2], (1 - x - y) / y * Y, 1e-3, "the tristimulus values have the chromaticity and the Y given"); });
  CASE("there and back", "", "", [&] { float X = ai_sym("X", 0, 100), Y = ai_sym("Y", 0.01, 100), Z = ai_sym("Z", 0, 100); A3 t = white_point::chromaticity_coordinate_to_tristimulus(white_point::tristimulus_to_chromaticity_coordinate(a3(X, Y, Z)), Y); ai_eq(t[0], X, 1e-4, "the conversions are inverse"); ai_eq(t[1], Y, 1e-4, "the conversions are inverse"); ai_eq(t[2], Z, 1e-4, "the conversions are inverse"); });
  CASE("both", "", "", [&] { float X = ai_sym("X", 0, 100), Y = ai_sym("Y", 0.01, 100), Z = ai_sym("Z", 0, 100), x = ai_sym("x", 0, 0.99), y = ai_sym("y", 0.01, 1); white_point w(X, Y, Z, x, y), v(a3(X, Y, Z), a2(x, y)), c(w), d(0.3f, 0.3f); d = w; wp(&w, X, Y, Z, x, y, 1 - x - y, 1e-5, "the values given are kept"); wp(&v, X, Y, Z, x, y, 1 - x - y, 1e-5, "the values given are kept"); wp(&c, X, Y, Z, x, y, 1 - x - y, 1e-5, "copies have the same values"); wp(&d, X, Y, Z, x, y, 1 - x - y, 1e-5, "copies have the same values"); });
  CASE("default", "", "", [&] { white_point w; wp(&w, 0, 0, 0, 0, 0, 0, 1e-6, "a default white point is 0"); });
  static const char *en[] = {"X", "Y", "Z", "x", "y"};
  CASE("equality", "", "", [&] { float v[5]; for (int i = 0; i < 5; ++i) v[i] = ai_symi("v", i, 0, 1); white_point a(v[0], v[1], v[2], v[3], v[4]), b(v[0], v[1], v[2], v[3], v[4]); const white_point &ca = a; ai_true(a == b && !(a != b) && ca == b && !(ca != b), "white points with the same values are equal"); });
  for (int k = 0; k < 5; ++k) CASE("equality", en[k], "", [&] { float v[5]; for (int i = 0; i < 5; ++i) v[i] = ai_symi("v", i, 0, 1); white_point a(v[0], v[1], v[2], v[3], v[4]); float o = v[k]; v[k] = ai_sym("w", 0, 1); ai_assume(o != v[k]); white_point b(v[0], v[1], v[2], v[3], v[4]); const white_point &ca = a; ai_true(!(a == b) && a != b && !(ca == b) && ca != b, "white points with different values are not equal"); });
}
extern "C" void P39_presets() {
  WP p;
  for (int k = 0; k < NWH; ++k) CASE(ws[k].n, "", "", [&] {
    white_point *w = (p.*ws[k].f)(); double x = w->get_chromaticity_x(), y = w->get_chromaticity_y(); ai_in(x, 0.25, 0.5, "the preset is a white"); ai_in(y, 0.25, 0.5, "the preset is a white");
    wp(w, x / y, 1, (1 - x - y) / y, x, y, 1 - x - y, 2e-3, "tristimulus values and chromaticity of the preset agree"); white_point *v = (p.*ws[k].f)(); ai_true(*w == *v && !(w == v), "presets are new objects of equal value");
  });
}
typedef rgb_color_space_definition_presets RP;
typedef rgb_def *(RP::*RF)();
struct Sp { const char *n; RF f; double c[6]; WF w; double g; };
static const Sp sps[] = {{"sRGB", &RP::sRGB, {.64, .33, .3, .6, .15, .06}, &WP::D65_2Degree, 0}, {"adobeRGB", &RP::adobeRGB, {.64, .33, .21, .71, .15, .06}, &WP::D65_2Degree, 2.19921875}, {"pal_secam", &RP::pal_secam, {.64, .33, .29, .6, .15, .06}, &WP::D65_2Degree, 2.8}, {"americaNTSC", &RP::americaNTSC, {.63, .34, .31, .595, .155, .07}, &WP::D65_2Degree, 2.2},
  {"oldNTSC", &RP::oldNTSC, {.67, .33, .21, .71, .14, .08}, &WP::C_2Degree, 2.2}, {"appleRGB", &RP::appleRGB, {.625, .34, .28, .595, .155, .07}, &WP::D65_2Degree, 1.8}, {"dci_p3", &RP::dci_p3, {.68, .32, .265, .69, .15, .06}, &WP::D65_2Degree, 2.6}, {"uhdtv", &RP::uhdtv, {.708, .292, .17, .797, .131, .046}, &WP::D65_2Degree, 0},
  {"adobeWideGammutRGB", &RP::adobeWideGammutRGB, {.735, .265, .115, .826, .157, .018}, &WP::D50_2Degree, 2.19921875}, {"rommRGB", &RP::rommRGB, {.7347, .2653, .1596, .8404, .0366, .0001}, &WP::D50_2Degree, 0}, {"bestRGB", &RP::bestRGB, {.7347, .2653, .215, .775, .13, .035}, &WP::D50_2Degree, 2.2}, {"betaRGB", &RP::betaRGB, {.6888, .3112, .1986, .7551, .1265, .0352}, &WP::D50_2Degree, 2.2},
  {"bruceRGB", &RP::bruceRGB, {.64, .33, .28, .65, .15, .06}, &WP::D65_2Degree, 2.2}, {"colorMatchRGB", &RP::colorMatchRGB, {.63, .34, .295, .605, .15, .075}, &WP::D50_2Degree, 1.8}, {"donRGB4", &RP::donRGB4, {.696, .3, .215, .765, .13, .035}, &WP::D50_2Degree, 2.2}, {"ektaSpacePS5", &RP::ektaSpacePS5, {.695, .305, .26, .7, .11, .005}, &WP::D50_2Degree, 2.2},
  {"ProPhotoRGB", &RP::ProPhotoRGB, {.7347, .2653, .1596, .8404, .0366, .0001}, &WP::D50_2Degree, 1.8}, {"SMPTE_C_RGB", &RP::SMPTE_C_RGB, {.63, .34, .31, .595, .155, .07}, &WP::D65_2Degree, 2.2}, {"cieRGB", &RP::cieRGB, {.7347, .2653, .2738, .7174, .1666, .0089}, &WP::E_2Degree, 2.2}, {"cieXYZ", &RP::cieXYZ, {1, 0, 0, 1, 0, 0}, &WP::E_2Degree, 2.2}};
enum { NSP = sizeof sps / sizeof *sps };
// the matrices of a definition are what primaries and white imply
static const char *dn3[] = {"red", "green", "blue"};
static void derived(rgb_def *d, const double *c, white_point *w, double tol) {
  A3 p[3] = {d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate()}; double z[9];
  for (int k = 0; k < 3; ++k) { z[3 * k] = c[2 * k]; z[3 * k + 1] = c[2 * k + 1]; z[3 * k + 2] = 1 - c[2 * k] - c[2 * k + 1]; for (int i = 0; i < 3; ++i) ai_eq(p[k][i], z[3 * k + i], 1e-5, "the primaries have the chromaticities given"); }
  double a[9] = {d->get_red_x(), d->get_red_y(), d->get_red_z(), d->get_green_x(), d->get_green_y(), d->get_green_z(), d->get_blue_x(), d->get_blue_y(), d->get_blue_z()}; for (int i = 0; i < 9; ++i) ai_eq(a[i], z[i], 1e-5, "the primaries have the chromaticities given");
  ai_peq(d->get_white_point(), w, "the white point is the one given");
  matrix<float> m = d->get_transform_matrix(), n = d->get_inverse_transform_matrix(); bool ok = m.rows() == 3 && m.columns() == 3 && n.rows() == 3 && n.columns() == 3; ai_true(ok, "the matrices are 3 by 3"); if (!ok) return;
  A3 t = w->get_tristimulus();
  for (int i = 0; i < 3; ++i) {
    ai_eq((double)m(i, 0) + m(i, 1) + m(i, 2), t[i], tol, "white of the space is its white point");
    for (int k = 0; k < 3; ++k) { double s = (double)m(0, k) + m(1, k) + m(2, k); ai_eq(m(i, k), s * z[3 * k + i], tol, "each primary has its chromaticity"); double e = 0; for (int j = 0; j < 3; ++j) e += (double)m(i, j) * n(j, k); ai_eq(e, i == k, tol, "the two matrices are inverse to each other"); }
  }
}
extern "C" void P40_definition() {
  static const char *pn[] = {"red", "green", "blue", "white"};
  static const double base[6] = {.64, .33, .3, .6, .15, .06};
  gamma_presets gs; WP ps;
  for (int k = 0; k < 4; ++k) for (int arr = 0; arr < 2; ++arr) CASE("definition", pn[k], arr ? "from arrays" : "", [&] {
    float c[6]; double d[6]; for (int i = 0; i < 6; ++i) c[i] = i / 2 == k ? ai_symi("c", i, base[i] - 0.04, base[i] + 0.04) : (float)base[i]; for (int i = 0; i < 6; ++i) d[i] = c[i];
    white_point *w = k == 3 ? new white_point(ai_sym("X", 0.8, 1.1), 1, ai_sym("Z", 0.4, 1.2), 0.3f, 0.3f) : ps.D65_2Degree(); color_space::gamma *g = gs.sRGB();
    rgb_def *s = arr ? new rgb_def(a2(c[0], c[1]), a2(c[2], c[3]), a2(c[4], c[5]), w, g) : new rgb_def(c[0], c[1], c[2], c[3], c[4], c[5], w, g); derived(s, d, w, 1e-3); ai_peq(s->get_gamma_curve(), g, "the gamma curve is the one given");
  });
  for (int y = 0; y < 2; ++y) CASE("definition", "white of another luminance", y ? "bright" : "dim", [&] {
    float Y = ai_sym("Y", y ? 1 : 0.1, y ? 3 : 1); white_point *w = new white_point(ai_sym("X/Y", 0.8, 1.1) * Y, Y, ai_sym("Z/Y", 0.4, 1.2) * Y); derived(new rgb_def(.64f, .33f, .3f, .6f, .15f, .06f, w, gs.sRGB()), base, w, 1e-3);
  });
  for (int l = 0; l < 2; ++l) CASE("change white", l ? "other luminance" : "", "", [&] {
    white_point *w = new white_point(ai_sym("X", 0.8, 1.1), l ? ai_sym("Y", 0.95, 1.05) : 1, ai_sym("Z", 0.4, 1.2), 0.3f, 0.3f), *o = ps.D65_2Degree(); color_space::gamma *g = gs.sRGB(), *h = gs.gamma1_8(); rgb_def *s = new rgb_def(.64f, .33f, .3f, .6f, .15f, .06f, o, g), *c = new rgb_def(*s); c->set_white_point(w); derived(c, base, w, 1e-3); derived(s, base, o, 1e-3); ai_peq(c->get_gamma_curve(), g, "changing the white keeps the gamma curve");
    rgb_def *e = new rgb_def(*s); derived(e, base, o, 1e-3); ai_peq(e->get_gamma_curve(), g, "copies have the same gamma curve"); e->set_gamma_curve(h); ai_peq(e->get_gamma_curve(), h, "the gamma curve can be replaced"); ai_peq(s->get_gamma_curve(), g, "copies are independent"); derived(e, base, o, 1e-3);
    wp(o, 0.9504, 1, 1.0888, 0.3127, 0.3290, 0.3583, 1e-5, "white points given are unchanged");
  });
}
// spaces of any gamut: wide, narrow, with swapped primaries; copies have the very same matrices
extern "C" void P40_gamuts() {
  static const struct { const char *n; double c[6]; } gs_[] = {{"narrow", {.45, .35, .32, .4, .28, .25}}, {"narrower", {.36, .33, .31, .37, .29, .29}}, {"wide", {.73, .26, .16, .83, .03, .01}}, {"swapped primaries", {.15, .06, .3, .6, .64, .33}}, {"imaginary primaries", {.9, .2, -.1, 1.1, .1, -.1}}};
  gamma_presets gs;
  for (auto &q : gs_) for (int k = 0; k < 4; ++k) CASE(q.n, k < 3 ? "primary varies" : "white varies", k < 3 ? dn3[k] : "", [&] {
    float c[6]; double d[6]; for (int i = 0; i < 6; ++i) { c[i] = i / 2 == k ? ai_symi("c", i, q.c[i] - 0.005, q.c[i] + 0.005) : (float)q.c[i]; d[i] = c[i]; }
    white_point *w = k == 3 ? new white_point(ai_sym("X", 0.94, 0.96), 1, ai_sym("Z", 1.06, 1.1), 0.3f, 0.3f) : new white_point(0.95f, 1, 1.09f, 0.3f, 0.3f);
    rgb_def *s = new rgb_def(c[0], c[1], c[2], c[3], c[4], c[5], w, gs.sRGB()), *e = new rgb_def(*s); derived(s, d, w, 1e-3);
    matrix<float> m = s->get_transform_matrix(), n = s->get_inverse_transform_matrix(), f = e->get_transform_matrix(), g = e->get_inverse_transform_matrix(); bool ok = f.rows() == 3 && f.columns() == 3 && g.rows() == 3 && g.columns() == 3; ai_true(ok, "the matrices are 3 by 3"); if (!ok) return;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ai_eq(f(i, j), m(i, j), 1e-6, "copies have the same matrices"); ai_eq(g(i, j), n(i, j), 1e-6, "copies have the same matrices"); }
  });
}
extern "C" void P40_presets() {
  RP p; WP q;
  for (int k = 0; k < NSP; ++k) CASE(sps[k].n, "", "", [&] {
    rgb_def *s = (p.*sps[k].f)(); derived(s, sps[k].c, s->get_white_point(), 1e-3); white_point *w = (q.*sps[k].w)(); ai_true(*s->get_white_point() == *w, "the preset has the documented white");
    float x = ai_sym("x", 0.1, 1); if (sps[k].g > 0) { ai_eq(s->get_gamma_curve()->gamma_correction(x), pow(x, 1 / sps[k].g), 1e-4, "the preset has the documented gamma"); ai_eq(s->get_gamma_curve()->inverse_gamma_correction(x), pow(x, sps[k].g), 1e-4, "the preset has the documented gamma"); }
  });
}
