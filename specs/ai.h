// Intrinsics of the cmai analyser and helpers shared by the property specifications.
// A specification is code that is only ever interpreted abstractly, never run: it builds inputs from
// free symbols, calls the library, and states obligations about the resulting values.
#pragma once
#include "spaces/rgb_truecolor.h"
#include "spaces/rgb_deepcolor.h"
#include "spaces/grey_truecolor.h"
#include "spaces/grey_deepcolor.h"
#include "spaces/cmyk.h"
#include "spaces/hsi.h"
#include "spaces/hsv.h"
#include "spaces/hsl.h"
#include "spaces/hcy.h"
#include "spaces/xyz.h"
#include "spaces/xyy.h"
#include "spaces/cieluv.h"
#include "spaces/lab.h"
#include "spaces/lch_ab.h"
#include "spaces/lch_uv.h"
#include "manipulation/color_converter.h"
#include "manipulation/color_calculation.h"
#include "manipulation/color_blend.h"
#include "manipulation/porter_duff.h"
#include "manipulation/color_adjustments.h"
#include "manipulation/color_combinations.h"
#include "manipulation/color_distance.h"
#include "manipulation/chromatic_adaptation.h"
#include "utils/matrix.h"
#include "utils/colors.h"

extern "C" {
float ai_sym(const char *name, double lo, double hi);            // any real in [lo,hi]
float ai_symi(const char *name, int idx, double lo, double hi);
float ai_any(const char *name);                                  // any float including NaN and infinities
float ai_anyi(const char *name, int idx);
float ai_finite(const char *name);                               // any finite float
int ai_int(const char *name, double lo, double hi);
void ai_assume(bool c);
void ai_eq(double a, double b, double tol, const char *what);
void ai_in(double x, double lo, double hi, const char *what);
void ai_true(bool c, const char *what);
void ai_peq(const void *p, const void *q, const char *what);
void ai_expect_throw(const char *type);
void ai_allow_throw();
void ai_case(const char *l1, const char *l2, const char *l3, void (*fn)(const void *), const void *arg);
void ai_havoc_statics();
void ai_dump(double x, const char *name);
bool ai_is_null(const void *p);
int ai_decided(bool c);
}

using namespace color_space;
using namespace color_manipulation;
typedef rgb_color_space_definition rgb_def;

template <class F> static void ai_thunk(const void *p) { (*(const F *)p)(); }
template <class F> static void CASE(const char *l1, const char *l2, const char *l3, const F &f) { ai_case(l1, l2, l3, &ai_thunk<F>, &f); }

enum { NT = 15 };
static inline const char *tname(int t) {
  switch (t) {
  case RGB_TRUE: return "rgb_true"; case RGB_DEEP: return "rgb_deep"; case GREY_TRUE: return "grey_true"; case GREY_DEEP: return "grey_deep";
  case CMYK: return "cmyk"; case HSI: return "hsi"; case HSV: return "hsv"; case HSL: return "hsl"; case HCY: return "hcy";
  case XYZ: return "xyz"; case XYY: return "xyy"; case CIELUV: return "cieluv"; case LAB: return "lab"; case LCH_AB: return "lch_ab"; case LCH_UV: return "lch_uv";
  }
  return "undefined";
}
static inline int ncomp(int t) { return t == CMYK ? 4 : (t == GREY_TRUE || t == GREY_DEEP) ? 1 : 3; }
static inline bool istrue(int t) { return t == RGB_TRUE || t == GREY_TRUE; }
static inline bool ishue(int t, int i) { return ((t == HSI || t == HSV || t == HSL || t == HCY) && i == 0) || ((t == LCH_AB || t == LCH_UV) && i == 2); }
// documented component bounds
static inline double clo(int t, int i) {
  if (t == LAB) return i ? -128 : 0;
  if (t == CIELUV) return i ? -100 : 0;
  return 0;
}
static inline double chi(int t, int i) {
  if (ishue(t, i)) return 359;
  if (istrue(t)) return 255;
  if (t == LAB) return i ? 128 : 100;
  if (t == CIELUV || t == XYZ || t == LCH_AB || t == LCH_UV) return 100;
  if (t == XYY) return i == 2 ? 100 : 1;
  return 1;
}
// largest value a component may hold (for xyY the type allows 0..100 although chromaticities stay below 1)
static inline double cmax(int t, int i) { return t == XYY ? 100 : chi(t, i); }
static inline color_base *mkc(int t, const float *v, float alpha, rgb_def *s) {
  switch (t) {
  case RGB_TRUE: return new rgb_truecolor(v[0], v[1], v[2], alpha * 255.f, s);
  case RGB_DEEP: return new rgb_deepcolor(v[0], v[1], v[2], alpha, s);
  case GREY_TRUE: return new grey_truecolor(v[0], alpha * 255.f, s);
  case GREY_DEEP: return new grey_deepcolor(v[0], alpha, s);
  case CMYK: return new cmyk(v[0], v[1], v[2], v[3], alpha, s);
  case HSI: return new hsi(v[0], v[1], v[2], alpha, s);
  case HSV: return new hsv(v[0], v[1], v[2], alpha, s);
  case HSL: return new hsl(v[0], v[1], v[2], alpha, s);
  case HCY: return new hcy(v[0], v[1], v[2], alpha, s);
  case XYZ: return new xyz(v[0], v[1], v[2], alpha, s);
  case XYY: return new xyy(v[0], v[1], v[2], alpha, s);
  case CIELUV: return new cieluv(v[0], v[1], v[2], alpha, s);
  case LAB: return new lab(v[0], v[1], v[2], alpha, s);
  case LCH_AB: return new lch_ab(v[0], v[1], v[2], alpha, s);
  case LCH_UV: return new lch_uv(v[0], v[1], v[2], alpha, s);
  }
  return nullptr;
}
// a colour of the given type with every component free inside its documented range
static inline color_base *symc(int t, const char *pre, rgb_def *s) {
  float v[4];
  for (int i = 0; i < ncomp(t); ++i) v[i] = ai_symi(pre, i, clo(t, i), chi(t, i));
  return mkc(t, v, ai_symi(pre, 9, 0, 1), s);
}
static inline rgb_def *srgb() { rgb_color_space_definition_presets p; return p.sRGB(); }
static inline rgb_def *adobe() { rgb_color_space_definition_presets p; return p.adobeRGB(); }
// alpha on the 0..1 scale for every type
static inline float alpha01(const color_base *c) { return istrue(c->get_color_type()) ? c->alpha() / 255.f : c->alpha(); }

struct Snap { int type; int n; float v[5]; float a; rgb_def *s; };
static inline Snap snap(const color_base *c) {
  Snap r; r.type = c->get_color_type(); std::vector<float> v = c->get_component_vector(); r.n = (int)v.size();
  for (int i = 0; i < 5; ++i) r.v[i] = i < r.n ? v[i] : 0.f;
  r.a = c->alpha(); r.s = c->get_rgb_color_space(); return r;
}
static inline void unchanged(const Snap &o, const color_base *c, const char *what) {
  Snap n = snap(c);
  ai_true(n.type == o.type && n.n == o.n, what);
  ai_peq(n.s, o.s, what);
  ai_eq(n.a, o.a, 1e-6, what);
  for (int i = 0; i < o.n && i < 5; ++i) ai_eq(n.v[i], o.v[i], 1e-6, what);
}
// two colours are the same
static inline void same(color_base *r, color_base *e, const char *what) {
  ai_true(r && e, what);
  if (!r || !e) return;
  Snap a = snap(r), b = snap(e);
  ai_true(a.type == b.type && a.n == b.n, what); ai_peq(a.s, b.s, what);
  for (int i = 0; i < b.n && i < 5; ++i) {
    if (!ishue(b.type, i)) { ai_eq(a.v[i], b.v[i], 1e-3, what); continue; }
    // an angle, meaningless for greys
    float d = a.v[i] < b.v[i] ? b.v[i] - a.v[i] : a.v[i] - b.v[i];
    ai_true(d <= 0.1f || d >= 358.f || (b.type >= CIELUV ? b.v[1] < 0.5f : b.v[1] < 0.01f), what);
  }
  ai_eq(a.a, b.a, 1e-3, what);
}
