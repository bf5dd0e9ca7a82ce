#include "ai.h"
typedef color_base *(*PD)(color_base *, color_base *);
typedef color_base *(*BL)(color_base *, color_base *, bool, bool);
static float lim(float v, float lo, float hi) { return v < lo ? lo : v > hi ? hi : v; }
enum { fS, fD, f0 };
struct PdOp { const char *n; PD f; bool s, d, b; int k; };
static const PdOp pds[] = {
  {"src", porter_duff::src, true, false, true, fS}, {"dest", porter_duff::dest, false, true, true, fD}, {"atop", porter_duff::atop, false, true, true, fS}, {"dest_atop", porter_duff::dest_atop, true, false, true, fD},
  {"over", porter_duff::over, true, true, true, fS}, {"dest_over", porter_duff::dest_over, true, true, true, fD}, {"in", porter_duff::in, false, false, true, fS}, {"dest_in", porter_duff::dest_in, false, false, true, fD},
  {"out", porter_duff::out, true, false, false, f0}, {"dest_out", porter_duff::dest_out, false, true, false, f0}, {"x_or", porter_duff::x_or, true, true, false, f0}, {"clear", porter_duff::clear, false, false, false, f0}};
enum { NPD = 12, NSEP = 22, NNON = 4 };
// separable modes: the colour of the region covered by both
static float hard(float s, float d) { return s <= 0.5f ? 2.f * s * d : 1.f - 2.f * (1.f - s) * (1.f - d); }
static float F(int k, float s, float d) {
  switch (k) {
  case 0: return s;
  case 1: return s * d;
  case 2: return s + d - s * d;
  case 3: return hard(d, s);
  case 4: return s < d ? s : d;
  case 5: return s < d ? d : s;
  case 6: return d == 0.f ? 0.f : s == 1.f ? 1.f : (d / (1.f - s) <= 1.f ? d / (1.f - s) : 1.f);
  case 7: return s + d;
  case 8: return d == 1.f ? 0.f : s == 0.f ? 1.f : ((1.f - d) / s <= 1.f ? (1.f - d) / s : 1.f);
  case 9: return s + d - 1.f;
  case 10: return hard(s, d);
  case 11: return s <= 0.5f ? d * (s + 0.5f) : 1.f - (1.f - d) * (1.5f - s);
  case 12:
    if (s <= 0.5f) return d == 0.f ? 0.f : s == 0.5f ? 1.f : d / (1.f - 2.f * s);
    return d == 1.f ? 1.f : s == 1.f ? 0.f : 1.f - (1.f - d) / (2.f * s - 1.f);
  case 13: return s <= 0.5f ? d + 2.f * s - 1.f : d + 2.f * s - 1.f;
  case 14: return s <= 0.5f ? (d < 2.f * s ? d : 2.f * s) : (d > 2.f * s - 1.f ? d : 2.f * s - 1.f);
  case 15: return s + d < 1.f ? 0.f : 1.f;
  case 16: return s < d ? d - s : s - d;
  case 17: return s - d;
  case 18: return d == 0.f ? 0.f : s == 0.f ? 1.f : d / s;
  case 19: return s + d;
  case 20: return s + d - 1.f;
  case 21: return s + d - 2.f * s * d;
  }
  return 0;
}
typedef color_blend B;
struct BlOp { const char *n; BL f; };
static const BlOp bls[] = {{"normal", B::normal}, {"multiply", B::multiply}, {"screen", B::screen}, {"overlay", B::overlay}, {"darken", B::darken}, {"lighten", B::lighten}, {"color_dodge", B::color_dodge}, {"linear_dodge", B::linear_dodge},
  {"color_burn", B::color_burn}, {"linear_burn", B::linear_burn}, {"hard_light", B::hard_light}, {"soft_light", B::soft_light}, {"vivid_light", B::vivid_light}, {"linear_light", B::linear_light}, {"pin_light", B::pin_light},
  {"hard_mix", B::hard_mix}, {"difference", B::difference}, {"subtract", B::subtract}, {"divide", B::divide}, {"plus_lighter", B::plus_lighter}, {"plus_darker", B::plus_darker}, {"exclusion", B::exclusion},
  {"hue", B::hue}, {"saturation", B::saturation}, {"color", B::color}, {"luminosity", B::luminosity}, {"dissolve", B::dissolve}};
enum { NBL = 27, DISS = 26, NOP = NPD + NBL };
static const char *opname(int k) { return k < NPD ? pds[k].n : bls[k - NPD].n; }
static color_base *op(int k, color_base *a, color_base *b, bool us = true, bool ud = true) { return k < NPD ? pds[k].f(a, b) : bls[k - NPD].f(a, b, us, ud); }
static const char *flagname(bool s, bool d) { return s ? d ? "both regions" : "source region" : d ? "destination region" : "no region"; }

struct Exp { float a, c[3]; };
template <class G> static Exp expect(color_base *a, color_base *b, bool us, bool ud, bool ub, const G &g) {
  Exp e; float sa = a->alpha(), da = b->alpha();
  e.a = (us ? sa * (1 - da) : 0.f) + (ud ? da * (1 - sa) : 0.f) + (ub ? sa * da : 0.f);
  for (int i = 0; i < 3; ++i) {
    float s = a->get_component(i), d = b->get_component(i);
    float t = (us ? sa * (1 - da) * s : 0.f) + (ud ? da * (1 - sa) * d : 0.f) + (ub ? sa * da * g(s, d) : 0.f);
    e.c[i] = e.a == 0.f ? 0.f : lim(t, 0, 1) / e.a;
    e.c[i] = lim(e.c[i], 0, 1);
  }
  return e;
}
static void check(color_base *r, const Exp &e, rgb_def *s) {
  ai_true(r != nullptr, "a colour is returned");
  if (!r) return;
  ai_true(r->get_color_type() == RGB_DEEP, "the result has the type of the source"); ai_peq(r->get_rgb_color_space(), s, "the result is in the working space of the source");
  ai_eq(r->alpha(), e.a, 1e-4, "opacity is the area of the kept regions");
  for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), e.c[i], 1e-3, "the colour is the mean of the kept regions' colours weighted by area");
}
// P19: Porter-Duff operators
extern "C" void P19_porter_duff() {
  rgb_def *s = srgb();
  for (int k = 0; k < NPD; ++k) CASE(pds[k].n, "", "", [&] {
    auto run = [&] {
      color_base *a = symc(RGB_DEEP, "s", s), *b = symc(RGB_DEEP, "d", s);
      Exp e = expect(a, b, pds[k].s, pds[k].d, pds[k].b, [&](float x, float y) { return pds[k].k == fS ? x : pds[k].k == fD ? y : 0.f; });
      check(pds[k].f(a, b), e, s);
    };
    CASE("translucent", "", "", [&] { run(); });
    CASE("one object", "", "", [&] {
      color_base *a = symc(RGB_DEEP, "s", s);
      Exp e = expect(a, a, pds[k].s, pds[k].d, pds[k].b, [&](float x, float y) { return pds[k].k == fS ? x : pds[k].k == fD ? y : 0.f; });
      check(pds[k].f(a, a), e, s);
    });
  });
}
// P20: separable blend modes
extern "C" void P20_separable() {
  rgb_def *s = srgb();
  for (int k = 0; k < NSEP; ++k) CASE(bls[k].n, "", "", [&] {
    for (int us = 0; us < 2; ++us) for (int ud = 0; ud < 2; ++ud) CASE(flagname(us, ud), "", "", [&] {
      color_base *a = symc(RGB_DEEP, "s", s), *b = symc(RGB_DEEP, "d", s);
      Exp e = expect(a, b, us, ud, true, [&](float x, float y) { return F(k, x, y); });
      check(bls[k].f(a, b, us, ud), e, s);
    });
    CASE("opaque", "", "", [&] {
      float v[3] = {ai_sym("s0", 0, 1), ai_sym("s1", 0, 1), ai_sym("s2", 0, 1)}, w[3] = {ai_sym("d0", 0, 1), ai_sym("d1", 0, 1), ai_sym("d2", 0, 1)};
      color_base *r = bls[k].f(mkc(RGB_DEEP, v, 1, s), mkc(RGB_DEEP, w, 1, s), true, true);
      ai_eq(r->alpha(), 1, 1e-4, "two opaque colours give an opaque one");
      for (int i = 0; i < 3; ++i) ai_eq(r->get_component(i), lim(F(k, v[i], w[i]), 0, 1), 1e-3, "each channel of two opaque colours is the mode's function, limited to the range");
    });
  });
  for (int us = 0; us < 2; ++us) for (int ud = 0; ud < 2; ++ud) CASE("custom", flagname(us, ud), "", [&] {
    color_base *a = symc(RGB_DEEP, "s", s), *b = symc(RGB_DEEP, "d", s); float p = ai_sym("p", -2, 2), q = ai_sym("q", -2, 2);
    Exp e = expect(a, b, us, ud, true, [&](float x, float y) { return p * x + q * y * y; });
    check(B::custom_componentwise_blend(a, b, us, ud, [p, q](float x, float y) { return p * x + q * y * y; }), e, s);
  });
}
// P20: dissolving shows one of the two colours
extern "C" void P20_dissolve() {
  rgb_def *s = srgb();
  CASE("opaque", "", "", [&] {
    float v[3] = {ai_sym("s0", 0, 1), ai_sym("s1", 0, 1), ai_sym("s2", 0, 1)}, w[3] = {ai_sym("d0", 0, 1), ai_sym("d1", 0, 1), ai_sym("d2", 0, 1)};
    color_base *r = B::dissolve(mkc(RGB_DEEP, v, 1, s), mkc(RGB_DEEP, w, 1, s), true, true);
    ai_eq(r->alpha(), 1, 1e-4, "two opaque colours give an opaque one");
    for (int i = 0; i < 3; ++i) ai_eq((r->get_component(i) - v[i]) * (r->get_component(i) - w[i]), 0, 1e-3, "each channel of two opaque colours is that of one of them");
  });
  for (int us = 0; us < 2; ++us) for (int ud = 0; ud < 2; ++ud) CASE(flagname(us, ud), "", "", [&] {
    float v[3] = {ai_sym("s0", 0, 1), ai_sym("s1", 0, 1), ai_sym("s2", 0, 1)}, w[3] = {ai_sym("d0", 0, 1), ai_sym("d1", 0, 1), ai_sym("d2", 0, 1)};
    float sa = ai_sym("sa", 0.01, 1), da = ai_sym("da", 0.01, 1);
    color_base *r = B::dissolve(mkc(RGB_DEEP, v, sa, s), mkc(RGB_DEEP, w, da, s), us, ud);
    float x = us ? sa * (1 - da) : 0.f, y = ud ? da * (1 - sa) : 0.f, z = sa * da;
    ai_eq(r->alpha(), x + y + z, 1e-4, "opacity is the kept area");
    for (int i = 0; i < 3; ++i) {
      float t = r->get_component(i) * (x + y + z) - x * v[i] - y * w[i];
      ai_eq((t - z * v[i]) * (t - z * w[i]), 0, 1e-3, "each channel is that of one of the colours where both are");
    }
  });
}
// P21: hue, saturation, color and luminosity
extern "C" void P21_nonseparable() {
  rgb_def *s = srgb();
  for (int k = 0; k < NNON; ++k) for (int t = 0; t < NT; ++t) CASE(bls[NSEP + k].n, tname(t), "", [&] {
    for (int u = 0; u < NT; ++u) if (t == HCY || t == RGB_DEEP || u == HCY || u == RGB_DEEP || t == u) CASE("on", tname(u), "", [&] {
      float v[4], w[4]; for (int i = 0; i < ncomp(t); ++i) v[i] = ai_symi("s", i, clo(t, i), chi(t, i)); for (int i = 0; i < ncomp(u); ++i) w[i] = ai_symi("d", i, clo(u, i), chi(u, i));
      color_base *a = mkc(t, v, 1, s), *b = mkc(u, w, 1, s);
      hcy *p = color_converter::to_hcy(a), *q = color_converter::to_hcy(b);
      hcy *e = new hcy(k == 0 || k == 2 ? p->hue() : q->hue(), k == 1 || k == 2 ? p->chroma() : q->chroma(), k == 3 ? p->luma() : q->luma(), 1.f, s);
      same(bls[NSEP + k].f(a, b, true, true), color_converter::convertTo(e, (color_type)t), "opaque colours exchange hue, chroma and luma as the mode says");
    });
  });
}
// P22: invalid operands
extern "C" void P22_guards() {
  rgb_def *s = srgb(), *s2 = adobe();
  auto each = [&](const char *n, const std::function<void(color_base *, color_base *)> &f) {
    CASE(n, "", "", [&] {
      for (int t = 0; t < NT; ++t) CASE(tname(t), "", "", [&] {
        CASE("missing source", "", "", [&] { ai_expect_throw(""); f(nullptr, symc(t, "d", s)); });
        CASE("missing destination", "", "", [&] { ai_expect_throw(""); f(symc(t, "s", s), nullptr); });
        CASE("different working spaces", "", "", [&] { ai_expect_throw(""); f(symc(t, "s", s), symc(t, "d", s2)); });
        CASE("equal but distinct working spaces", "", "", [&] { ai_allow_throw(); f(symc(t, "s", s), symc(t, "d", srgb())); });
        CASE("valid operands", "", "", [&] { f(symc(t, "s", s), symc(t, "d", s)); });
      });
      CASE("both missing", "", "", [&] { ai_expect_throw(""); f(nullptr, nullptr); });
    });
  };
  for (int k = 0; k < NOP; ++k) if (k != NPD + DISS) each(opname(k), [&](color_base *a, color_base *b) { op(k, a, b); });
  each("custom", [&](color_base *a, color_base *b) { B::custom_componentwise_blend(a, b, true, true, [](float x, float y) { return x * y; }); });
  CASE("dissolve", "", "", [&] {
    CASE("missing source", "", "", [&] { ai_expect_throw(""); B::dissolve(nullptr, symc(RGB_DEEP, "d", s), true, true); });
    CASE("missing destination", "", "", [&] { ai_expect_throw(""); B::dissolve(symc(RGB_DEEP, "s", s), nullptr, true, true); });
    CASE("different working spaces", "", "", [&] { ai_expect_throw(""); B::dissolve(symc(RGB_DEEP, "s", s), symc(RGB_DEEP, "d", s2), true, true); });
  });
}
// P23: what every compositing operation guarantees about its result
extern "C" void P23_result() {
  rgb_def *s = srgb();
  for (int k = 0; k < NOP; ++k) CASE(opname(k), "", "", [&] {
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if (u == HSL || t == RGB_DEEP || t == u) CASE(tname(t), tname(u), "", [&] {
      color_base *a = symc(t, "s", s), *b = symc(u, "d", s); Snap p = snap(a), q = snap(b);
      color_base *r = op(k, a, b);
      ai_true(r != nullptr, "a colour is returned");
      unchanged(p, a, "the source is unchanged"); unchanged(q, b, "the destination is unchanged");
      if (!r) return;
      ai_true(r->get_color_type() == t, "the result has the type of the source"); ai_peq(r->get_rgb_color_space(), s, "the result is in the working space of the source");
      for (int i = 0; i < ncomp(t); ++i) ai_in(r->get_component(i), clo(t, i), ishue(t, i) ? 360 : cmax(t, i), "the result is in range");
      ai_in(alpha01(r), 0, 1, "the result is in range");
      ai_true((void *)r != (void *)a && (void *)r != (void *)b, "the result is a new object");
    });
  });
}
// P24: mixed types are composited as deep rgb colours
static void mixed(int k, int t, int u, rgb_def *s) {
  color_base *a = symc(t, "s", s), *b = symc(u, "d", s);
  color_base *r = op(k, a, b);
  same(r, color_converter::convertTo(op(k, color_converter::to_rgb_deep(a), color_converter::to_rgb_deep(b)), (color_type)t), "mixed types are composited as deep rgb and converted back to the type of the source");
}
extern "C" void P24_types() {
  rgb_def *s = srgb();
  for (int k = 0; k < NPD + NSEP; ++k) CASE(opname(k), "", "", [&] {
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if ((u == HSL || t == RGB_DEEP) && t + u != 2 * RGB_DEEP) CASE(tname(t), tname(u), "", [&] {
      mixed(k, t, u, s);
    });
  });
  // every other pair of types, spread over the operators
  for (int k = 0; k < NPD + NSEP; ++k) CASE(opname(k), "", "", [&] {
    for (int t = 0; t < NT; ++t) { int u = (t + k) % NT; if (u != HSL && t != RGB_DEEP) CASE(tname(t), tname(u), "", [&] { mixed(k, t, u, s); }); }
  });
  // the non-separable modes read hue, chroma and luma of HCY operands as they are, of all others as of deep rgb colours
  for (int k = NPD + NSEP; k < NPD + NSEP + NNON; ++k) CASE(opname(k), "", "", [&] {
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if ((u == HSL || t == RGB_DEEP) && t != HCY && u != HCY && t + u != 2 * RGB_DEEP) CASE(tname(t), tname(u), "", [&] { mixed(k, t, u, s); });
  });
  // dissolving draws at random which colour shows: with the same draws the same shows for colours of any type
  CASE("dissolve", "", "", [&] {
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) if (u == HSL || u == RGB_TRUE || t == RGB_DEEP) CASE(tname(t), tname(u), "", [&] {
      color_base *a = symc(t, "s", s), *b = symc(u, "d", s);
      srand(7); color_base *r = B::dissolve(a, b, true, true);
      srand(7); color_base *q = B::dissolve(color_converter::to_rgb_deep(a), color_converter::to_rgb_deep(b), true, true);
      same(r, color_converter::convertTo(q, (color_type)t), "mixed types dissolve as deep rgb colours do with the same draws");
    });
  });
  CASE("dissolve", "cover", "", [&] {
    color_base *a = symc(RGB_DEEP, "s", s), *b = symc(RGB_DEEP, "d", s); float sa = a->alpha(), da = b->alpha();
    color_base *r = B::dissolve(a, b, true, true);
    ai_eq(r->alpha(), sa + da - sa * da, 1e-4, "dissolving covers what over covers");
  });
}
