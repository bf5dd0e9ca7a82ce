#include "ai.h"
#include <string>
static const char *num[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14"};
// any hexadecimal digit (either case) and its value
static char digit(int i, int &value) {
  static const char *dn[] = {"decimal0", "decimal1", "decimal2", "decimal3", "decimal4", "decimal5", "decimal6", "decimal7", "decimal8", "decimal9", "decimal10", "decimal11", "decimal12", "decimal13", "decimal14"};
  static const char *ln[] = {"letter0", "letter1", "letter2", "letter3", "letter4", "letter5", "letter6", "letter7", "letter8", "letter9", "letter10", "letter11", "letter12", "letter13", "letter14"};
  static const char *kn[] = {"kind0", "kind1", "kind2", "kind3", "kind4", "kind5", "kind6", "kind7", "kind8", "kind9", "kind10", "kind11", "kind12", "kind13", "kind14"};
  int d = ai_int(dn[i], 0, 9), l = ai_int(ln[i], 0, 5), k = ai_int(kn[i], 0, 2);
  value = k == 0 ? d : 10 + l;
  return (char)(k == 0 ? '0' + d : k == 1 ? 'a' + l : 'A' + l);
}
struct Text { char b[20]; int v[20]; int n; int o; };
static Text digits(int n, bool hash) { Text t; t.o = hash; t.n = n + t.o; if (hash) t.b[0] = '#'; for (int i = 0; i < n; ++i) t.b[i + t.o] = digit(i, t.v[i]); return t; }
static void make(const Text &t) { std::string h(t.b, (size_t)t.n); rgb_truecolor c(h, srgb()); }
extern "C" void P48_components() {
  for (int hash = 0; hash < 2; ++hash) for (int n = 6; n < 9; n += 2) CASE(hash ? "with hash" : "without hash", num[n], "digits", [&] {
    Text t = digits(n, hash); rgb_def *s = srgb(); std::string h(t.b, (size_t)t.n); rgb_truecolor c(h, s); int o = n - 6;
    for (int i = 0; i < 3; ++i) ai_eq(c.get_component(i), 16 * t.v[o + 2 * i] + t.v[o + 2 * i + 1], 1e-3, "the component is what the digits spell");
    ai_eq(c.alpha(), n == 6 ? 255 : 16 * t.v[0] + t.v[1], 1e-3, "the opacity is what the digits spell, fully opaque without");
    ai_true(c.get_color_type() == color_type::RGB_TRUE && (int)c.get_component_vector().size() == 3, "the color is an 8 bit rgb color"); ai_peq(c.get_rgb_color_space(), s, "the color has the given working space");
    ai_true((int)h.size() == t.n, "the text is unchanged");
    ai_eq(c.get_component_min(), 0, 1e-6, "the bounds are those of 8 bit colours"); ai_eq(c.get_component_max(), 255, 1e-6, "the bounds are those of 8 bit colours");
    float v = ai_any("v"); c.green(v); c.set_component(v, 0); for (int i = 0; i < 3; ++i) ai_in(c.get_component(i), 0, 255, "components set later stay in range");
  });
}
extern "C" void P48_length() {
  for (int hash = 0; hash < 2; ++hash) for (int n = 0; n < 13; ++n) if (n != 6 && n != 8) CASE(hash ? "with hash" : "without hash", num[n], "digits", [&] { Text t = digits(n, hash); ai_expect_throw(""); make(t); });
}
// every character that is no hexadecimal digit, by code range
static const int bad[][2] = {{-128, -1}, {0, '"'}, {'#', '#'}, {'$', '/'}, {':', '@'}, {'G', '`'}, {'g', 127}};
static const char *badn[] = {"not ascii", "below hash", "hash", "above hash", "between digits and letters", "between upper and lower case", "above the letters"};
extern "C" void P48_characters() {
  for (int hash = 0; hash < 2; ++hash) for (int n = 6; n < 9; n += 2) for (int p = 0; p < n; ++p) CASE(hash ? "with hash" : "without hash", num[n], num[p], [&] {
    for (int k = 0; k < 7; ++k) CASE(badn[k], "", "", [&] {
      Text t = digits(n, hash); t.b[p + t.o] = (char)ai_int("character", bad[k][0], bad[k][1]);
      if (k == 2 && p == 0 && !hash) return; // a leading hash followed by one digit less: see the lengths
      ai_expect_throw(""); make(t); });
  });
}
