// Development aid, not part of any check: native stand-ins for the analyser's intrinsics, so that a specification
// can be run on sampled values and compared with the analyser's verdicts (see tools/validate.sh).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <string>
#include <vector>
struct Skip {};
static std::mt19937 rng; static std::map<std::string, double> vals; static std::vector<std::string> path; static bool expectThrow, allowThrow, inLeaf; static int trials = 20;
static std::map<std::string, std::pair<long, long>> res; static std::map<std::string, std::string> why; static int curTrial;
static std::string label() { std::string s; for (auto &p : path) s += (s.empty() ? "" : " / ") + p; return s; }
static void rec(const char *w, bool ok, const std::string &d) { auto k = label() + "|" + w; auto &r = res[k]; r.first++; if (!ok && !r.second++) why[k] = d; }
static double draw(const std::string &n, double lo, double hi, bool integer) {
  auto it = vals.find(n); if (it != vals.end()) return it->second;
  int k = rng() % 8; double v = k == 0 ? lo : k == 1 ? hi : k == 2 ? std::floor(lo + (hi - lo) * 0.5) : lo + (hi - lo) * (rng() / 4294967296.0);
  if (v < lo) v = lo;
  if (integer) v = std::floor(v + 0.5);
  return vals[n] = integer ? v : (double)(float)v;
}
extern "C" {
float ai_sym(const char *n, double lo, double hi) { return draw(n, lo, hi, false); }
float ai_symi(const char *n, int i, double lo, double hi) { return draw(std::string(n) + std::to_string(i), lo, hi, false); }
float ai_any(const char *n) { return draw(n, -1000, 1000, false); }
float ai_anyi(const char *n, int i) { return draw(std::string(n) + std::to_string(i), -1000, 1000, false); }
float ai_finite(const char *n) { return draw(n, -1000, 1000, false); }
int ai_int(const char *n, double lo, double hi) { return draw(n, lo, hi, true); }
void ai_assume(bool c) { if (!c) throw Skip(); }
void ai_eq(double a, double b, double tol, const char *w) { bool ok = std::fabs(a - b) <= tol + 2e-4 * (1 + std::fabs(b)); std::string v; if (!ok) { for (auto &p : vals) v += " " + p.first + "=" + std::to_string(p.second); } rec(w, ok, std::to_string(a) + " vs " + std::to_string(b) + v); }
void ai_in(double a, double lo, double hi, const char *w) { bool ok = a >= lo - 1e-4 && a <= hi + 1e-4; std::string v; if (!ok) for (auto &p : vals) v += " " + p.first + "=" + std::to_string(p.second); rec(w, ok, std::to_string(a) + v); }
void ai_true(bool c, const char *w) { std::string v; if (!c) for (auto &p : vals) v += " " + p.first + "=" + std::to_string(p.second); rec(w, c, v); }
void ai_peq(const void *a, const void *b, const char *w) { rec(w, a == b, ""); }
void ai_expect_throw(const char *) { expectThrow = true; }
void ai_allow_throw() { allowThrow = true; }
void ai_dump(double x, const char *n) { printf("DUMP %s %s=%.9g\n", label().c_str(), n, x); }
extern "C" void ai_havoc_statics() {}
bool ai_is_null(const void *p) { return !p; }
int ai_decided(bool c) { return c; }
void ai_case(const char *a, const char *b, const char *c, void (*fn)(const void *), const void *arg) {
  for (const char *s : {a, b, c}) if (*s) path.push_back(s);
  auto sv = vals; bool se = expectThrow, sa = allowThrow; bool threw = false, skip = false;
  try { fn(arg); } catch (Skip &) { skip = true; } catch (...) { threw = true; }
  if (!skip) { if (expectThrow) rec("expected exception", threw, "returned"); else if (!allowThrow) rec("no exception", !threw, "threw"); }
  vals = sv; expectThrow = se; allowThrow = sa;
  for (const char *s : {a, b, c}) if (*s) path.pop_back();
}
}
#define X(e) extern "C" void e();
#include ENTRIES
#undef X
int main(int argc, char **argv) {
  if (argc > 1) trials = atoi(argv[1]);
#define X(e) for (curTrial = 0; curTrial < trials; ++curTrial) { rng.seed(curTrial * 7919 + 13); vals.clear(); path = {#e}; expectThrow = allowThrow = false; try { e(); } catch (Skip &) {} catch (...) { rec("no exception", false, "threw"); } }
#include ENTRIES
  for (auto &r : res) printf("%s\t%ld\t%ld\t%s\n", r.first.c_str(), r.second.first, r.second.second, why[r.first].c_str());
}
