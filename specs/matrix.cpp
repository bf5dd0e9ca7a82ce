#include "ai.h"
typedef matrix<float> M;
static const char *dn[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"};
// every shape up to 4 by 4, and some larger ones
static bool shape(int r, int c) { return (r < 5 && c < 5) || (r == 5 && c == 7) || (r == 8 && c == 5) || (r == 9 && c < 3) || (r < 3 && c == 9) || (r == 6 && c == 6); }
static std::vector<float> vals(const char *n, int c, double lo, double hi) { std::vector<float> v; for (int i = 0; i < c; ++i) v.push_back(ai_symi(n, i, lo, hi)); return v; }
static M symm(const char *n, int r, int c, double lo = -2, double hi = 2) { return M(r, c, vals(n, r * c, lo, hi)); }
static bool dims(const M &m, int r, int c, const char *what) {
  std::vector<std::vector<float>> v = m.values(); bool ok = m.rows() == r && m.columns() == c && m.size() == r * c && (int)v.size() == r; for (int i = 0; ok && i < r; ++i) ok = (int)v[i].size() == c;
  ai_true(ok, what); return ok;
}
template <class F> static void entries(const M &m, int r, int c, const F &f, const char *what) { if (dims(m, r, c, what)) for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { ai_eq(m(i, j), f(i, j), 1e-4, what); ai_eq(m.values()[i][j], f(i, j), 1e-4, what); } }
// P41: construction, arithmetic and transposition
extern "C" void P41_build() {
  for (int r = 1; r < 10; ++r) for (int c = 1; c < 10; ++c) if (shape(r, c)) {
    CASE(dn[r], dn[c], "from values", [&] { std::vector<float> v = vals("v", r * c, -2, 2); entries(M(r, c, v), r, c, [&](int i, int j) { return v[i * c + j]; }, "values are filled in row by row"); });
    CASE(dn[r], dn[c], "insert", [&] {
      std::vector<float> v = vals("v", r * c, -2, 2); M m(r, c, 7.f); M &q = m.insert(v); ai_peq(&q, &m, "the matrix itself is returned"); entries(m, r, c, [&](int i, int j) { return v[i * c + j]; }, "values are filled in row by row");
      std::vector<float> w = vals("w", r * c + 1, -2, 2); m.insert(w); entries(m, r, c, [&](int i, int j) { return v[i * c + j]; }, "values of the wrong number are not inserted");
      w.pop_back(); w.pop_back(); m.insert(w); entries(m, r, c, [&](int i, int j) { return v[i * c + j]; }, "values of the wrong number are not inserted");
    });
    CASE(dn[r], dn[c], "fill", [&] {
      float x = ai_sym("x", -5, 5); entries(M(r, c, x), r, c, [&](int, int) { return x; }, "every entry has the initial value"); M m = symm("v", r, c); M &q = m.fill(x); ai_peq(&q, &m, "the matrix itself is returned");
      entries(m, r, c, [&](int, int) { return x; }, "every entry has the filled in value"); entries(M(r, c), r, c, [&](int, int) { return 0; }, "entries without value are 0");
    });
    CASE(dn[r], dn[c], "set entry", [&] { M m = symm("v", r, c), o = symm("v", r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { M t = m; t(i, j) = 9; entries(t, r, c, [&](int a, int b) { return a == i && b == j ? 9.f : o(a, b); }, "setting an entry sets that entry only"); } });
    CASE(dn[r], dn[c], "copy", [&] {
      M m = symm("v", r, c), k(m), a, b = symm("w", 3, 2); a = m; b = m; b = b; m.fill(1); M o = symm("v", r, c);
      entries(k, r, c, [&](int i, int j) { return o(i, j); }, "copies keep the values they were made of"); entries(a, r, c, [&](int i, int j) { return o(i, j); }, "copies keep the values they were made of"); entries(b, r, c, [&](int i, int j) { return o(i, j); }, "copies keep the values they were made of");
      ai_true(a == k && k == b, "copies are equal");
    });
    CASE(dn[r], dn[c], "equality", [&] {
      M m = symm("v", r, c, -2, 1); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { M t = m; t(i, j) = 2; ai_true(!(t == m), "matrices with a different entry are not equal"); }
      M a(r, c, 0.f), b(r + 1, c, 0.f), d(r, c + 1, 0.f); ai_true(!(a == b) && !(a == d) && !(b == a) && !(d == a), "matrices of different dimensions are not equal");
    });
    for (int r2 = 1; r2 < (r < 5 && c < 5 ? 5 : 8); r2 += r < 5 && c < 5 ? 1 : 3) CASE(dn[r], dn[c], "resize", [&] {
      for (int c2 = 1; c2 < 5; ++c2) { float x = ai_sym("fill", 3, 5); M m = symm("v", r, c), o = symm("v", r, c); M &q = m.resize(r2, c2, x); ai_peq(&q, &m, "the matrix itself is returned"); entries(m, r2, c2, [&](int i, int j) { return i < r && j < c ? o(i, j) : x; }, "resizing keeps common entries and fills the others"); }
    });
  }
}
extern "C" void P41_algebra() {
  for (int r = 1; r < 10; ++r) for (int c = 1; c < 10; ++c) if (shape(r, c)) {
    CASE(dn[r], dn[c], "sum", [&] {
      M a = symm("a", r, c), b = symm("b", r, c), s = a + b, d = a - b, p = a, q = a; M &x = (p += b), &y = (q -= b); ai_peq(&x, &p, "the matrix itself is returned"); ai_peq(&y, &q, "the matrix itself is returned");
      entries(s, r, c, [&](int i, int j) { return a(i, j) + b(i, j); }, "sums are taken entry by entry"); entries(d, r, c, [&](int i, int j) { return a(i, j) - b(i, j); }, "differences are taken entry by entry");
      entries(p, r, c, [&](int i, int j) { return a(i, j) + b(i, j); }, "adding in place gives the sum"); entries(q, r, c, [&](int i, int j) { return a(i, j) - b(i, j); }, "subtracting in place gives the difference");
      M e = symm("a", r, c), f = symm("b", r, c); ai_true(a == e && b == f, "operands are unchanged");
    });
    CASE(dn[r], dn[c], "scalar", [&] {
      M a = symm("a", r, c); float x = ai_sym("x", 0.5, 2);
      entries(a + x, r, c, [&](int i, int j) { return a(i, j) + x; }, "a number is added to each entry"); entries(a - x, r, c, [&](int i, int j) { return a(i, j) - x; }, "a number is subtracted from each entry");
      entries(a * x, r, c, [&](int i, int j) { return a(i, j) * x; }, "each entry is multiplied by a number"); entries(a / x, r, c, [&](int i, int j) { return a(i, j) / x; }, "each entry is divided by a number");
      M e = symm("a", r, c); ai_true(a == e, "operands are unchanged");
    });
    CASE(dn[r], dn[c], "vector", [&] {
      M a = symm("a", r, c); std::vector<float> v = vals("v", c, -2, 2), w = a * v; ai_true((int)w.size() == r, "the product with a vector has an entry per row");
      for (int i = 0; i < r && i < (int)w.size(); ++i) { double e = 0; for (int j = 0; j < c; ++j) e += a(i, j) * v[j]; ai_eq(w[i], e, 1e-4, "products with vectors follow linear algebra"); }
    });
    CASE(dn[r], dn[c], "transpose", [&] { M a = symm("a", r, c); entries(a.transpose(), c, r, [&](int i, int j) { return a(j, i); }, "transposing swaps rows and columns"); M e = symm("a", r, c); ai_true(a == e, "operands are unchanged"); });
    for (int k = 1; k < 10; ++k) if (k < 5 || k == 7 || k == 8) CASE(dn[r], dn[c], dn[k], [&] {
      M a = symm("a", r, k), b = symm("b", k, c), p = a * b, q = a; M &x = (q *= b); ai_peq(&x, &q, "the matrix itself is returned");
      auto f = [&](int i, int j) { double e = 0; for (int l = 0; l < k; ++l) e += a(i, l) * b(l, j); return e; };
      entries(p, r, c, f, "products follow linear algebra"); entries(q, r, c, f, "multiplying in place gives the product"); M e = symm("a", r, k), g = symm("b", k, c); ai_true(a == e && b == g, "operands are unchanged");
    });
  }
  for (int n = 1; n < 8; ++n) {
    CASE(dn[n], "identity", "", [&] { entries(M::create_idendity(n), n, n, [&](int i, int j) { return i == j ? 1 : 0; }, "the identity has ones on the diagonal"); });
    CASE(dn[n], "square", "", [&] { std::vector<float> v = vals("v", n * n, -2, 2); entries(M(n, v), n, n, [&](int i, int j) { return v[i * n + j]; }, "values are filled in row by row"); entries(M(n), n, n, [&](int, int) { return 0; }, "entries without value are 0"); });
    CASE(dn[n], "in place", "", [&] { M a = symm("a", n, n), o = symm("a", n, n); a *= a; entries(a, n, n, [&](int i, int j) { double e = 0; for (int l = 0; l < n; ++l) e += o(i, l) * o(l, j); return e; }, "a matrix can be multiplied with itself in place"); M b = symm("a", n, n); b += b; entries(b, n, n, [&](int i, int j) { return 2 * o(i, j); }, "a matrix can be added to itself in place"); });
  }
}
// P42: determinant, adjoint and inverse
static double det(const M &m, int n) {
  if (n == 1) return m(0, 0);
  if (n == 2) return (double)m(0, 0) * m(1, 1) - (double)m(0, 1) * m(1, 0);
  double d = 0;
  for (int k = 0; k < n; ++k) { M s(n - 1); for (int i = 1; i < n; ++i) for (int j = 0; j < n; ++j) if (j != k) s(i - 1, j < k ? j : j - 1) = m(i, j); d += (k % 2 ? -1 : 1) * m(0, k) * det(s, n - 1); }
  return d;
}
// entries that differ row by row and column by column
static M distinct(const char *n, int d) { std::vector<float> v; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { double b = 1 + 3 * ((i * 2 + j * j * 3 + i * j) % 7); v.push_back(ai_symi(n, i * d + j, b - 0.5, b + 0.5)); } return M(d, v); }
extern "C" void P42_det() {
  for (int n = 1; n < 6; ++n) {
    CASE(dn[n], "distinct", "", [&] { M a = distinct("a", n), o = distinct("a", n); ai_eq(a.determinante(), det(o, n), 1e-2, "the determinant follows its expansion"); ai_true(a == o, "the matrix is unchanged"); });
    if (n < 4) CASE(dn[n], "any", "", [&] { M a = symm("a", n, n), o = symm("a", n, n); ai_eq(a.determinante(), det(o, n), 1e-4, "the determinant follows its expansion"); });
    if (n > 1) for (int k = 0; k < n; ++k) {
      CASE(dn[n], "zero row", dn[k], [&] { M a = distinct("a", n); for (int j = 0; j < n; ++j) a(k, j) = 0; ai_eq(a.determinante(), 0, 1e-6, "a zero row makes the determinant 0"); });
      CASE(dn[n], "zero column", dn[k], [&] { M a = distinct("a", n); for (int j = 0; j < n; ++j) a(j, k) = 0; ai_eq(a.determinante(), 0, 1e-6, "a zero column makes the determinant 0"); });
      for (int l = 0; l < n; ++l) if (l != k) {
        CASE(dn[n], "equal rows", dn[k], [&] { M a = distinct("a", n); for (int j = 0; j < n; ++j) a(k, j) = a(l, j); ai_eq(a.determinante(), 0, 1e-6, "equal rows make the determinant 0"); });
        CASE(dn[n], "equal columns", dn[k], [&] { M a = distinct("a", n); for (int j = 0; j < n; ++j) a(j, k) = a(j, l); ai_eq(a.determinante(), 0, 1e-6, "equal columns make the determinant 0"); });
        CASE(dn[n], "zero entry", dn[k], [&] { M a = distinct("a", n), o = distinct("a", n); a(k, l) = 0; o(k, l) = 0; ai_eq(a.determinante(), det(o, n), 1e-2, "the determinant follows its expansion"); });
      }
    }
    for (int c = 1; c < 5; ++c) if (c != n) CASE(dn[n], dn[c], "not square", [&] { M a = symm("a", n, c); ai_eq(a.determinante(), 0, 1e-6, "the determinant of a matrix that is not square is 0"); });
    CASE(dn[n], "identity", "", [&] { ai_eq(M::create_idendity(n).determinante(), 1, 1e-6, "the determinant of the identity is 1"); });
  }
}
extern "C" void P42_inverse() {
  for (int n = 1; n < 6; ++n) {
    CASE(dn[n], "adjoint", "", [&] {
      M a = distinct("a", n), o = distinct("a", n), b = a.adjoint(); ai_true(a == o, "the matrix is unchanged"); if (!dims(b, n, n, "the adjoint has the dimensions of the matrix")) return;
      double d = det(o, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double e = 0; for (int k = 0; k < n; ++k) e += (double)o(i, k) * b(k, j); ai_eq(e, i == j ? d : 0, 1e-2, "a matrix times its adjoint is its determinant times the identity"); }
    });
    if (n < 4) CASE(dn[n], "inverse", "", [&] {
      M a = distinct("a", n), o = distinct("a", n); double d = det(o, n); ai_assume(d > 0.01 || d < -0.01); M b = a.invert(); ai_true(a == o, "the matrix is unchanged"); if (!dims(b, n, n, "the inverse has the dimensions of the matrix")) return;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double e = 0, f = 0; for (int k = 0; k < n; ++k) { e += (double)o(i, k) * b(k, j); f += (double)b(i, k) * o(k, j); } ai_eq(e, i == j, 1e-2, "a matrix times its inverse is the identity"); ai_eq(f, i == j, 1e-2, "the inverse times its matrix is the identity"); }
    });
    CASE(dn[n], "inverse of a diagonal", "", [&] { M a(n); std::vector<float> v = vals("v", n, 0.01, 100); for (int i = 0; i < n; ++i) a(i, i) = v[i]; entries(a.invert(), n, n, [&](int i, int j) { return i == j ? 1. / v[i] : 0; }, "the inverse of a diagonal matrix has the reciprocals"); });
  }
}
// P43: indices and dimensions that do not fit are rejected
extern "C" void P43_bounds() {
  for (int r = 1; r < 10; ++r) for (int c = 1; c < 10; ++c) if (shape(r, c)) {
    static const char *kn[] = {"row too large", "column too large", "negative row", "negative column"};
    for (int k = 0; k < 4; ++k) {
      auto ij = [&](int &i, int &j) { i = k == 0 ? ai_int("row", r, 1000000) : k == 2 ? ai_int("row", -1000000, -1) : ai_int("row", 0, r - 1); j = k == 1 ? ai_int("column", c, 1000000) : k == 3 ? ai_int("column", -1000000, -1) : ai_int("column", 0, c - 1); };
      CASE(dn[r], dn[c], kn[k], [&] { int i, j; ij(i, j); M m = symm("v", r, c); ai_expect_throw(""); m(i, j) = 1; });
      CASE(dn[r], dn[c], kn[k], [&] { int i, j; ij(i, j); const M m = symm("v", r, c); ai_expect_throw(""); float f = m(i, j); ai_eq(f, 0, 1e9, "rejected"); });
    }
    for (int k = 1; k < 5; ++k) if (k != c) {
      CASE(dn[r], dn[c], "product of unfit matrices", [&] { M a = symm("a", r, c), b = symm("b", k, 2); ai_expect_throw(""); M p = a * b; });
      CASE(dn[r], dn[c], "product with unfit vector", [&] { M a = symm("a", r, c); std::vector<float> v = vals("v", k, -2, 2); ai_expect_throw(""); std::vector<float> p = a * v; });
    }
    for (int k = 1; k < 6; ++k) for (int l = 1; l < 6; ++l) if ((k != r || l != c) && k <= r + 1 && l <= c + 1) {
      CASE(dn[r], dn[c], "sum of unfit matrices", [&] { M a = symm("a", r, c), b = symm("b", k, l); ai_expect_throw(""); M p = a + b; });
      CASE(dn[r], dn[c], "difference of unfit matrices", [&] { M a = symm("a", r, c), b = symm("b", k, l); ai_expect_throw(""); M p = a - b; });
      if (k + l < 5) CASE(dn[r], dn[c], "sum of unfit matrices in place", [&] { M a = symm("a", r, c), b = symm("b", k, l); ai_expect_throw(""); a += b; });
      if (k + l < 5) CASE(dn[r], dn[c], "difference of unfit matrices in place", [&] { M a = symm("a", r, c), b = symm("b", k, l); ai_expect_throw(""); a -= b; });
    }
    CASE(dn[r], dn[c], "tests at negative places", [&] { M m = symm("v", r, c, 1, 2); int i = ai_int("i", -1000000, -1), j = ai_int("j", -1000000, -1); ai_true(!m.is_row_null(i) && !m.is_column_null(j) && !m.are_rows_equal(0, i) && !m.are_rows_equal(i, 0) && !m.are_columns_equal(0, j) && !m.are_columns_equal(j, 0), "rows and columns outside the matrix are neither null nor equal"); });
    CASE(dn[r], dn[c], "tests outside", [&] { M m = symm("v", r, c, 1, 2); int i = ai_int("i", r, 1000000), j = ai_int("j", c, 1000000); ai_true(!m.is_row_null(i) && !m.is_column_null(j) && !m.are_rows_equal(0, i) && !m.are_rows_equal(i, 0) && !m.are_columns_equal(0, j) && !m.are_columns_equal(j, 0), "rows and columns outside the matrix are neither null nor equal"); });
  }
}
