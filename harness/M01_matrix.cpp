// M01: Matrix and Vector algebra and decompositions against elementwise definitions in long double.
#include "gp.hpp"
#include "Matrix.hpp"
#include "Vector.hpp"
using namespace gpstk; using pbt::G; using pbt::d2s; using std::string;
typedef Matrix<double> M; typedef Vector<double> V; typedef long double L;
struct R { size_t r, c; std::vector<L> a; R(size_t r_, size_t c_) : r(r_), c(c_), a(r_ * c_, 0) {} L& operator()(size_t i, size_t j) { return a[i * c + j]; } L operator()(size_t i, size_t j) const { return a[i * c + j]; } };
template <class Q> static R ref(const Q& m) { R x(m.rows(), m.cols()); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) x(i, j) = m(i, j); return x; }
static R mul(const R& a, const R& b) { R x(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) for (size_t k = 0; k < a.c; ++k) x(i, j) += a(i, k) * b(k, j); return x; }
static R tr(const R& a) { R x(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) x(j, i) = a(i, j); return x; }
static R sub(const R& a, size_t i0, size_t j0, size_t nr, size_t nc) { R x(nr, nc); for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) x(i, j) = a(i0 + i, j0 + j); return x; }
static R eye(size_t n) { R x(n, n); for (size_t i = 0; i < n; ++i) x(i, i) = 1; return x; }
static L big(const R& a) { L m = 0; for (L v : a.a) m = std::max(m, std::fabs(v)); return m; }
static L frob(const R& a) { L s = 0; for (L v : a.a) s += v * v; return std::sqrt(s); }
template <class Q> static void near_(const Q& got, const R& want, L tol, const char* what)
{
   REQUIRE(got.rows() == want.r && got.cols() == want.c, what << " shape");
   for (size_t i = 0; i < want.r; ++i) for (size_t j = 0; j < want.c; ++j) REQUIRE(std::fabs((L)got(i, j) - want(i, j)) <= tol, what << "(" << i << "," << j << ") = " << d2s(got(i, j)) << " expected " << d2s((double)want(i, j)));
}
static void nearR(const R& a, const R& b, L tol, const char* what) { for (size_t k = 0; k < a.a.size(); ++k) REQUIRE(std::fabs(a.a[k] - b.a[k]) <= tol, what << " element " << k << ": " << d2s((double)a.a[k]) << " expected " << d2s((double)b.a[k])); }
template <class F> static bool throws(F f) { try { f(); } catch (Exception&) { return true; } return false; }
   // inverse, determinant and 2-norm condition bound in long double with full pivoting
static bool inv(R a, R& out, L& det)
{
   size_t n = a.r; R b = eye(n); std::vector<size_t> colOf(n); std::vector<bool> ur(n, false), uc(n, false); det = 1; std::vector<size_t> rowOf(n);
   for (size_t s = 0; s < n; ++s)
   {
      size_t pi = 0, pj = 0; L best = -1; for (size_t i = 0; i < n; ++i) if (!ur[i]) for (size_t j = 0; j < n; ++j) if (!uc[j] && std::fabs(a(i, j)) > best) { best = std::fabs(a(i, j)); pi = i; pj = j; }
      if (best == 0) { det = 0; return false; }
      ur[pi] = uc[pj] = true; rowOf[pj] = pi; L p = a(pi, pj); det *= p;
      for (size_t j = 0; j < n; ++j) { a(pi, j) /= p; b(pi, j) /= p; }
      for (size_t i = 0; i < n; ++i) if (i != pi) { L f = a(i, pj); if (f != 0) for (size_t j = 0; j < n; ++j) { a(i, j) -= f * a(pi, j); b(i, j) -= f * b(pi, j); } }
   }
   out = R(n, n); for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) out(j, k) = b(rowOf[j], k);
   int sgn = 1; std::vector<size_t> p = rowOf; for (size_t i = 0; i < n; ++i) while (p[i] != i) { std::swap(p[i], p[p[i]]); sgn = -sgn; } det *= sgn; return true;
}
static void show(G& g, const M& m, const char* nm) { g << nm << pbt::strf("[%zux%zu]{", m.rows(), m.cols()); for (size_t i = 0; i < m.rows(); ++i) { for (size_t j = 0; j < m.cols(); ++j) g << pbt::d2s(m(i, j)) << " "; g << "; "; } g << "} "; }
static V vec(G& g, size_t n) { V v(n); int k = g.below(3); for (size_t i = 0; i < n; ++i) v(i) = k == 0 ? g.rangeO(-5, 5, 0) : k == 1 ? g.real(-10, 10) : g.real(-1, 1) * std::pow(10., (double)g.rangeO(-6, 6, 0)); return v; }
static M mat(G& g, size_t r, size_t c)
{
   M m(r, c); int k = g.below(4); for (size_t i = 0; i < r; ++i) { double s = k == 3 ? std::pow(10., (double)g.rangeO(-6, 6, 0)) : 1; for (size_t j = 0; j < c; ++j) m(i, j) = k == 0 ? g.rangeO(-4, 4, 0) : k == 1 ? (g.oneIn(3) ? 0 : g.rangeO(-3, 3, 0)) : s * g.real(-1, 1); }
   return m;
}
static M orth(G& g, size_t n) { M q = ident<double>(n); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (!g.oneIn(4)) { double a = g.real(-3.2, 3.2); M r = ident<double>(n); r(i, i) = r(j, j) = std::cos(a); r(i, j) = std::sin(a); r(j, i) = -r(i, j); q = q * r; } return q; }
   // square, with a condition number that is controlled unless structured
static M square(G& g, size_t n)
{
   switch (g.weighted({3, 3, 2, 2, 2}))
   {
   case 0: return mat(g, n, n);
   case 1: { M d(n, n, 0.); double dec = g.pick({0., 1., 3., 6.}); for (size_t i = 0; i < n; ++i) d(i, i) = (g.flag() ? 1 : -1) * std::pow(10., -dec * g.unit()); return orth(g, n) * d * orth(g, n); }
   case 2: { M p(n, n, 0.); std::vector<int> ix; for (size_t i = 0; i < n; ++i) ix.push_back(i); g.shuffle(ix); for (size_t i = 0; i < n; ++i) p(i, ix[i]) = g.rangeO(1, 9, 1) * (g.flag() ? 1 : -1); return p; }
   case 3: { M t = mat(g, n, n); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) t(i, j) = 0; t(i, i) = g.real(0.5, 2); } return g.flag() ? t : transpose(t); }
   default: { M t = mat(g, n, n); size_t z = g.below(n); for (size_t i = 0; i <= z; ++i) for (size_t j = 0; j <= z; ++j) t(i, j) = 0.1 * (i + 1) * 0.3 * (j + 1); return t; }   // leading block of rank one: needs pivoting
   }
}
static M spd(G& g, size_t n) { if (g.flag()) { M d(n, n, 0.); for (size_t i = 0; i < n; ++i) d(i, i) = std::pow(10., -g.pick({0., 2., 4.}) * g.unit()) * 3; M q = orth(g, n); M m = q * d * transpose(q); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = m(j, i); return m; } M a = mat(g, n + 2, n); M m = transpose(a) * a; double t = 0; for (size_t i = 0; i < n; ++i) t += m(i, i); for (size_t i = 0; i < n; ++i) m(i, i) += 1 + 1e-3 * t; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = m(j, i); return m; }

PROP(algebra, 30000, 400000, "not 1 by 1")
{
   size_t r = g.range(1, 8), c = g.range(1, 8), k = g.range(1, 8); if (r * c > 1) g.nontrivial(); M a = mat(g, r, c), b = mat(g, r, c), d = mat(g, c, k); show(g, a, "a"); show(g, b, "b"); double s = g.real(-5, 5); if (std::fabs(s) < 0.1) s = 3; R A = ref(a), B = ref(b), D = ref(d);
   R x(r, c); L t = 1e-13 * (big(A) + big(B)) * (1 + std::fabs(s)) + 1e-300;
   auto op = [&](std::function<L(L, L)> f) { R y(r, c); for (size_t i = 0; i < y.a.size(); ++i) y.a[i] = f(A.a[i], B.a[i]); return y; };
   near_(a + b, op([](L p, L q) { return p + q; }), t, "a+b"); near_(a - b, op([](L p, L q) { return p - q; }), t, "a-b"); near_(a * s, op([&](L p, L) { return p * s; }), t, "a*s"); near_(s * a, op([&](L p, L) { return p * s; }), t, "s*a"); near_(a / s, op([&](L p, L) { return p / s; }), t * 100, "a/s"); near_(a + s, op([&](L p, L) { return p + s; }), t + 1e-13, "a+s"); near_(a - s, op([&](L p, L) { return p - s; }), t + 1e-13, "a-s");
   { M m(a); m += b; near_(m, op([](L p, L q) { return p + q; }), t, "+="); m = a; m -= b; near_(m, op([](L p, L q) { return p - q; }), t, "-="); m = a; m *= s; near_(m, op([&](L p, L) { return p * s; }), t, "*="); m = a; m /= s; near_(m, op([&](L p, L) { return p / s; }), t * 100, "/="); near_(-m, op([&](L p, L) { return -p / s; }), t * 100, "unary -"); m = s; near_(m, op([&](L, L) { return s; }), 0, "= scalar"); }
   near_(a * d, mul(A, D), 1e-13 * c * big(A) * big(D), "a*d"); near_(transpose(a), tr(A), 0, "transpose");
   V v = vec(g, c), w = vec(g, r); R VV(c, 1), WW(1, r); for (size_t i = 0; i < c; ++i) VV(i, 0) = v(i); for (size_t i = 0; i < r; ++i) WW(0, i) = w(i);
   { R y = mul(A, VV); V z = a * v; REQUIRE(z.size() == r, "a*v size"); for (size_t i = 0; i < r; ++i) REQ_NEAR(z(i), (double)y(i, 0), (double)(1e-13 * c * big(A) * big(VV)), "a*v"); y = mul(WW, A); z = w * a; REQUIRE(z.size() == c, "w*a size"); for (size_t i = 0; i < c; ++i) REQ_NEAR(z(i), (double)y(0, i), (double)(1e-13 * r * big(A) * big(WW)), "w*a"); }
   { M o = outer(w, v); REQUIRE(o.rows() == r && o.cols() == c, "outer shape"); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_NEAR(o(i, j), w(i) * v(j), std::fabs(w(i) * v(j)) * 1e-15, "outer"); }
   REQ_NEAR(normF(a), (double)frob(A), (double)(1e-13 * frob(A)), "normF"); { L m = 0; for (size_t j = 0; j < c; ++j) { L q = 0; for (size_t i = 0; i < r; ++i) q += std::fabs(A(i, j)); m = std::max(m, q); } REQ_NEAR(normCol(a), (double)m, (double)(1e-13 * m), "normCol (largest column sum)"); }
   REQ_NEAR(maxabs(a), (double)big(A), 0, "maxabs");
   if (r == c) { L q = 0; for (size_t i = 0; i < r; ++i) q += A(i, i); REQ_NEAR(trace(a), (double)q, (double)(1e-13 * big(A) * r), "trace"); near_(diag(a), [&] { R y(r, r); for (size_t i = 0; i < r; ++i) y(i, i) = A(i, i); return y; }(), 0, "diag"); M e = mat(g, k, k); M bd = blkdiag(a, e); R y(r + k, r + k); for (size_t i = 0; i < r + k; ++i) for (size_t j = 0; j < r + k; ++j) y(i, j) = i < r && j < r ? A(i, j) : i >= r && j >= r ? (L)e(i - r, j - r) : 0; near_(bd, y, 0, "blkdiag"); }
   else { REQUIRE(throws([&] { trace(a); }), "trace of non-square accepted"); REQUIRE(throws([&] { inverse(a); }), "inverse of non-square accepted"); REQUIRE(throws([&] { LUDecomp<double> l; l(a); }), "LU of non-square accepted"); REQUIRE(throws([&] { Cholesky<double> l; l(a); }), "Cholesky of non-square accepted"); REQUIRE(throws([&] { det(a); }), "det of non-square accepted"); REQUIRE(throws([&] { CholeskyCrout<double> l; l(a); }), "CholeskyCrout of non-square accepted"); REQUIRE(throws([&] { diag(a); }), "diag of non-square"); REQUIRE(throws([&] { inverseSVD(a); }) && throws([&] { inverseLUD(a); }), "inverseSVD/LUD of non-square"); }
   { size_t r2 = g.range(1, 9), c2 = g.range(1, 9); M e = mat(g, r2, c2); V f = vec(g, r2); if (r2 != r || c2 != c) { REQUIRE(throws([&] { a + e; }), "a+e with other shape"); REQUIRE(throws([&] { a - e; }), "a-e with other shape"); } if (r2 != c) { REQUIRE(throws([&] { a * e; }), "a*e with other shape"); REQUIRE(throws([&] { a * f; }), "a*f with other shape"); } if (r2 != r) { REQUIRE(throws([&] { f * a; }), "f*a"); REQUIRE(throws([&] { a || e; }) && throws([&] { a || f; }) && throws([&] { f || a; }) && throws([&] { w || f; }), "|| with other shape"); REQUIRE(throws([&] { w + f; }) && throws([&] { w - f; }) && throws([&] { w * f; }), "vector sizes"); } if (c2 != c) REQUIRE(throws([&] { a && e; }), "&& with other shape"); if (r2 != c) REQUIRE(throws([&] { a && f; }) && throws([&] { f && a; }), "&& with other shape"); }
   { bool ut = r == c, lt = ut, dg = ut, sy = ut; for (size_t i = 0; ut | lt | dg | sy && i < r; ++i) for (size_t j = 0; j < c; ++j) { if (j < i && A(i, j) != 0) ut = dg = false; if (j > i && A(i, j) != 0) lt = dg = false; if (r == c && A(i, j) != A(j, i)) sy = false; } REQ_EQ(a.isSquare(), r == c, ""); REQ_EQ(a.isUT(), ut, ""); REQ_EQ(a.isLT(), lt, ""); REQ_EQ(a.isDiagonal(), dg, ""); REQ_EQ(a.isSymmetric(), sy, ""); }
}
PROP(pieces, 30000, 400000, "not 1 by 1")
{
   size_t r = g.range(1, 8), c = g.range(1, 8), r2 = g.range(1, 5), c2 = g.range(1, 5); if (r * c > 1) g.nontrivial(); M a = mat(g, r, c); show(g, a, "a"); R A = ref(a); M b = mat(g, r2, c), d = mat(g, r, c2); V v = vec(g, c), w = vec(g, r), w2 = vec(g, r);
   auto J = [&](size_t nr, size_t nc, std::function<L(size_t, size_t)> f) { R y(nr, nc); for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) y(i, j) = f(i, j); return y; };
   near_(a && b, J(r + r2, c, [&](size_t i, size_t j) { return i < r ? a(i, j) : b(i - r, j); }), 0, "M && M"); near_(a && v, J(r + 1, c, [&](size_t i, size_t j) { return i < r ? a(i, j) : v(j); }), 0, "M && V"); near_(v && a, J(r + 1, c, [&](size_t i, size_t j) { return i ? a(i - 1, j) : v(j); }), 0, "V && M");
   near_(a || d, J(r, c + c2, [&](size_t i, size_t j) { return j < c ? a(i, j) : d(i, j - c); }), 0, "M || M"); near_(a || w, J(r, c + 1, [&](size_t i, size_t j) { return j < c ? a(i, j) : w(i); }), 0, "M || V"); near_(w || a, J(r, c + 1, [&](size_t i, size_t j) { return j ? a(i, j - 1) : w(i); }), 0, "V || M"); near_(w || w2, J(r, 2, [&](size_t i, size_t j) { return j ? w2(i) : w(i); }), 0, "V || V");
   if (r > 1 && c > 1) { size_t i0 = g.below(r), j0 = g.below(c); g << "minor " << i0 << "," << j0; near_(minorMatrix(a, i0, j0), J(r - 1, c - 1, [&](size_t i, size_t j) { return a(i + (i >= i0), j + (j >= j0)); }), 0, "minorMatrix"); } REQUIRE(throws([&] { minorMatrix(a, r, 0); }) && throws([&] { minorMatrix(a, 0, c); }), "minorMatrix out of range accepted");
   size_t i0 = g.below(r), j0 = g.below(c), nr = g.range(1, r - i0), nc = g.range(1, c - j0); g << pbt::strf(" from %zu,%zu %zux%zu", i0, j0, nr, nc); near_(M(a, i0, j0, nr, nc), sub(A, i0, j0, nr, nc), 0, "submatrix"); REQUIRE(throws([&] { M x(a, i0, j0, r - i0 + 1, nc); }) && throws([&] { M x(a, i0, j0, nr, c - j0 + 1); }), "submatrix out of range accepted");
   const M ca(a); size_t k = g.below(c), l = g.below(r);
   { auto s = ca.row(l); REQ_EQ(s.size(), c, "row size"); for (size_t j = 0; j < c; ++j) REQ_EQ(s(j), (double)A(l, j), "row"); auto s2 = ca.row(l, j0); REQ_EQ(s2.size(), c - j0, "row from"); for (size_t j = 0; j + j0 < c; ++j) REQ_EQ(s2[j], (double)A(l, j + j0), "row from"); auto s3 = ca[l]; for (size_t j = 0; j < c; ++j) REQ_EQ(s3[j], (double)A(l, j), "[row]"); }
   { auto s = ca.col(k); REQ_EQ(s.size(), r, "col size"); for (size_t i = 0; i < r; ++i) REQ_EQ(s(i), (double)A(i, k), "col"); auto s2 = ca.col(k, i0); REQ_EQ(s2.size(), r - i0, "col from"); for (size_t i = 0; i + i0 < r; ++i) REQ_EQ(s2[i], (double)A(i + i0, k), "col from"); }
   { V q = ca.rowCopy(l, j0); REQ_EQ(q.size(), c - j0, ""); for (size_t j = 0; j < q.size(); ++j) REQ_EQ(q(j), (double)A(l, j + j0), "rowCopy"); q = ca.colCopy(k, i0); REQ_EQ(q.size(), r - i0, ""); for (size_t i = 0; i < q.size(); ++i) REQ_EQ(q(i), (double)A(i + i0, k), "colCopy"); q = ca.diagCopy(); REQ_EQ(q.size(), std::min(r, c), ""); for (size_t i = 0; i < q.size(); ++i) REQ_EQ(q(i), (double)A(i, i), "diagCopy"); }
   { M m(a); auto s = m.rowRef(l); s = v; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m(i, j), i == l ? v(j) : a(i, j), "rowRef ="); m = a; m.colRef(k) = w; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m(i, j), j == k ? w(i) : a(i, j), "colRef ="); m = a; MatrixSlice<double> ms(m, i0, j0, nr, nc); ms *= 2.; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m(i, j), (i >= i0 && i < i0 + nr && j >= j0 && j < j0 + nc ? 2 : 1) * a(i, j), "slice *="); M x = mat(g, nr, nc); ms = x; for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) REQ_EQ(m(i + i0, j + j0), x(i, j), "slice ="); REQUIRE(throws([&] { MatrixSlice<double> q(m, i0, j0, r - i0 + 1, nc); }) && throws([&] { MatrixSlice<double> q(m, i0, j0, nr, c - j0 + 1); }), "slice out of range accepted"); }
   { M m(a); size_t l2 = g.below(r), k2 = g.below(c); m.swapRows(l, l2); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m(i, j), a(i == l ? l2 : i == l2 ? l : i, j), "swapRows"); m = a; m.swapCols(k, k2); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m(i, j), a(i, j == k ? k2 : j == k2 ? k : j), "swapCols"); }
   { std::vector<double> raw(r * c); for (auto& q : raw) q = g.rangeO(-9, 9, 0); M m(r, c, &raw[0]); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m(i, j), raw[i * c + j], "from array, row by row"); V rv; rv = raw; M m2(r, c, rv); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) REQ_EQ(m2(i, j), raw[i * c + j], "from vector, row by row"); }
   { M m(a); double t = RefVectorBaseHelper::zeroTolerance; m(l, k) = 0.5 * t; m.zeroize(); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double e = i == l && j == k ? 0 : std::fabs(a(i, j)) < t ? 0 : a(i, j); REQ_EQ(m(i, j), e, "zeroize"); } }
   { double an = g.real(-7, 7); int ax = g.range(1, 3); M q = rotation(an, ax); int p = ax - 1, q1 = (p + 1) % 3, q2 = (p + 2) % 3; R w3(3, 3); w3(p, p) = 1; w3(q1, q1) = w3(q2, q2) = std::cos((L)an); w3(q1, q2) = std::sin((L)an); w3(q2, q1) = -std::sin((L)an); near_(q, w3, 1e-15, "rotation"); REQUIRE(throws([&] { rotation(an, 0); }) && throws([&] { rotation(an, 4); }), "axis"); near_(ident<double>(r), eye(r), 0, "ident"); REQUIRE(throws([] { ident<double>(0); }), "ident(0)"); }
}
PROP(vectors, 40000, 400000, "length above 1")
{
   size_t n = g.range(1, 10); if (n > 1) g.nontrivial(); V a = vec(g, n), b = vec(g, n); for (size_t i = 0; i < n; ++i) { if (b(i) == 0) b(i) = 1; if (g.oneIn(4)) a(i) = (g.flag() ? 1 : -1) * b(i); } double s = g.real(0.5, 5); g << "n=" << n << " a="; for (size_t i = 0; i < n; ++i) g << d2s(a(i)) << " "; g << "b="; for (size_t i = 0; i < n; ++i) g << d2s(b(i)) << " ";
   auto chk = [&](const V& v, std::function<L(size_t)> f, const char* w) { REQUIRE(v.size() == n, w << " size"); for (size_t i = 0; i < n; ++i) REQUIRE(std::fabs(v(i) - f(i)) <= 1e-13 * (std::fabs(a(i)) + std::fabs(b(i)) + s + std::fabs(f(i))), w << "[" << i << "] = " << d2s(v(i))); };
   chk(a + b, [&](size_t i) { return (L)a(i) + b(i); }, "+"); chk(a - b, [&](size_t i) { return (L)a(i) - b(i); }, "-"); chk(a * b, [&](size_t i) { return (L)a(i) * b(i); }, "*"); chk(a / b, [&](size_t i) { return (L)a(i) / b(i); }, "/"); chk(a + s, [&](size_t i) { return (L)a(i) + s; }, "+s"); chk(s - a, [&](size_t i) { return (L)s - a(i); }, "s-"); chk(a - s, [&](size_t i) { return (L)a(i) - s; }, "-s"); chk(a * s, [&](size_t i) { return (L)a(i) * s; }, "*s"); chk(s * a, [&](size_t i) { return (L)a(i) * s; }, "s*"); chk(a / s, [&](size_t i) { return (L)a(i) / s; }, "/s"); chk(s / b, [&](size_t i) { return (L)s / b(i); }, "s/"); chk(-a, [&](size_t i) { return -(L)a(i); }, "neg");
   { V v(a); v += b; chk(v, [&](size_t i) { return (L)a(i) + b(i); }, "+="); v = a; v -= b; chk(v, [&](size_t i) { return (L)a(i) - b(i); }, "-="); v = a; v *= s; chk(v, [&](size_t i) { return (L)a(i) * s; }, "*="); v = a; v /= s; chk(v, [&](size_t i) { return (L)a(i) / s; }, "/="); }
   L d = 0, nn = 0, bb = 0, sm = 0, sa = 0, da = 0; double mn = a(0), mx = a(0), mna = a(0), mxa = a(0); for (size_t i = 0; i < n; ++i) { d += (L)a(i) * b(i); da += std::fabs((L)a(i) * b(i)); nn += (L)a(i) * a(i); bb += (L)b(i) * b(i); sm += a(i); sa += std::fabs(a(i)); mn = std::min(mn, a(i)); mx = std::max(mx, a(i)); mna = std::fabs(a(i)) < std::fabs(mna) ? a(i) : mna; mxa = std::fabs(a(i)) > std::fabs(mxa) ? a(i) : mxa; }
   nn = std::sqrt(nn); bb = std::sqrt(bb); REQ_NEAR(dot(a, b), (double)d, (double)(1e-13 * da), "dot"); REQ_NEAR(norm(a), (double)nn, (double)(1e-13 * nn), "norm"); REQ_NEAR(RSS(a), (double)nn, (double)(1e-13 * nn), "RSS"); REQ_NEAR(RMS(a), (double)(nn / std::sqrt((L)n)), (double)(1e-13 * nn), "RMS"); REQ_NEAR(sum(a), (double)sm, (double)(1e-13 * sa), "sum"); REQ_EQ(min(a), mn, "min"); REQ_EQ(max(a), mx, "max"); REQ_EQ(std::fabs(minabs(a)), std::fabs(mna), "minabs"); REQ_EQ(std::fabs(maxabs(a)), std::fabs(mxa), "maxabs"); REQ_NEAR(dot(a, s), (double)(sm * s), (double)(1e-13 * sa * s), "dot scalar");
   if (nn > 0) { REQ_NEAR(cosVec(a, b), (double)(d / nn / bb), 1e-12, "cosVec"); V u = normalize(a); for (size_t i = 0; i < n; ++i) REQ_NEAR(u(i), (double)(a(i) / nn), 1e-13, "normalize"); }
   if (n == 3) { V x = cross(a, b); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; REQ_NEAR(x(i), (double)((L)a(j) * b(k) - (L)a(k) * b(j)), (double)(1e-13 * nn * bb), "cross"); } } else { V c3(3, 1.); REQUIRE(throws([&] { cross(a, b); }), "cross of size " << n); REQUIRE(throws([&] { cross(a, c3); }) && throws([&] { cross(c3, a); }), "cross of sizes " << n << " and 3"); }
   if (n >= 4) REQ_NEAR(Minkowski(a, b), (double)((L)a(0) * b(0) + (L)a(1) * b(1) + (L)a(2) * b(2) - (L)a(3) * b(3)), (double)(1e-13 * da), "Minkowski"); else REQUIRE(throws([&] { Minkowski(a, b); }), "Minkowski of short vector");
   { size_t m = g.range(0, 5); V e = vec(g, m); V c = a && e; REQ_EQ(c.size(), n + m, "&&"); for (size_t i = 0; i < n + m; ++i) REQ_EQ(c(i), i < n ? a(i) : e(i - n), "&&"); V f(a); f << e; REQ_EQ(f.size(), n + m, "<<"); for (size_t i = 0; i < n + m; ++i) REQ_EQ(f(i), c(i), "<<"); V h = a && s; REQUIRE(h.size() == n + 1 && h(n) == s && h(0) == a(0), "&& scalar"); f << s; REQUIRE(f.size() == n + m + 1 && f(n + m) == s, "<< scalar"); V z; z = e; z = a; for (size_t i = 0; i < n; ++i) REQ_EQ(z(i), a(i), "assignment to other size"); z.resize(m); REQ_EQ(z.size(), m, "resize"); z.resize(n + m, s); for (size_t i = 0; i < n + m; ++i) REQ_EQ(z(i), s, "resize with value"); }
   { size_t t = g.below(n), m = g.range(1, n - t); V e(a, t, m); REQ_EQ(e.size(), m, ""); for (size_t i = 0; i < m; ++i) REQ_EQ(e(i), a(t + i), "subvector"); REQUIRE(throws([&] { V q(a, t, n - t + 1); }) && throws([&] { V q(a, n, 1); }), "subvector out of range accepted"); size_t st = g.range(1, 3), cnt = (n - t + st - 1) / st; V z(a); VectorSlice<double> sl(z, std::slice(t, cnt, st)); for (size_t i = 0; i < cnt; ++i) REQ_EQ(sl[i], a(t + i * st), "slice"); sl *= 2.; for (size_t i = 0; i < n; ++i) REQ_EQ(z(i), a(i) * (i >= t && (i - t) % st == 0 ? 2 : 1), "slice *="); }
   std::vector<double> sv = a.toStdVector(); REQ_EQ(sv.size(), n, "toStdVector"); for (size_t i = 0; i < n; ++i) REQ_EQ(sv[i], a(i), "toStdVector"); REQ_EQ(a.front(), a(0), "front"); const V ca(a); REQ_EQ(ca.front(), a(0), "const front");
   bool lt_ = true, eq_ = true, ge_ = true; for (size_t i = 0; i < n; ++i) { lt_ = lt_ && a(i) < b(i); eq_ = eq_ && a(i) == b(i); ge_ = ge_ && a(i) >= b(i); } REQ_EQ(lt(a, b), lt_, "lt"); REQ_EQ(eq(a, b), eq_, "eq"); REQ_EQ(ge(a, b), ge_, "ge"); REQ_EQ(eq(a, a), true, "eq self"); Vector<bool> bl = a < b; for (size_t i = 0; i < n; ++i) REQ_EQ(bl(i), a(i) < b(i), "<");
}
PROP(inverses, 20000, 200000, "two or more rows")
{
   size_t n = g.range(1, 8); if (n > 1) g.nontrivial(); M a = square(g, n); show(g, a, "a"); R A = ref(a), I(n, n); L dt; bool ok = inv(A, I, dt);
   V b = vec(g, n); 
   bool zeroLine = false; for (size_t i = 0; i < n; ++i) { bool zr = true, zc = true; for (size_t j = 0; j < n; ++j) { if (a(i, j) != 0) zr = false; if (a(j, i) != 0) zc = false; } if (zr || zc) zeroLine = true; }
   if (zeroLine) { g.label("singular"); REQUIRE(throws([&] { inverse(a); }) && throws([&] { inverseLUD(a); }) && throws([&] { LUDecomp<double> l; l(a); }), "matrix with a zero row or column inverted"); return; }
   L cond = ok ? frob(A) * frob(I) : 1e30L; if (cond > 1e7L) { g.label("ill conditioned"); if (n >= 2 && n <= 5) { L sd = slowDet(a); REQ_NEAR((double)sd, (double)dt, (double)(1e-12 * std::pow(frob(A), (L)n)), "slowDet"); } return; }
   g.label("regular"); L tol = 1e-13L * n * cond * std::max<L>(1, big(I)) * 10; L td = 1e-13L * n * n * cond * std::fabs(dt) + 1e-300L;
   near_(inverse(a), I, tol * 10, "inverse"); near_(inverseLUD(a), I, tol, "inverseLUD"); double d2; near_(inverseLUD(a, d2), I, tol, "inverseLUD(det)"); REQ_NEAR(d2, (double)dt, (double)td, "determinant from inverseLUD"); REQ_NEAR(det(a), (double)dt, (double)td, "det"); if (n > 1 && n <= 6) REQ_NEAR(slowDet(a), (double)dt, (double)(1e-12 * std::pow(frob(A), (L)n)), "slowDet");
   near_(inverseSVD(a), I, tol * 10, "inverseSVD");
   LUDecomp<double> lu; lu(a); { M l = ident<double>(n), u(n, n, 0.); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) (j < i ? l : u)(i, j) = lu.LU(i, j); M pa(a); for (size_t i = 0; i < n; ++i) pa.swapRows(i, lu.Pivot(i)); near_(l * u, ref(pa), 1e-13L * n * n * big(A) * 10, "L*U = P*A"); }
   R B(n, 1); for (size_t i = 0; i < n; ++i) B(i, 0) = b(i); R X = mul(I, B); L tx = tol * std::max<L>(big(B), 1e-300L) * n;
   { V x(b); lu.backSub(x); for (size_t i = 0; i < n; ++i) REQ_NEAR(x(i), (double)X(i, 0), (double)tx, "LU backSub"); SVD<double> sv; sv(a); V y(b); sv.backSub(y); for (size_t i = 0; i < n; ++i) REQ_NEAR(y(i), (double)X(i, 0), (double)tx * 10, "SVD backSub"); V w(n + 1, 1.); REQUIRE(throws([&] { lu.backSub(w); }) && throws([&] { sv.backSub(w); }), "backSub with other size"); double p = sv.det(); REQ_NEAR(p, (double)std::fabs(dt), (double)(td * 10), "product of the singular values"); double hi, lo; double cn = condNum(a, hi, lo); sv.sort(true); REQ_NEAR(hi, sv.S(0), 1e-12 * hi, "largest singular value"); REQ_NEAR(lo, sv.S(n - 1), 1e-12 * hi, "smallest"); REQ_NEAR(cn, lo <= 2.3e-16 ? 0 : hi / lo, (double)(1e-10 * cn * cond), "condNum"); double b2, s2; near_(inverseSVD(a, b2, s2), I, tol * 10, "inverseSVD(big,small)"); REQ_NEAR(b2, hi, 1e-12 * hi, "big"); REQ_NEAR(s2, lo, 1e-12 * hi, "small"); V s; near_(inverseSVD(a, s), I, tol * 10, "inverseSVD(sv)"); REQUIRE(s.size() == n, "sv"); for (size_t i = 0; i < n; ++i) REQ_NEAR(s(i), sv.S(i), 1e-12 * hi, "sv"); }
}
PROP(svd, 20000, 200000, "two or more rows and columns")
{
   size_t r = g.range(1, 8), c = g.range(1, 8), k = std::min(r, c); if (k > 1) g.nontrivial(); M a = g.oneIn(4) ? M(mat(g, r, 1 + g.below(k)) * 1.) : mat(g, r, c); if (a.cols() != c) { M b = mat(g, a.cols(), c); a = a * b; g.label("rank deficient"); } show(g, a, "a"); R A = ref(a);
   SVD<double> s; s(a); REQUIRE(s.U.rows() == r && s.V.rows() == c && s.U.cols() >= k && s.V.cols() >= k && s.S.size() == k, "shapes"); L sc = frob(A);
   for (int pass = 0; pass < 3; ++pass)
   {
      if (pass) s.sort(pass == 1); 
      for (size_t i = 0; i < k; ++i) { REQUIRE(s.S(i) >= 0, "negative singular value " << d2s(s.S(i))); if (pass && i) REQUIRE(pass == 1 ? s.S(i) <= s.S(i - 1) : s.S(i) >= s.S(i - 1), "order after sort"); }
      R p(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) for (size_t q = 0; q < k; ++q) p(i, j) += (L)s.U(i, q) * s.S(q) * s.V(j, q); nearR(p, A, 1e-12L * sc, "U*S*V^T");
      for (size_t i = 0; i < k; ++i) if (s.S(i) > 1e-9L * sc) for (size_t j = 0; j < k; ++j) if (s.S(j) > 1e-9L * sc) { L du = 0, dv = 0; for (size_t q = 0; q < r; ++q) du += (L)s.U(q, i) * s.U(q, j); for (size_t q = 0; q < c; ++q) dv += (L)s.V(q, i) * s.V(q, j); REQ_NEAR((double)du, i == j ? 1. : 0., 1e-11, "columns of U orthonormal"); REQ_NEAR((double)dv, i == j ? 1. : 0., 1e-11, "columns of V orthonormal"); }
   }
}
PROP(cholesky, 20000, 200000, "two or more rows")
{
   size_t n = g.range(1, 8); if (n > 1) g.nontrivial(); M a = spd(g, n); show(g, a, "a"); R A = ref(a), I(n, n); L dt; REQUIRE(inv(A, I, dt), "reference"); L cond = frob(A) * frob(I), t = 1e-13L * n * big(A);
   Cholesky<double> c; c(a); CholeskyCrout<double> cc; cc(a); REQUIRE(c.L.isLT() && c.U.isUT() && cc.L.isLT() && cc.U.isUT(), "triangular"); nearR(mul(ref(c.L), tr(ref(c.L))), A, t, "L*L^T"); nearR(mul(ref(c.U), tr(ref(c.U))), A, t, "U*U^T"); nearR(mul(ref(cc.L), tr(ref(cc.L))), A, t, "Crout L*L^T"); nearR(mul(tr(ref(cc.U)), ref(cc.U)), A, t, "Crout U^T*U"); for (size_t i = 0; i < n; ++i) REQUIRE(c.L(i, i) > 0 && c.U(i, i) > 0 && cc.L(i, i) > 0, "positive diagonal");
   V b = vec(g, n); R B(n, 1); for (size_t i = 0; i < n; ++i) B(i, 0) = b(i); R X = mul(I, B); L tx = 1e-13L * n * n * cond * big(I) * big(B) * 10; V x(b), y(b); c.backSub(x); cc.backSub(y); for (size_t i = 0; i < n; ++i) { REQ_NEAR(x(i), (double)X(i, 0), (double)tx, "Cholesky backSub"); REQ_NEAR(y(i), (double)X(i, 0), (double)tx, "Crout backSub"); } near_(inverseChol(a), I, 1e-13L * n * n * cond * big(I) * 10, "inverseChol");
   V w(n + 1, 1.); REQUIRE(throws([&] { c.backSub(w); }), "backSub with other size");
   size_t i = g.below(n); M z(a); z(i, i) = g.flag() ? 0. : -z(i, i); REQUIRE(throws([&] { Cholesky<double> q; q(z); }) && throws([&] { CholeskyCrout<double> q; q(z); }) && throws([&] { inverseChol(z); }), "not positive definite but accepted");
}
PROP(householder, 20000, 200000, "two or more rows and columns")
{
   size_t r = g.range(1, 9), c = g.range(1, 8); if (std::min(r, c) > 1) g.nontrivial(); M a = mat(g, r, c); if (g.oneIn(4)) { size_t z = g.below(c); for (size_t i = 0; i < r; ++i) a(i, z) = 0; } show(g, a, "a"); R A = ref(a); Householder<double> h; h(a); REQUIRE(h.A.rows() == r && h.A.cols() == c, "shape"); for (size_t j = 0; j < c; ++j) for (size_t i = j + 1; i < r; ++i) REQUIRE(h.A(i, j) == 0 || std::fabs(h.A(i, j)) < 1e-13 * frob(A), "below the diagonal (" << i << "," << j << ")"); R H = ref(h.A); L f = frob(A); nearR(mul(tr(H), H), mul(tr(A), A), 1e-12L * f * f, "A^T*A is preserved");
}
PBT_MAIN
