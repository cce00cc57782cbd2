// M03: interpolation and polynomial fits against exact polynomials and a dense long double solution.
#include "gp.hpp"
#include "MiscMath.hpp"
#include "PolyFit.hpp"
#include "CubicSpline.hpp"
using namespace gpstk; using pbt::G; using pbt::d2s; using std::string; using std::vector;
typedef long double L;
static L horner(const vector<L>& c, L x) { L s = 0; for (size_t i = c.size(); i-- > 0;) s = s * x + c[i]; return s; }
static vector<L> diff(const vector<L>& c) { vector<L> d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * i); if (d.empty()) d.push_back(0); return d; }
template <class F> static bool throws(F f) { try { f(); } catch (Exception&) { return true; } return false; }
static vector<double> nodes(G& g, int n, double scale) { vector<double> x; double v = g.pick({0., 0., -2., 5.}) * scale; bool even = g.oneIn(3); for (int i = 0; i < n; ++i) { x.push_back(v); v += scale * (even ? 1 : g.real(0.4, 1.6)); } return x; }
   // the Lagrange basis by definition, and its first two derivatives
struct Basis { L l, d, dd; };
static Basis basis(const vector<double>& X, size_t i, L x)
{
   vector<L> r; L den = 1; for (size_t j = 0; j < X.size(); ++j) if (j != i) { r.push_back(x - X[j]); den *= (L)X[i] - X[j]; }
   Basis b = {1, 0, 0}; for (L v : r) { L nd = b.d * v + b.l, ndd = b.dd * v + 2 * b.d; b.l *= v; b.d = nd; b.dd = ndd; } b.l /= den; b.d /= den; b.dd /= den; return b;
}
PROP(lagrange, 60000, 600000, "five or more nodes and a point that is not a node")
{
   int n = 4 + g.below(9); double sc = g.pick({1., 1., 900., 0.01}); vector<double> X = nodes(g, n, sc); bool poly = g.flag(); vector<L> c; if (poly) for (int i = 0; i < 1 + (int)g.below(std::min(n, 7)); ++i) c.push_back(g.real(-3, 3));
   double mid = X[n / 2]; vector<double> Y; for (double x : X) Y.push_back(poly ? (double)horner(c, (x - mid) / sc) : g.real(-1, 1) * 2e7);
   size_t k = g.flag() ? n / 2 : 1 + g.below(n - 1); double x = g.oneIn(5) ? X[k - g.below(2)] : g.oneIn(6) ? X[k - 1] + (X[k] - X[k - 1]) / 2 : X[k - 1] + g.unit() * (X[k] - X[k - 1]); bool node = false; for (double v : X) node = node || v == x; if (n > 4 && !node) g.nontrivial(); g << n << " nodes scale " << sc << " x=" << d2s(x) << " interval " << k << (poly ? " polynomial" : " data");
   L v = 0, d = 0, dd = 0, av = 0, ad = 0, add = 0; for (int i = 0; i < n; ++i) { Basis b = basis(X, i, x); v += b.l * Y[i]; d += b.d * Y[i]; dd += b.dd * Y[i]; av += std::fabs(b.l * Y[i]); ad += std::fabs(b.d * Y[i]); add += std::fabs(b.dd * Y[i]); }
   L big = 0; for (double y : Y) big = std::max(big, std::fabs((L)y)); L e = 1e-15L * n * 40; L cond = 1; for (int i = 0; i < n; ++i) cond = std::max(cond, std::fabs(basis(X, i, x).l));
   if (poly) { L w = horner(c, ((L)x - mid) / sc); REQUIRE(std::fabs(w - v) <= 1e-13L * big * cond * n + 1e-30L, "reference disagrees with the polynomial"); }
   REQ_NEAR(SimpleLagrangeInterpolation(X, Y, x), (double)v, (double)(e * (av + big)), "SimpleLagrangeInterpolation");
   { double y = NAN, dy = NAN; LagrangeInterpolation(X, Y, x, y, dy); REQ_NEAR(y, (double)v, (double)(e * (av + big)), "LagrangeInterpolation with derivative"); L q = 0; for (int i = 0; i < n; ++i) { L s = 0; L den = 1; for (int j = 0; j < n; ++j) if (j != i) den *= (L)X[i] - X[j]; for (int j = 0; j < n; ++j) if (j != i) { L p = 1; for (int m = 0; m < n; ++m) if (m != i && m != j) p *= (L)x - X[m]; s += std::fabs(p / den); } q += s * std::fabs((L)Y[i]); } REQ_NEAR(dy, (double)d, (double)(e * q + 1e-300L), "its derivative"); }
   if (n <= 9) { double s = LagrangeInterpolating2ndDerivative(X, Y, x); L q = 0; for (int i = 0; i < n; ++i) for (int m = 0; m < n; ++m) if (m != i) for (int j = 0; j < n; ++j) if (j != i && j != m) { L p = 1 / (((L)X[i] - X[m]) * ((L)X[i] - X[j])); for (int t = 0; t < n; ++t) if (t != i && t != j && t != m) p *= ((L)x - X[t]) / ((L)X[i] - X[t]); q += std::fabs(p * Y[i]); } REQ_NEAR(s, (double)dd, (double)(e * q + 1e-300L), "second derivative"); }
   if (n % 2 == 0 && (int)k == n / 2) { double err = -1; g.label("centred"); REQ_NEAR(LagrangeInterpolation(X, Y, x, err), (double)v, (double)(e * 20 * (av + big)), "LagrangeInterpolation"); }
   vector<double> s(Y.begin(), Y.end() - 1), x3(X.begin(), X.begin() + 3), y3(Y.begin(), Y.begin() + 3); double a, b; REQUIRE(throws([&] { SimpleLagrangeInterpolation(X, s, x); }) && throws([&] { LagrangeInterpolation(X, s, x, a); }) && throws([&] { LagrangeInterpolation(X, s, x, a, b); }) && throws([&] { LagrangeInterpolation(x3, y3, x, a); }), "too few values accepted");
}
   // solve in long double with full pivoting; returns false if singular
static bool solve(vector<vector<L>> A, vector<L> b, vector<L>& x)
{
   size_t n = b.size(); for (size_t s = 0; s < n; ++s) { size_t p = s; for (size_t i = s; i < n; ++i) if (std::fabs(A[i][s]) > std::fabs(A[p][s])) p = i; if (A[p][s] == 0) return false; std::swap(A[p], A[s]); std::swap(b[p], b[s]); for (size_t i = s + 1; i < n; ++i) { L f = A[i][s] / A[s][s]; for (size_t j = s; j < n; ++j) A[i][j] -= f * A[s][j]; b[i] -= f * b[s]; } }
   x.assign(n, 0); for (size_t i = n; i-- > 0;) { L s = b[i]; for (size_t j = i + 1; j < n; ++j) s -= A[i][j] * x[j]; x[i] = s / A[i][i]; } return true;
}
PROP(fit, 40000, 400000, "three or more coefficients and data that the polynomial does not fit exactly")
{
   unsigned n = g.range(1, 5); int m = n + g.below(20); bool exact = g.oneIn(3); vector<L> c; for (unsigned i = 0; i < n; ++i) c.push_back(g.real(-3, 3)); double sc = g.pick({1., 1., 10., 0.1}); vector<double> t, d, w; for (int i = 0; i < m; ++i) { double tt = sc * (-1 + 2. * i / std::max(1, m - 1) + g.real(-0.3, 0.3) / std::max(1, m)); t.push_back(tt); d.push_back((double)horner(c, tt / sc) + (exact ? 0 : g.real(-1, 1))); w.push_back(g.oneIn(3) ? g.real(0.2, 5) : 1); } g << n << " coefficients " << m << " points scale " << sc << (exact ? " exact" : " noisy"); if (n > 2 && !exact) g.nontrivial();
   PolyFit<double> P; if (g.flag()) P = PolyFit<double>(n); else { P = PolyFit<double>(1 + g.below(5)); if (g.flag()) { int z = g.range(0, 3); for (int i = 0; i < z; ++i) P.Add(g.real(-9, 9), i); P.isSingular(); } P.Reset(n); }
   int mode = g.below(4); if (mode) w.assign(m, 1.); int i = 0;
   while (i < m) { int k = mode < 2 ? 1 : (int)std::min<long>(m - i, g.range(1, 6)); if (mode == 0) P.Add(d[i], t[i], w[i]); else if (mode == 1) P.Add(d[i], t[i]); else { Vector<double> D(k), T(k); vector<double> dv, tv; for (int j = 0; j < k; ++j) { D(j) = d[i + j]; T(j) = t[i + j]; dv.push_back(d[i + j]); tv.push_back(t[i + j]); } if (mode == 2) P.Add(D, T); else P.Add(dv, tv); } i += k; if (g.oneIn(6)) { P.Evaluate(0.3); P.isSingular(); } }
   REQ_EQ(P.N(), (unsigned)m, "number of points"); REQ_EQ(P.Degree(), n, "degree");
   vector<vector<L>> A(n, vector<L>(n, 0)); vector<L> b(n, 0), x; for (int q = 0; q < m; ++q) { vector<L> p(n, 1); for (unsigned j = 1; j < n; ++j) p[j] = p[j - 1] * t[q]; for (unsigned j = 0; j < n; ++j) { for (unsigned r = 0; r < n; ++r) A[j][r] += w[q] * p[j] * p[r]; b[j] += w[q] * p[j] * d[q]; } }
   REQUIRE(solve(A, b, x), "reference"); REQUIRE(!P.isSingular(), "regular problem called singular"); Vector<double> S = P.Solution(); Matrix<double> C = P.Covariance(); REQUIRE(S.size() == n && C.rows() == n && C.cols() == n, "sizes");
   L tol = 2e-9L; for (unsigned j = 0; j < n; ++j) { REQ_NEAR(S(j) * std::pow(sc, j), (double)(x[j] * std::pow((L)sc, (L)j)), (double)(tol * 10), "coefficient " << j); vector<L> u(n, 0), col; u[j] = 1; solve(A, u, col); for (unsigned r = 0; r < n; ++r) REQ_NEAR(C(r, j) * std::pow(sc, j + r), (double)(col[r] * std::pow((L)sc, (L)(j + r))), (double)(tol * 10), "covariance " << r << "," << j); }
   Vector<double> TV(m); for (int q = 0; q < m; ++q) TV(q) = t[q]; Vector<double> E = P.Evaluate(TV); L orth[6] = {0}; for (int q = 0; q < m; ++q) { double e = P.Evaluate(t[q]); REQ_NEAR(e, (double)horner(x, t[q]), (double)tol, "fitted value"); REQ_NEAR(E(q), e, 1e-12 * (1 + std::fabs(e)), "Evaluate(Vector)"); if (exact) REQ_NEAR(e, (double)horner(c, t[q] / sc), (double)tol, "exact data not reproduced"); L p = 1; for (unsigned j = 0; j < n; ++j) { orth[j] += w[q] * p * (d[q] - (L)e); p *= t[q] / (L)sc; } } for (unsigned j = 0; j < n; ++j) REQ_NEAR((double)orth[j], 0., (double)(tol * 5 * m * 10), "residual times basis " << j);
   double far = sc * g.real(-2, 2); REQ_NEAR(P.Evaluate(far), (double)horner(x, far), (double)tol * 300, "extrapolation");
   P.Reset(); REQ_EQ(P.N(), 0u, "after Reset"); REQ_EQ(P.Degree(), n, "degree after Reset"); REQUIRE(P.isSingular(), "no data but not singular"); REQ_EQ(P.Evaluate(1.), 0., "singular"); for (unsigned j = 0; j < n; ++j) P.Add((double)horner(c, j / (L)n), j / (double)n); REQ_NEAR(P.Evaluate(0.4), (double)horner(c, 0.4L), 1e-7, "after Reset");
}
PROP(spline, 60000, 600000, "five or more points")
{
   int n = g.weighted({1, 1, 1, 4, 8}) + 1; if (n == 5) n = 5 + g.below(20); double sc = g.pick({1., 1., 100., 1e-3}); vector<double> X = nodes(g, n, sc), Y; bool fix = g.flag(); int kind = g.below(3); vector<L> c; if (kind) for (int i = 0; i < (fix ? 4 : 3); ++i) c.push_back(g.real(-3, 3)); double mid = X[n / 2]; for (double x : X) Y.push_back(kind ? (double)horner(c, ((L)x - mid) / sc) : g.real(-10, 10)); L d1 = kind ? horner(diff(c), ((L)X[0] - mid) / sc) / sc : g.real(-5, 5) / sc, dN = kind ? horner(diff(c), ((L)X[n - 1] - mid) / sc) / sc : g.real(-5, 5) / sc; g << n << " points scale " << sc << (fix ? " fixed ends" : " free ends") << (kind ? " polynomial" : " data"); if (n > 4) g.nontrivial();
   CubicSpline<double> S; if (g.oneIn(3)) { vector<double> z{0, 1, 2, 3, 4}; S.Initialize(z, z); } else REQUIRE(throws([&] { S.Evaluate(0.); }), "evaluated before initialisation"); vector<double> X2(X), Y2(Y); if (g.oneIn(4)) (g.flag() ? X2 : Y2).push_back(1e9); if (fix) S.Initialize(X2, Y2, (double)d1, (double)dN); else if (g.flag()) S = CubicSpline<double>(X2, Y2); else S.Initialize(X2, Y2); REQ_EQ(S.size(), n, "size"); L big = 1e-3L; for (double y : Y) big = std::max(big, std::fabs((L)y)); big = std::max(big, std::fabs(d1 * sc)); big = std::max(big, std::fabs(dN * sc));
      // second derivatives of the clamped spline, dense
   vector<L> M(n, 0); if (n > 3)
   {
      L a1 = (L)X[1] - X[0], a2 = (L)X[2] - X[0], b1 = (L)X[n - 2] - X[n - 1], b2 = (L)X[n - 3] - X[n - 1], f1 = fix ? (L)(double)d1 : (((L)Y[1] - Y[0]) / (a1 * a1) - ((L)Y[2] - Y[0]) / (a2 * a2)) / (1 / a1 - 1 / a2), fN = fix ? (L)(double)dN : (((L)Y[n - 2] - Y[n - 1]) / (b1 * b1) - ((L)Y[n - 3] - Y[n - 1]) / (b2 * b2)) / (1 / b1 - 1 / b2);
      vector<vector<L>> A(n, vector<L>(n, 0)); vector<L> r(n, 0); for (int i = 1; i < n - 1; ++i) { L h0 = (L)X[i] - X[i - 1], h1 = (L)X[i + 1] - X[i]; A[i][i - 1] = h0; A[i][i] = 2 * (h0 + h1); A[i][i + 1] = h1; r[i] = 6 * (((L)Y[i + 1] - Y[i]) / h1 - ((L)Y[i] - Y[i - 1]) / h0); } L h = (L)X[1] - X[0]; A[0][0] = 2 * h; A[0][1] = h; r[0] = 6 * (((L)Y[1] - Y[0]) / h - f1); h = (L)X[n - 1] - X[n - 2]; A[n - 1][n - 1] = 2 * h; A[n - 1][n - 2] = h; r[n - 1] = 6 * (fN - ((L)Y[n - 1] - Y[n - 2]) / h); REQUIRE(solve(A, r, M), "reference");
   }
   vector<double> q; vector<L> want; int nq = g.range(1, 12); for (int i = 0; i < nq; ++i) { int k = n == 1 ? 0 : 1 + g.below(n - 1); double x = n == 1 ? X[0] : g.oneIn(3) ? X[k - g.below(2)] : X[k - 1] + g.unit() * (X[k] - X[k - 1]); q.push_back(x); L v; if (n == 1) v = Y[0]; else { L h = (L)X[k] - X[k - 1], l = (L)x - X[k - 1], r = (L)X[k] - x; v = (M[k - 1] * r * r * r + M[k] * l * l * l) / (6 * h) + (Y[k - 1] / h - M[k - 1] * h / 6) * r + (Y[k] / h - M[k] * h / 6) * l; } if (kind && n > 3) REQ_NEAR((double)v, (double)horner(c, ((L)x - mid) / sc), (double)(1e-11L * big * n), "reference does not reproduce the polynomial"); want.push_back(v); double got = S.Evaluate(x); REQ_NEAR(got, (double)v, (double)(1e-11L * big), "spline at " << d2s(x)); for (int z = 0; z < n; ++z) if (x == X[z]) REQ_EQ(got, Y[z], "at a node"); double yl = -7; bool in = S.testLimits(x, yl); REQ_EQ(in, x > X[0] && x < X[n - 1], "testLimits"); if (!in) REQ_EQ(yl, x <= X[0] ? Y[0] : Y[n - 1], "limit"); }
   if (g.flag()) std::sort(q.begin(), q.end()); if (g.oneIn(3)) std::reverse(q.begin(), q.end()); vector<double> r = S.Evaluate(q); REQ_EQ(r.size(), q.size(), "vector size"); for (size_t i = 0; i < q.size(); ++i) REQ_NEAR(r[i], S.Evaluate(q[i]), 1e-12 * (double)big, "Evaluate(vector) at " << i);
   double y; REQUIRE(throws([&] { S.Evaluate(X[0] - sc); }) && throws([&] { S.Evaluate(X[n - 1] + sc); }) && throws([&] { S.Evaluate(vector<double>{X[n - 1] + sc}); }), "outside the data"); REQUIRE(!S.testLimits(X[0] - sc, y) && y == Y[0] && !S.testLimits(X[n - 1] + sc, y) && y == Y[n - 1], "limits"); if (n > 1) { vector<double> bad(X); size_t k = 1 + g.below(n - 1); bad[k] = g.flag() ? bad[k - 1] : bad[k - 1] - sc; REQUIRE(throws([&] { CubicSpline<double> z(bad, Y); }), "not increasing but accepted"); } vector<double> none; REQUIRE(throws([&] { CubicSpline<double> z(none, Y); }), "no data accepted");
}
PROP(helpers, 60000, 500000, "values of different sign or magnitude")
{
   double v[4]; for (int i = 0; i < 4; ++i) v[i] = g.oneIn(5) ? 0 : (g.flag() ? 1 : -1) * g.real(0.1, 10) * std::pow(10., (double)g.rangeO(-150, 150, 0) * (g.flag() ? 1 : 0)); g << d2s(v[0]) << " " << d2s(v[1]) << " " << d2s(v[2]) << " " << d2s(v[3]); if (v[0] != v[1]) g.nontrivial(); L s = 0; for (int i = 0; i < 4; ++i) { s = std::hypot(s, (L)v[i]); if (i == 1) REQ_NEAR(RSS(v[0], v[1]), (double)s, (double)(1e-15L * s * 4), "RSS of two"); if (i == 2) { REQ_NEAR(RSS(v[0], v[1], v[2]), (double)s, (double)(1e-15L * s * 4), "RSS of three"); } } REQ_NEAR(RSS(v[0], v[1], v[2], v[3]), (double)s, (double)(1e-15L * s * 4), "RSS of four");
   double x = g.oneIn(3) ? g.rangeO(-1000, 1000, 0) + 0.5 : g.real(-1e6, 1e6), r = Round(x); REQUIRE(r == std::floor(r) && std::fabs(r - x) <= 0.5 && (std::fabs(r - x) < 0.5 || r > x), "Round(" << d2s(x) << ") = " << d2s(r));
}
PBT_MAIN
