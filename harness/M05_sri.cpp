// M05: square root information: every operation against the normal equations.
#include "gp.hpp"
#include "SRI.hpp"
#include "SRIFilter.hpp"
#include "SRIleastSquares.hpp"
#include "SRIMatrix.hpp"
#include <map>
#include <set>
using namespace std;
using namespace gpstk;
using pbt::G;
typedef long double LD;
typedef vector<vector<LD> > LM;
typedef vector<LD> LV;
typedef Matrix<double> MD;
typedef Vector<double> VD;

// ------------------------------------------------------------------ dense long double algebra
static LM zeros(size_t r, size_t c) { return LM(r, LV(c, 0)); }
static LM mul(const LM& a, const LM& b)
{
   size_t n = a.size(), m = b.size(), p = m ? b[0].size() : 0;
   LM r = zeros(n, p);
   for (size_t i = 0; i < n; i++) for (size_t k = 0; k < m; k++) for (size_t j = 0; j < p; j++) r[i][j] += a[i][k] * b[k][j];
   return r;
}
static LM tr(const LM& a)
{
   if (a.empty()) return a;
   LM r = zeros(a[0].size(), a.size());
   for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[j][i] = a[i][j];
   return r;
}
static LV mulv(const LM& a, const LV& x)
{
   LV r(a.size(), 0);
   for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < x.size(); j++) r[i] += a[i][j] * x[j];
   return r;
}
// inverse by Gauss-Jordan with full row pivoting; false when singular
static bool inv(LM a, LM& out)
{
   size_t n = a.size();
   out = zeros(n, n);
   for (size_t i = 0; i < n; i++) out[i][i] = 1;
   for (size_t c = 0; c < n; c++)
   {
      size_t p = c;
      for (size_t r = c; r < n; r++) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
      if (fabsl(a[p][c]) < 1e-13L) return false;
      swap(a[p], a[c]); swap(out[p], out[c]);
      LD d = a[c][c];
      for (size_t j = 0; j < n; j++) { a[c][j] /= d; out[c][j] /= d; }
      for (size_t r = 0; r < n; r++) if (r != c)
      {
         LD f = a[r][c];
         for (size_t j = 0; j < n; j++) { a[r][j] -= f * a[c][j]; out[r][j] -= f * out[c][j]; }
      }
   }
   return true;
}
static LM toL(const MD& m)
{
   LM r = zeros(m.rows(), m.cols());
   for (size_t i = 0; i < m.rows(); i++) for (size_t j = 0; j < m.cols(); j++) r[i][j] = m(i, j);
   return r;
}
static LV toL(const VD& v) { LV r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v(i); return r; }
static MD toM(const LM& d, size_t r, size_t c)
{
   MD m(r, c, 0.0);
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = (double)d[i][j];
   return m;
}
static VD toV(const LV& d) { VD v(d.size(), 0.0); for (size_t i = 0; i < d.size(); i++) v(i) = (double)d[i]; return v; }

// ------------------------------------------------------------------ information: labelled normal equations
struct Inf
{
   vector<string> n;
   LM A; LV b;
   size_t size() const { return n.size(); }
   int idx(const string& s) const { for (size_t i = 0; i < n.size(); i++) if (n[i] == s) return (int)i; return -1; }
};
static Inf none(const vector<string>& n) { Inf r; r.n = n; r.A = zeros(n.size(), n.size()); r.b = LV(n.size(), 0); return r; }
static Inf infOf(const SRI& s)
{
   Inf r;
   Namelist nl = s.getNames();
   for (unsigned i = 0; i < nl.size(); i++) r.n.push_back(nl.getName(i));
   LM R = toL(s.getR()); LV Z = toL(s.getZ());
   r.A = R.empty() ? R : mul(tr(R), R);
   r.b = R.empty() ? LV() : mulv(tr(R), Z);
   return r;
}
// the same information over another list of names (all must be included)
static Inf over(const Inf& a, const vector<string>& n)
{
   Inf r = none(n);
   for (size_t i = 0; i < a.size(); i++)
   {
      int p = r.idx(a.n[i]);
      r.b[p] += a.b[i];
      for (size_t j = 0; j < a.size(); j++) r.A[p][r.idx(a.n[j])] += a.A[i][j];
   }
   return r;
}
static Inf sum(const Inf& a, const Inf& b)
{
   Inf x = over(b, a.n);
   for (size_t i = 0; i < a.size(); i++) { x.b[i] += a.b[i]; for (size_t j = 0; j < a.size(); j++) x.A[i][j] += a.A[i][j]; }
   return x;
}
// eliminate (marginalise) one state that has information of its own; without it, nothing is known of it
static Inf marg(const Inf& a, const string& s)
{
   int k = a.idx(s);
   Inf r;
   for (size_t i = 0; i < a.size(); i++) if ((int)i != k) r.n.push_back(a.n[i]);
   r.A = zeros(r.size(), r.size()); r.b = LV(r.size(), 0);
   LD d = a.A[k][k];
   for (size_t i = 0, ii = 0; i < a.size(); i++)
   {
      if ((int)i == k) continue;
      r.b[ii] = a.b[i] - (d > 0 ? a.A[i][k] * a.b[k] / d : 0);
      for (size_t j = 0, jj = 0; j < a.size(); j++)
      {
         if ((int)j == k) continue;
         r.A[ii][jj++] = a.A[i][j] - (d > 0 ? a.A[i][k] * a.A[k][j] / d : 0);
      }
      ii++;
   }
   return r;
}
// fix one state to a value and drop it
static Inf fixed_(const Inf& a, const string& s, LD v)
{
   int k = a.idx(s);
   Inf r;
   for (size_t i = 0; i < a.size(); i++) if ((int)i != k) r.n.push_back(a.n[i]);
   r.A = zeros(r.size(), r.size()); r.b = LV(r.size(), 0);
   for (size_t i = 0, ii = 0; i < a.size(); i++)
   {
      if ((int)i == k) continue;
      r.b[ii] = a.b[i] - a.A[i][k] * v;
      for (size_t j = 0, jj = 0; j < a.size(); j++) if ((int)j != k) r.A[ii][jj++] = a.A[i][j];
      ii++;
   }
   return r;
}
static LD scale(const Inf& a)
{
   LD s = 1e-3L;
   for (size_t i = 0; i < a.size(); i++) { s = max(s, fabsl(a.b[i])); for (size_t j = 0; j < a.size(); j++) s = max(s, fabsl(a.A[i][j])); }
   return s;
}
static string show(const Inf& a)
{
   ostringstream o; o.precision(12);
   for (size_t i = 0; i < a.size(); i++)
   {
      o << a.n[i] << ":";
      for (size_t j = 0; j < a.size(); j++) o << " " << (double)a.A[i][j];
      o << " | " << (double)a.b[i] << "\n";
   }
   return o.str();
}
static void same(const SRI& s, const Inf& want, const string& what, LD rel = 1e-9L, LD extra = 0)
{
   Inf got = infOf(s);
   REQUIRE(got.n == want.n, what << ": names [" << s.getNames() << "] wanted " << show(want));
   REQ_EQ(s.size(), (unsigned)want.size(), what + ": size");
   REQ_EQ(s.getZ().size(), want.size(), what + ": length of Z");
   MD R = s.getR();
   for (size_t i = 0; i < R.rows(); i++) for (size_t j = 0; j < i; j++)
      REQUIRE(fabs(R(i, j)) <= 1e-10 * sqrt((double)scale(want)), what << ": R is not upper triangular at " << i << "," << j << ": " << R(i, j));
   LD tol = rel * max(scale(want), extra);
   for (size_t i = 0; i < want.size(); i++)
   {
      REQUIRE(fabsl(got.b[i] - want.b[i]) <= tol, what << ": information vector\n" << show(got) << "wanted\n" << show(want));
      for (size_t j = 0; j < want.size(); j++)
         REQUIRE(fabsl(got.A[i][j] - want.A[i][j]) <= tol, what << ": information matrix\n" << show(got) << "wanted\n" << show(want));
   }
}

// ------------------------------------------------------------------ generators
static const char* POOL[] = {"X", "Y", "Z", "clk", "ZTD", "N_G01", "N_G17", "a b", "vel", "W"};
static vector<string> genNames(G& g, size_t n)
{
   vector<string> p(POOL, POOL + 10);
   g.shuffle(p);
   p.resize(n);
   return p;
}
static Namelist toNL(const vector<string>& n) { Namelist r; for (size_t i = 0; i < n.size(); i++) r += n[i]; return r; }
static double v1(G& g) { double a = 0.2 + 1.8 * g.unit(); return g.flag() ? a : -a; }
static MD genR(G& g, size_t n, bool singular = false)
{
   MD R(n, n, 0.0);
   for (size_t i = 0; i < n; i++)
   {
      R(i, i) = v1(g);
      for (size_t j = i + 1; j < n; j++) R(i, j) = g.flag(0.2) ? 0.0 : v1(g);
   }
   if (singular)
   {
      size_t k = g.below(n);
      for (size_t j = k; j < n; j++) R(k, j) = 0.0;          // a row without information
   }
   return R;
}
static VD genV(G& g, size_t n, double s = 5) { VD v(n, 0.0); for (size_t i = 0; i < n; i++) v(i) = s * (2 * g.unit() - 1); return v; }
static SRI genSRI(G& g, const vector<string>& n, bool singular = false)
{
   MD R = genR(g, n.size(), singular);
   VD Z = genV(g, n.size());
   if (singular) for (size_t i = 0; i < n.size(); i++) if (R(i, i) == 0.0) Z(i) = 0.0;
   return SRI(R, Z, toNL(n));
}
static MD genH(G& g, size_t m, size_t n)
{
   MD H(m, n, 0.0);
   for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) H(i, j) = g.flag(0.25) ? 0.0 : v1(g);
   return H;
}
static MD genSPD(G& g, size_t n)
{
   MD a = genR(g, n);
   LM L = mul(toL(a), tr(toL(a)));
   return toM(L, n, n);
}
static MD genInvertible(G& g, size_t n)
{
   // product of a unit lower and an upper triangular matrix, rows exchanged
   MD U = genR(g, n), L(n, n, 0.0);
   for (size_t i = 0; i < n; i++) { L(i, i) = 1; for (size_t j = 0; j < i; j++) L(i, j) = g.flag() ? 0.5 * v1(g) : 0; }
   LM m = mul(toL(L), toL(U));
   if (n > 1 && g.flag()) swap(m[0], m[n - 1]);
   return toM(m, n, n);
}
template <class F> static bool throws(F f) { try { f(); } catch (gpstk::Exception&) { return true; } return false; }
static LD maxabs(const LM& a) { LD m = 0; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) m = max(m, fabsl(a[i][j])); return m; }
static LD maxabs(const LV& a) { LD m = 0; for (size_t i = 0; i < a.size(); i++) m = max(m, fabsl(a[i])); return m; }
static bool posdef(const LM& a, LD& cond) { LM i; if (!inv(a, i)) return false; cond = maxabs(a) * maxabs(i); return true; }

// solution and covariance from the normal equations
static void checkSolution(const SRI& s, const Inf& want, const string& what, LD amp = 1)
{
   LM P; LD cond;
   if (!posdef(want.A, cond) || cond > 1e8L) return;
   inv(want.A, P);
   LV x = mulv(P, want.b);
   VD X, X2; MD C;
   double sm = -1, bg = -1;
   s.getState(X);
   s.getStateAndCovariance(X2, C, &sm, &bg);
   LD tx = 1e-12L * (cond + amp) * (1 + maxabs(x)), tc = 1e-12L * (cond + amp) * maxabs(P);
   REQ_EQ(X.size(), want.size(), what + ": length of state");
   for (size_t i = 0; i < want.size(); i++)
   {
      REQUIRE(fabsl(X(i) - x[i]) <= tx, what << ": getState " << i << " " << pbt::d2s(X(i)) << " wanted " << pbt::d2s((double)x[i]));
      REQUIRE(fabsl(X2(i) - x[i]) <= tx, what << ": state from getStateAndCovariance " << i);
      for (size_t j = 0; j < want.size(); j++)
         REQUIRE(fabsl(C(i, j) - P[i][j]) <= tc, what << ": covariance " << i << "," << j << " " << pbt::d2s(C(i, j)) << " wanted " << pbt::d2s((double)P[i][j]));
   }
   MD R = s.getR();
   double lo = 1e300, hi = 0;
   for (size_t i = 0; i < R.rows(); i++) { lo = std::min(lo, fabs(R(i, i))); hi = std::max(hi, fabs(R(i, i))); }
   REQ_EQ(sm, lo, what + ": smallest eigenvalue of R");
   REQ_EQ(bg, hi, what + ": largest eigenvalue of R");
}

// ------------------------------------------------------------------ properties
PROP(updates, 120000, 2400000, "two or more batches and at least as many data as states")
{
   // measurement updates in any grouping and order, with measurement covariance, a priori information, dense or sparse partials
   size_t n = 1 + g.below(6);
   vector<string> nm = genNames(g, n);
   SRIFilter F(toNL(nm));
   Inf want = none(nm);
   LD amp = 1;            // largest condition number of the given covariances
   size_t nb = 1 + g.below(5), rows = 0;
   g << "n=" << n;
   for (size_t b = 0; b < nb; b++)
   {
      int kind = g.below(7);
      g << " k" << kind;
      if (kind == 0 || kind == 1)
      {
         MD C = genSPD(g, n); VD X = genV(g, n);
         LM CI; LD cond;
         if (!posdef(toL(C), cond) || cond > 1e5) continue;
         amp = max(amp, cond);
         inv(toL(C), CI);
         MD Cc(C); VD Xc(X);
         if (kind == 0) F.addAPriori(C, X);
         else F.addAPrioriInformation(toM(CI, n, n), X);
         Inf p; p.n = nm; p.A = CI; p.b = mulv(CI, toL(X));
         want = sum(want, p);
         rows += n;
         continue;
      }
      size_t m = 1 + g.below(5);
      MD H = genH(g, m, n); VD D = genV(g, m);
      LM W = zeros(m, m);
      for (size_t i = 0; i < m; i++) W[i][i] = 1;
      VD res(D);
      MD CM = genSPD(g, m);
      bool cov = kind == 3 || kind == 5;
      LD cond;
      if (cov && (!posdef(toL(CM), cond) || cond > 1e5)) continue;
      if (cov) { inv(toL(CM), W); amp = max(amp, cond); }
      if (kind == 2) F.measurementUpdate(H, res);
      else if (kind == 3) F.measurementUpdate(H, res, CM);
      else if (kind == 4) F.measurementUpdate(SparseMatrix<double>(H), res);
      else if (kind == 5) F.measurementUpdate(SparseMatrix<double>(H), res, SparseMatrix<double>(CM));
      else { MD P(H); static_cast<SRI&>(F).measurementUpdate(P, res); }
      LM Ht = tr(toL(H));
      Inf p; p.n = nm; p.A = mul(mul(Ht, W), toL(H)); p.b = mulv(mul(Ht, W), toL(D));
      want = sum(want, p);
      rows += m;
   }
   same(F, want, "sequential updates", 1e-9L + 1e-13L * amp);
   checkSolution(F, want, "sequential updates", amp * 10);
   if (nb > 1 && rows >= n) g.nontrivial();
}

PROP(residuals, 90000, 1800000, "overdetermined update with a measurement covariance")
{
   // un-whitened residuals: cost before + d'Wd = cost after + e'We, and for fresh filters e = d - H x
   size_t n = 1 + g.below(5), m = 1 + g.below(6);
   vector<string> nm = genNames(g, n);
   MD R = genR(g, n); VD Z = genV(g, n);
   bool fresh = g.flag(0.4);
   if (fresh) { R = 0.0; Z = 0.0; }
   SRIFilter F(R, Z, toNL(nm));
   MD H = genH(g, m, n), CM = genSPD(g, m); VD D = genV(g, m);
   bool cov = g.flag(0.7), sparse = g.flag(0.4);
   LM W = zeros(m, m); LD cond = 1;
   for (size_t i = 0; i < m; i++) W[i][i] = 1;
   if (cov) { g.assume(posdef(toL(CM), cond) && cond < 1e5); inv(toL(CM), W); }
   g << "n=" << n << " m=" << m << " cov=" << cov << " sparse=" << sparse << " fresh=" << fresh;
   VD res(D);
   if (sparse && cov) F.measurementUpdate(SparseMatrix<double>(H), res, SparseMatrix<double>(CM));
   else if (sparse) F.measurementUpdate(SparseMatrix<double>(H), res);
   else if (cov) F.measurementUpdate(H, res, CM);
   else F.measurementUpdate(H, res);
   REQ_EQ(res.size(), m, "length of residuals");
   LV d = toL(D), e = toL(res), Wd = mulv(W, d), We = mulv(W, e);
   LD before = 0, after = 0;
   for (size_t i = 0; i < n; i++) before += (LD)Z(i) * Z(i);
   VD Zn = F.getZ();
   for (size_t i = 0; i < n; i++) after += (LD)Zn(i) * Zn(i);
   for (size_t i = 0; i < m; i++) { before += d[i] * Wd[i]; after += e[i] * We[i]; }
   REQUIRE(fabsl(before - after) <= 1e-9L * (1 + cond * 1e-3L) * (1 + before), "sum of squares " << (double)before << " became " << (double)after);
   if (m > n && cov) g.nontrivial();
}

PROP(dims, 36000, 720000, "inconsistent dimensions")
{
   size_t n = 1 + g.below(4);
   vector<string> nm = genNames(g, n);
   SRI S = genSRI(g, nm);
   SRIFilter F(S.getR(), S.getZ(), toNL(nm));
   Inf was = infOf(F);
   size_t m = 1 + g.below(4);
   int k = g.below(10);
   g << "case " << k << " n=" << n << " m=" << m;
   bool th = false;
   string what;
   switch (k)
   {
   case 0: { MD H = genH(g, m, n + 1); VD D = genV(g, m); th = throws([&] { F.measurementUpdate(H, D); }); what = "partials too wide"; break; }
   case 1: { MD H = genH(g, m, n); VD D = genV(g, m + 1); th = throws([&] { F.measurementUpdate(H, D); }); what = "too many data"; break; }
   case 2: { MD H = genH(g, m, n); VD D = genV(g, m); MD C = genSPD(g, m + 1); th = throws([&] { F.measurementUpdate(H, D, C); }); what = "covariance of other size"; break; }
   case 3: { MD C = genSPD(g, n + 1); VD X = genV(g, n); th = throws([&] { F.addAPriori(C, X); }); what = "a priori covariance of other size"; break; }
   case 4: { MD C = genSPD(g, n); VD X = genV(g, n + 1); th = throws([&] { F.addAPriori(C, X); }); what = "a priori state of other size"; break; }
   case 5: { VD X = genV(g, n + 1); th = throws([&] { F.shift(X); }); what = "shift of other size"; break; }
   case 6: { MD T = genH(g, n + 1, n + 1); th = throws([&] { F.transform(T, toNL(nm)); }); what = "transform of other size"; break; }
   case 7: { MD C = genSPD(g, n); C(0, 0) = -1; VD X = genV(g, n); th = throws([&] { F.addAPrioriInformation(C, X); }); what = "a priori information not positive definite"; break; }
   case 8: { MD R = genR(g, n); VD Z = genV(g, n + 1); th = throws([&] { SRI T(R, Z, toNL(nm)); }); what = "constructor with Z of other size"; break; }
   case 9: { MD H = genH(g, m, n); VD D = genV(g, m); MD C = genSPD(g, m); C(0, 0) = -0.5; th = throws([&] { F.measurementUpdate(H, D, C); }); what = "measurement covariance not positive definite"; break; }
   }
   REQUIRE(th, what << " accepted");
   same(F, was, what + " changed the filter");
   g.nontrivial();
}

PROP(state_ops, 240000, 4800000, "two or more operations on two or more states")
{
   size_t n = 1 + g.below(5);
   vector<string> nm = genNames(g, n);
   bool sing = g.flag(0.25);
   SRI S = genSRI(g, nm, sing);
   Inf I = infOf(S);
   size_t ops = 1 + g.below(5), done = 0;
   LD big = scale(I);
   g << "n=" << n << (sing ? " singular" : "");
   for (size_t o = 0; o < ops; o++)
   {
      n = I.size();
      if (n == 0) break;
      int op = g.below(13);
      string what = pbt::strf("op %d", op);
      g << " " << op;
      if (op == 0)                                            // reorder
      {
         vector<string> p = I.n;
         g.shuffle(p);
         S.permute(toNL(p));
         I = over(I, p);
         what = "permute";
      }
      else if (op == 1)                                       // more states, no information
      {
         vector<string> add = genNames(g, 1 + g.below(3)), p = I.n;
         S += toNL(add);
         for (size_t i = 0; i < add.size(); i++) if (I.idx(add[i]) < 0) p.push_back(add[i]);
         I = over(I, p);
         what = "operator+=(Namelist)";
      }
      else if (op == 2)                                       // merge
      {
         vector<string> m = genNames(g, 1 + g.below(4)), p = I.n;
         SRI T = genSRI(g, m, g.flag(0.2));
         for (size_t i = 0; i < m.size(); i++) if (I.idx(m[i]) < 0) p.push_back(m[i]);
         Inf J = infOf(T);
         if (g.flag()) S += T; else if (g.flag()) S = S + T; else S.merge(T);
         // the names may come out in another order
         vector<string> got;
         for (unsigned i = 0; i < S.getNames().size(); i++) got.push_back(S.getName(i));
         REQUIRE(set<string>(got.begin(), got.end()) == set<string>(p.begin(), p.end()) && got.size() == p.size(), "merge: names " << S.getNames());
         I = sum(over(I, got), over(J, got));
         what = "merge";
      }
      else if (op == 3)                                       // append
      {
         vector<string> m = genNames(g, 1 + g.below(3)), p = I.n;
         bool dup = false;
         for (size_t i = 0; i < m.size(); i++) { if (I.idx(m[i]) >= 0) dup = true; else p.push_back(m[i]); }
         SRI T = genSRI(g, m);
         if (dup) { REQUIRE(throws([&] { S.append(T); }), "append of a name already present accepted"); what = "refused append"; }
         else { S.append(T); I = sum(over(I, p), over(infOf(T), p)); what = "append"; }
      }
      else if (op == 4)                                       // shift of the state
      {
         VD x0 = genV(g, n);
         S.shift(x0);
         LV t = mulv(I.A, toL(x0));
         for (size_t i = 0; i < n; i++) I.b[i] -= t[i];
         what = "shift";
      }
      else if (op == 5)                                       // shift of Z
      {
         VD z0 = genV(g, n);
         LM R = toL(S.getR());
         S.shiftZ(z0);
         LV t = mulv(tr(R), toL(z0));
         for (size_t i = 0; i < n; i++) I.b[i] -= t[i];
         what = "shiftZ";
      }
      else if (op == 6)                                       // transform
      {
         MD T = genInvertible(g, n);
         LM Ti; LD cond;
         if (!posdef(toL(T), cond) || cond > 1e3) continue;
         inv(toL(T), Ti);
         vector<string> p = genNames(g, n);
         S.transform(toM(Ti, n, n), toNL(p));
         I.A = mul(mul(tr(Ti), I.A), Ti);
         I.b = mulv(tr(Ti), I.b);
         I.n = p;
         what = "transform";
      }
      else if (op == 7 && !sing)                              // remove the information of one state
      {
         unsigned k = g.below(n);
         string s = I.n[k];
         Inf M = marg(I, s);
         double q = g.flag(0.4) ? 0.0 : 0.1 + 3 * g.unit();
         if (q == 0.0)
         {
            if (g.flag()) S.Qbump(k); else S.Qbump(k, 0.0);
            I = over(M, I.n);
         }
         else
         {
            LM P; LD cond;
            if (!posdef(I.A, cond) || cond > 1e6) continue;
            inv(I.A, P);
            LV x = mulv(P, I.b);
            P[k][k] += (LD)q * q;
            inv(P, I.A);
            I.b = mulv(I.A, x);
            S.Qbump(k, q);
         }
         what = "Qbump";
      }
      else if (op == 8)                                       // fix a state
      {
         unsigned k = g.below(n);
         string s = I.n[k];
         // only when what remains keeps what is known of the other states
         LM P; LD cond;
         if (!posdef(I.A, cond) || cond > 1e6) continue;
         double v = 5 * (2 * g.unit() - 1), sg = 0.05 + g.unit();
         bool restore = g.flag();
         // information of the state alone
         Inf alone = I;
         vector<string> others;
         for (size_t i = 0; i < n; i++) if ((int)i != (int)k) { others.push_back(I.n[i]); alone = marg(alone, I.n[i]); }
         Inf r = I;
         r.A[k][k] += -alone.A[0][0] + 1 / ((LD)sg * sg);
         r.b[k] += -alone.b[0] + (LD)v / ((LD)sg * sg);
         vector<string> p = I.n;
         if (!restore) swap(p[k], p[n - 1]);
         if (g.flag()) S.stateFix(k, v, sg, restore); else S.stateFix(s, v, sg, restore);
         I = over(r, p);
         big = max(big, scale(I));
         what = "stateFix";
      }
      else if (op == 9)                                       // fix and remove
      {
         double v = 5 * (2 * g.unit() - 1);
         unsigned k = g.below(n);
         S.stateFixAndRemove(k, v);
         I = fixed_(I, I.n[k], v);
         what = "stateFixAndRemove(index)";
      }
      else if (op == 10)
      {
         vector<string> m = genNames(g, 1 + g.below(4));
         VD v = genV(g, m.size());
         S.stateFixAndRemove(toNL(m), v);
         for (size_t i = 0; i < m.size(); i++) if (I.idx(m[i]) >= 0) I = fixed_(I, m[i], v(i));
         what = "stateFixAndRemove(names)";
      }
      else if (op == 11 && !sing)                             // split
      {
         LM P; LD cond;
         if (!posdef(I.A, cond) || cond > 1e6) continue;
         vector<string> p = I.n;
         g.shuffle(p);
         p.resize(1 + g.below(n));
         SRI L;
         if (p.size() == n)
         {
            SRI S2(S);
            REQUIRE(throws([&] { S2.split(toNL(p), L); }), "split by all the names accepted");
            continue;
         }
         if (g.flag(0.1)) { SRI S2(S); vector<string> bad = p; bad[0] = "nobody"; REQUIRE(throws([&] { S2.split(toNL(bad), L); }), "split by a name not present accepted"); }
         Inf M = I;
         for (size_t i = 0; i < n; i++)
         {
            bool in = false;
            for (size_t j = 0; j < p.size(); j++) if (p[j] == I.n[i]) in = true;
            if (!in) M = marg(M, I.n[i]);
         }
         S.split(toNL(p), L);
         same(S, over(M, p), "split", 1e-8L, big);
         Inf left = infOf(L);
         REQUIRE(set<string>(left.n.begin(), left.n.end()) == set<string>(I.n.begin(), I.n.end()), "split: names of what is left " << L.getNames());
         Inf tot = sum(left, M), all = over(I, left.n);
         for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
            REQUIRE(fabsl(tot.A[i][j] - all.A[i][j]) <= 1e-8L * big && fabsl(tot.b[i] - all.b[i]) <= 1e-8L * big,
                    "split: the parts do not add up\n" << show(tot) << "wanted\n" << show(all));
         I = over(M, p);
         what = "split";
      }
      else if (op == 12 && !sing)                             // reshape
      {
         LM P; LD cond;
         if (!posdef(I.A, cond) || cond > 1e6) continue;
         vector<string> p = genNames(g, 1 + g.below(6));
         Inf M = I;
         for (size_t i = 0; i < n; i++)
         {
            bool in = false;
            for (size_t j = 0; j < p.size(); j++) if (p[j] == I.n[i]) in = true;
            if (!in) M = marg(M, I.n[i]);
         }
         S.reshape(toNL(p));
         I = over(M, p);
         what = "reshape";
         sing = sing || p.size() > n;
      }
      else continue;
      big = max(big, scale(I));
      same(S, I, what, 1e-8L, big);
      I = infOf(S);                                           // rounding does not add up
      done++;
   }
   if (done > 1 && nm.size() > 1) g.nontrivial();
}

PROP(solving, 120000, 2400000, "singular, or two or more states")
{
   size_t n = 1 + g.below(6);
   vector<string> nm = genNames(g, n);
   bool sing = g.flag(0.3);
   SRI S = genSRI(g, nm);
   MD R = S.getR(); VD Z = S.getZ();
   if (sing) { R(g.below(n), 0) = R(0, 0); size_t k = g.below(n); for (size_t j = 0; j < n; j++) for (size_t i = j + 1; i < n; i++) R(i, j) = 0; R(k, k) = 0; if (g.flag(0.3)) { size_t q = g.below(n); R(q, q) = 0; } S = SRI(R, Z, toNL(nm)); }
   g << "n=" << n << " sing=" << sing;
   if (!sing)
   {
      checkSolution(S, infOf(S), "solve");
      int ix = 7; VD X;
      S.getState(X, &ix);
      REQ_EQ(ix, -1, "index of singularity of a regular SRI");
      // condition number: extreme singular values; their squares are the extreme eigenvalues of R'R
      double s, b;
      S.getConditionNumber(s, b);
      LM A = mul(tr(toL(R)), toL(R)), Ai;
      LD cond;
      if (posdef(A, cond) && cond < 1e7)
      {
         inv(A, Ai);
         LV v(n, 1), w(n, 1);
         for (size_t i = 0; i < n; i++) { v[i] = 1 + 0.31L * i; w[i] = 1 - 0.17L * i * (i % 2 ? 1 : -1); }
         // Frobenius bounds: trace-based powers of A and of its inverse converge to the extreme eigenvalue
         LM Pm = A, Qm = Ai; LD lp = 0, lq = 0; int k = 1;
         for (int it = 0; it < 10; it++)
         {
            LD tp = 0, tq = 0;
            for (size_t i = 0; i < n; i++) { tp += Pm[i][i]; tq += Qm[i][i]; }
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { Pm[i][j] /= tp; Qm[i][j] /= tq; }
            lp += logl(tp) / k; lq += logl(tq) / k;
            Pm = mul(Pm, Pm); Qm = mul(Qm, Qm);
            k *= 2;
         }
         LD tp = 0, tq = 0;
         for (size_t i = 0; i < n; i++) { tp += Pm[i][i]; tq += Qm[i][i]; }
         lp += logl(tp) / k; lq += logl(tq) / k;
         LD eb = expl(lp / 2), es = expl(-lq / 2);            // within a factor n^(1/2048)
         REQUIRE(fabsl(b - eb) <= 2e-3L * eb, "largest singular value " << b << " wanted " << (double)eb);
         REQUIRE(fabsl(s - es) <= 2e-3L * es, "smallest singular value " << s << " wanted " << (double)es);
      }
      if (n > 1) g.nontrivial();
      return;
   }
   int last = -1;
   for (size_t i = 0; i < n; i++) if (R(i, i) == 0.0) last = (int)i;
   int ix = -5; VD X; bool th = false;
   try { S.getState(X, &ix); } catch (MatrixException&) { th = true; }
   REQUIRE(th, "getState of a singular SRI did not throw");
   REQ_EQ(ix, last, "largest index of singularity");
   // the states after it are still valid
   LV x(n, 0);
   for (int i = (int)n - 1; i > last; i--)
   {
      LD t = Z(i);
      for (size_t j = i + 1; j < n; j++) t -= R(i, j) * x[j];
      x[i] = t / R(i, i);
      REQ_NEAR(X(i), (double)x[i], 1e-9 * (1 + fabs((double)x[i])), "state after the singularity");
   }
   MD C;
   REQUIRE(throws([&] { S.getStateAndCovariance(X, C); }), "getStateAndCovariance of a singular SRI did not throw");
   g.nontrivial();
}

PROP(from_cov, 60000, 1200000, "two or more states")
{
   size_t n = 1 + g.below(6);
   vector<string> nm = genNames(g, n);
   MD C = genSPD(g, n); VD X = genV(g, n);
   LD cond; g.assume(posdef(toL(C), cond) && cond < 1e6);
   SRI S;
   S.setFromCovState(C, X, toNL(nm));
   LM CI; inv(toL(C), CI);
   Inf I; I.n = nm; I.A = CI; I.b = mulv(CI, toL(X));
   same(S, I, "setFromCovState", 1e-12L * cond + 1e-10L);
   VD X2; MD C2;
   S.getStateAndCovariance(X2, C2);
   for (size_t i = 0; i < n; i++)
   {
      REQ_NEAR(X2(i), X(i), 1e-13 * (double)cond * 10, "state");
      for (size_t j = 0; j < n; j++) REQ_NEAR(C2(i, j), C(i, j), (double)(1e-13L * cond * maxabs(toL(C))) + 1e-12, "covariance");
   }
   // zeroState, zeroOne, zeroAll
   SRI T(S);
   T.zeroState();
   for (size_t i = 0; i < n; i++) REQ_EQ(T.getZ()(i), 0.0, "zeroState");
   REQUIRE(maxabs(toL(MD(T.getR() - S.getR()))) == 0, "zeroState changed R");
   T = S;
   unsigned k = g.below(n);
   T.zeroOne(k);
   for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++)
      REQ_EQ(T.getR()(i, j), i == k ? 0.0 : S.getR()(i, j), "zeroOne");
   REQ_EQ(T.getZ()(k), 0.0, "zeroOne Z");
   T = S;
   unsigned z = g.below(n + 1);
   if (z == 0 && g.flag()) T.zeroAll(); else T.zeroAll(z);
   for (size_t i = 0; i < n; i++)
   {
      bool gone = z == 0 || i < z;
      REQ_EQ(T.getZ()(i), gone ? 0.0 : S.getZ()(i), pbt::strf("zeroAll(%u) of %zu: Z", z, n));
      for (size_t j = i; j < n; j++) REQ_EQ(T.getR()(i, j), gone ? 0.0 : S.getR()(i, j), pbt::strf("zeroAll(%u) of %zu: R", z, n));
   }
   // Reset
   SRIFilter F(S.getR(), S.getZ(), toNL(nm));
   SRIleastSquares Q(S.getR(), S.getZ(), toNL(nm));
   int N = (int)g.below(n + 3);
   F.Reset(N); Q.Reset(N);
   size_t want = N == 0 ? n : (size_t)N;
   for (int w = 0; w < 2; w++)
   {
      SRI& A = w ? (SRI&)Q : (SRI&)F;
      REQ_EQ((size_t)A.size(), want, "dimension after Reset");
      REQ_EQ(A.getZ().size(), want, "length of Z after Reset");
      REQ_EQ((size_t)A.getNames().size(), want, "number of names after Reset");
      REQUIRE(maxabs(toL(A.getR())) == 0 && maxabs(toL(A.getZ())) == 0, "information left after Reset(" << N << ") of dimension " << n);
   }
   if (n > 1) g.nontrivial();
}

// x_{k+1} = Phi_k x_k + G_k w_k, w_k ~ (0, Q), measurements at every step
PROP(kalman, 36000, 720000, "two or more time updates with process noise")
{
   size_t n = 1 + g.below(4), K = 1 + g.below(4);
   vector<string> nm = genNames(g, n);
   SRIFilter F(toNL(nm));
   // total unknowns: x0, w0..w_{K-1}
   vector<size_t> ns(K);
   size_t tot = n;
   for (size_t k = 0; k < K; k++) { ns[k] = 1 + g.below(n); tot += ns[k]; }
   LM A = zeros(tot, tot); LV b(tot, 0);
   LM T = zeros(n, tot);                                      // x_k = T * unknowns
   for (size_t i = 0; i < n; i++) T[i][i] = 1;
   g << "n=" << n << " K=" << K;
   vector<MD> Phi, PhiInv, Gm, Rw, Rwx; vector<VD> Zw;
   vector<LM> Ts;
   bool prior = g.flag(0.8);
   if (prior)
   {
      MD C = genSPD(g, n); VD X = genV(g, n);
      LD cond; g.assume(posdef(toL(C), cond) && cond < 1e4);
      F.addAPriori(C, X);
      LM CI; inv(toL(C), CI);
      LV t = mulv(CI, toL(X));
      for (size_t i = 0; i < n; i++) { b[i] += t[i]; for (size_t j = 0; j < n; j++) A[i][j] += CI[i][j]; }
   }
   size_t off = n;
   for (size_t k = 0; k <= K; k++)
   {
      size_t m = g.below(prior ? 3 : n + 2);
      if (!prior && k == 0) m = n + 1;
      if (m)
      {
         MD H = genH(g, m, n); VD D = genV(g, m);
         LM HT = mul(toL(H), T);
         LM M = mul(tr(HT), HT); LV t = mulv(tr(HT), toL(D));
         for (size_t i = 0; i < tot; i++) { b[i] += t[i]; for (size_t j = 0; j < tot; j++) A[i][j] += M[i][j]; }
         F.measurementUpdate(H, D);
      }
      Ts.push_back(T);
      if (k == K) break;
      MD P = genInvertible(g, n); LM Pi; LD cond;
      g.assume(posdef(toL(P), cond) && cond < 50);
      inv(toL(P), Pi);
      MD Gk = genH(g, n, ns[k]), R = genR(g, ns[k]); VD z = g.flag() ? VD(ns[k], 0.0) : genV(g, ns[k], 1);
      LM WI = mul(tr(toL(R)), toL(R)); LV wz = mulv(tr(toL(R)), toL(z));
      for (size_t i = 0; i < ns[k]; i++) { b[off + i] += wz[i]; for (size_t j = 0; j < ns[k]; j++) A[off + i][off + j] += WI[i][j]; }
      T = mul(toL(P), T);
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < ns[k]; j++) T[i][off + j] += Gk(i, j);
      off += ns[k];
      Phi.push_back(P); PhiInv.push_back(toM(Pi, n, n)); Gm.push_back(Gk);
      MD pi = PhiInv.back(), gk = Gk, rwx(ns[k], n, 7.0);
      F.timeUpdate(pi, R, gk, z, rwx);
      Rw.push_back(R); Zw.push_back(z); Rwx.push_back(rwx);
   }
   LM P; LD cond;
   g.assume(posdef(A, cond) && cond < 1e7);
   inv(A, P);
   LV u = mulv(P, b);
   auto compare = [&](const VD& X, const MD& C, size_t k, const string& what, LD loose)
   {
      LV x = mulv(Ts[k], u); LM c = mul(mul(Ts[k], P), tr(Ts[k]));
      LD tx = loose * (1e-10L * sqrtl(cond) + 1e-13L * cond) * (1 + maxabs(x) + maxabs(u)), tc = loose * (1e-10L * sqrtl(cond) + 1e-13L * cond) * (maxabs(c) + maxabs(P));
      for (size_t i = 0; i < n; i++)
      {
         REQUIRE(fabsl(X(i) - x[i]) <= tx, what << " state " << i << " at step " << k << " " << pbt::d2s(X(i)) << " wanted " << pbt::d2s((double)x[i]));
         for (size_t j = 0; j < n; j++)
            REQUIRE(fabsl(C(i, j) - c[i][j]) <= tc, what << " covariance at step " << k << " " << i << "," << j << ": " << pbt::d2s(C(i, j)) << " wanted " << pbt::d2s((double)c[i][j]));
      }
   };
   VD X; MD C;
   F.getStateAndCovariance(X, C);
   compare(X, C, K, "filter", 1);
   MD dmP(C); VD dmX(X);
   for (size_t k = K; k-- > 0;)
   {
      MD ph = Phi[k], rw = Rw[k], gg = Gm[k], rx = Rwx[k]; VD zz = Zw[k];
      F.smootherUpdate(ph, rw, gg, zz, rx);
      F.getStateAndCovariance(X, C);
      compare(X, C, k, "smoother", 10);
      MD pi = PhiInv[k], rw2 = Rw[k], g2 = Gm[k], rx2 = Rwx[k]; VD z2 = Zw[k];
      SRIFilter::DMsmootherUpdate(dmP, dmX, pi, rw2, g2, z2, rx2);
      compare(dmX, dmP, k, "Dyer-McReynolds smoother", 1000);
   }
   if (K > 1) g.nontrivial();
}

// ------------------------------------------------------------------ least squares class
static MD lsP; static VD lsF0; static int lsKind = 0; static int lsCalls = 0;
static void lsFun(VD& X, VD& f, MD& P)
{
   lsCalls++;
   size_t m = lsP.rows(), n = lsP.cols();
   f = VD(m, 0.0); P = MD(m, n, 0.0);
   for (size_t i = 0; i < m; i++)
      for (size_t j = 0; j < n; j++)
      {
         if (lsKind == 0) P(i, j) = lsP(i, j);                                        // linear, X ignored
         else if (lsKind == 1) { P(i, j) = lsP(i, j); f(i) += lsP(i, j) * X(j); }      // linear through the linearised path
         else { f(i) += lsP(i, j) * (X(j) + 0.05 * X(j) * X(j)); P(i, j) = lsP(i, j) * (1 + 0.1 * X(j)); }
      }
}
PROP(least_squares, 90000, 1800000, "weighted, sequential or linearised")
{
   size_t n = 1 + g.below(4);
   vector<string> nm = genNames(g, n);
   SRIleastSquares S(toNL(nm));
   bool weight = g.flag(), seq = g.flag(), lin = g.flag(), prior = g.flag(0.3);
   S.doWeight = weight; S.doSequential = seq; S.doLinearize = lin;
   lsKind = lin ? (g.flag(0.6) ? 1 : 2) : 0;
   if (lsKind == 2 && (seq || prior)) lsKind = 1;
   size_t nb = seq ? 1 + g.below(3) : 1;
   g << "n=" << n << " w" << weight << " s" << seq << " l" << lin << " p" << prior << " kind" << lsKind << " nb" << nb;
   VD X0 = lin ? genV(g, n, 2) : VD(n, 0.0);
   LM A = zeros(n, n); LV b(n, 0);
   LV x0 = toL(X0);
   if (prior)
   {
      MD C = genSPD(g, n); VD dX = genV(g, n, 2);
      LD c; g.assume(posdef(toL(C), c) && c < 1e4);
      S.addAPriori(C, dX);                                     // relative to the nominal state
      LM CI; inv(toL(C), CI);
      LV t = toL(dX);
      for (size_t i = 0; i < n; i++) t[i] += x0[i];
      b = mulv(CI, t); A = CI;
   }
   LV truth = toL(genV(g, n, 2));
   VD X(X0), D; MD Cov;
   LM P; LD cond = 1, amp = 10;
   for (size_t k = 0; k < nb; k++)
   {
      size_t m = n + g.below(5);
      lsP = genH(g, m, n);
      D = genV(g, m);
      if (lsKind == 2)                                         // consistent data near the truth, so that it converges
         for (size_t i = 0; i < m; i++) { LD t = 0; for (size_t j = 0; j < n; j++) t += (LD)lsP(i, j) * (truth[j] + 0.05L * truth[j] * truth[j]); D(i) = (double)t; }
      Cov = genSPD(g, m);
      LM W = zeros(m, m);
      for (size_t i = 0; i < m; i++) W[i][i] = 1;
      if (weight) { LD c; g.assume(posdef(toL(Cov), c) && c < 1e4); inv(toL(Cov), W); amp = max(amp, 10 * c); }
      VD D0(D);
      LM H = toL(lsP), Ht = tr(H), HW = mul(Ht, W);
      LM M = mul(HW, H); LV t = mulv(HW, toL(D0));
      for (size_t i = 0; i < n; i++) { b[i] += t[i]; for (size_t j = 0; j < n; j++) A[i][j] += M[i][j]; }
      g.assume(posdef(A, cond) && cond < 1e6);
      inv(A, P);
      LV x = mulv(P, b);
      int ret = S.dataUpdate(D, X, Cov, lsFun);
      if (lsKind == 2)
      {
         if (ret != 0) { g.assume(ret == -3 || ret == -4); return; }
         LM J = zeros(m, n); LV f(m, 0);
         for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) J[i][j] = H[i][j] * (1 + 0.1L * X(j));
         LV e(m, 0);
         for (size_t i = 0; i < m; i++) { e[i] = D0(i); for (size_t j = 0; j < n; j++) e[i] -= H[i][j] * (X(j) + 0.05L * (LD)X(j) * X(j)); }
         LV grad = mulv(mul(tr(J), W), e);                     // stationary point of the weighted cost
         REQUIRE(maxabs(grad) <= 1e-5L * (1 + maxabs(W)) * (1 + maxabs(toL(D0))) * (1 + maxabs(J)), "not a stationary point of the cost: gradient " << (double)maxabs(grad));
         for (size_t i = 0; i < m; i++) (void)i;
         REQUIRE(S.isValid(), "isValid false after success");
         g.nontrivial();
         return;
      }
      REQ_EQ(ret, 0, pbt::strf("return value, batch %zu", k));
      REQUIRE(S.isValid(), "isValid false after success");
      LD tx = 1e-12L * (cond + amp) * (1 + maxabs(x) + maxabs(x0)) + 1e-9L, tc = 1e-12L * (cond + amp) * maxabs(P);
      for (size_t i = 0; i < n; i++)
      {
         REQUIRE(fabsl(X(i) - x[i]) <= tx * (lin ? 1000 : 1), "solution " << i << " after batch " << k << ": " << pbt::d2s(X(i)) << " wanted " << pbt::d2s((double)x[i]));
         REQ_EQ(S.Solution()(i), X(i), "Solution()");
         for (size_t j = 0; j < n; j++)
            REQUIRE(fabsl(Cov(i, j) - P[i][j]) <= tc, "covariance after batch " << k << ": " << pbt::d2s(Cov(i, j)) << " wanted " << pbt::d2s((double)P[i][j]));
      }
      REQ_EQ(D.size(), m, "number of residuals");
      double lo = 1e300, hi = 0; MD R = S.getR();
      for (size_t i = 0; i < n; i++) { lo = std::min(lo, fabs(R(i, i))); hi = std::max(hi, fabs(R(i, i))); }
      REQ_NEAR(S.ConditionNumber(), hi / lo, 1e-9 * hi / lo, "condition number");
      if (!lin) REQ_EQ(S.Iterations(), 1, "iterations of a linear problem");
   }
   if (weight || seq || lin) g.nontrivial();
}

PROP(robust, 24000, 480000, "some datum is down-weighted")
{
   // on return the data vector holds the weights of the fit, and the result is the weighted solution
   size_t n = 1 + g.below(3), m = n + 4 + g.below(12);
   vector<string> nm = genNames(g, n);
   SRIleastSquares S(toNL(nm));
   S.doRobust = true;
   S.iterationsLimit = 50;
   lsKind = 0; lsP = genH(g, m, n);
   VD X(n, 0.0), D(m), T = genV(g, n);
   for (size_t i = 0; i < m; i++)
   {
      D(i) = 0.1 * (2 * g.unit() - 1);
      for (size_t j = 0; j < n; j++) D(i) += lsP(i, j) * T(j);
      if (g.flag(0.15)) D(i) += 5 * v1(g);
   }
   LM H = toL(lsP); LD cond;
   g.assume(posdef(mul(tr(H), H), cond) && cond < 1e5);
   VD D0(D); MD Cov;
   int ret;
   try { ret = S.dataUpdate(D, X, Cov, lsFun); } catch (gpstk::Exception&) { g.assume(false); return; }
   g.assume(ret == 0);
   g << "n=" << n << " m=" << m << " iterations " << S.Iterations();
   LM W = zeros(m, m); bool low = false;
   for (size_t i = 0; i < m; i++)
   {
      REQUIRE(D(i) > 0 && D(i) <= 1.0, "weight " << i << " is " << D(i));
      if (D(i) < 1) low = true;
      W[i][i] = (LD)D(i) * D(i);
   }
   LM A = mul(mul(tr(H), W), H), P; LV b = mulv(mul(tr(H), W), toL(D0));
   g.assume(posdef(A, cond) && cond < 1e9);
   inv(A, P);
   LV x = mulv(P, b);
   for (size_t i = 0; i < n; i++)
   {
      REQUIRE(fabsl(X(i) - x[i]) <= 1e-11L * cond * (1 + maxabs(x)), "robust solution " << pbt::d2s(X(i)) << " is not the weighted one " << pbt::d2s((double)x[i]));
      for (size_t j = 0; j < n; j++) REQUIRE(fabsl(Cov(i, j) - P[i][j]) <= 1e-11L * cond * maxabs(P), "robust covariance");
   }
   if (low) g.nontrivial();
}

PROP(ls_refusals, 24000, 480000, "singular or refused")
{
   size_t n = 1 + g.below(4);
   vector<string> nm = genNames(g, n);
   int k = g.below(4);
   g << "case " << k << " n=" << n;
   lsKind = 0;
   if (k == 0)                                                 // one state without data
   {
      SRIleastSquares S(toNL(nm));
      size_t m = n + g.below(3), c = g.below(n);
      lsP = genH(g, m, n);
      for (size_t i = 0; i < m; i++) lsP(i, c) = 0.0;
      VD D = genV(g, m), X; MD Cov;
      // the exact zero survives only when no column before needs the rotation of it: it always does
      int ret = S.dataUpdate(D, X, Cov, lsFun);
      REQ_EQ(ret, -2, "return value of a singular problem");
      REQUIRE(!S.isValid(), "isValid after a singular problem");
   }
   else if (k == 1)
   {
      SRIleastSquares S(toNL(nm));
      S.doWeight = S.doRobust = true;
      size_t m = n + 2; lsP = genH(g, m, n);
      VD D = genV(g, m), X; MD Cov = genSPD(g, m);
      REQUIRE(throws([&] { S.dataUpdate(D, X, Cov, lsFun); }), "doWeight with doRobust accepted");
   }
   else if (k == 2)
   {
      SRIleastSquares S(toNL(nm));
      S.doLinearize = true;
      size_t m = n - 1; lsP = genH(g, m, n); lsKind = 1;
      VD D = genV(g, m), X(n, 0.0); MD Cov;
      REQUIRE(throws([&] { S.dataUpdate(D, X, Cov, lsFun); }), "underdetermined linearised problem accepted");
   }
   else
   {
      SRIleastSquares S;
      lsP = genH(g, n, n);
      VD D = genV(g, n), X; MD Cov;
      REQUIRE(throws([&] { S.dataUpdate(D, X, Cov, lsFun); }), "problem without states accepted");
   }
   g.nontrivial();
}

PROP(factors, 120000, 2400000, "two or more rows")
{
   size_t n = 1 + g.below(6);
   MD A = genSPD(g, n);
   LM a = toL(A); LD cond;
   g.assume(posdef(a, cond) && cond < 1e8);
   int bad = g.flag(0.15);
   g << "n=" << n;
   if (bad)
   {
      MD B(A);
      size_t k = g.below(n);
      B(k, k) = -fabs(B(k, k));
      REQUIRE(throws([&] { lowerCholesky(B); }), "lowerCholesky of an indefinite matrix accepted");
      REQUIRE(throws([&] { upperCholesky(B); }), "upperCholesky of an indefinite matrix accepted");
      REQUIRE(throws([&] { VD D; LDL(B, D); }), "LDL of an indefinite matrix accepted");
      REQUIRE(throws([&] { VD D; UDU(B, D); }), "UDU of an indefinite matrix accepted");
      REQUIRE(throws([&] { inverseCholesky(B); }), "inverseCholesky of an indefinite matrix accepted");
      MD C(n, n + 1, 1.0);
      REQUIRE(throws([&] { lowerCholesky(C); }) && throws([&] { upperCholesky(C); }) && throws([&] { inverseUT(C); }) && throws([&] { inverseLT(C); }) && throws([&] { UTtimesTranspose(C); }), "matrix that is not square accepted");
      MD U = genR(g, n);
      U(k, k) = 0;
      REQUIRE(throws([&] { inverseUT(U); }), "inverseUT of a singular matrix accepted");
      REQUIRE(throws([&] { MD L = transpose(U); inverseLT(L); }), "inverseLT of a singular matrix accepted");
      g.nontrivial();
      return;
   }
   LD tol = 1e-13L * maxabs(a) * n;
   auto eq = [&](const LM& x, const LM& y, LD t, const string& what)
   {
      for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++)
         REQUIRE(fabsl(x[i][j] - y[i][j]) <= t, what << " at " << i << "," << j << ": " << pbt::d2s((double)x[i][j]) << " wanted " << pbt::d2s((double)y[i][j]));
   };
   LM L = toL(lowerCholesky(A)), U = toL(upperCholesky(A));
   for (size_t i = 0; i < n; i++)
   {
      REQUIRE(L[i][i] > 0 && U[i][i] > 0, "diagonal of a Cholesky factor");
      for (size_t j = i + 1; j < n; j++) REQUIRE(L[i][j] == 0 && U[j][i] == 0, "Cholesky factor is not triangular");
   }
   eq(mul(L, tr(L)), a, tol, "L L' (lowerCholesky)");
   eq(mul(U, tr(U)), a, tol, "U U' (upperCholesky)");
   LM ai; inv(a, ai);
   eq(toL(inverseCholesky(A)), ai, 1e-14L * cond * maxabs(ai) * n + 1e-14L, "inverseCholesky");
   VD D; LM l = toL(LDL(A, D));
   LM dm = zeros(n, n);
   for (size_t i = 0; i < n; i++) { dm[i][i] = D(i); REQUIRE(l[i][i] == 1, "LDL diagonal"); for (size_t j = i + 1; j < n; j++) REQUIRE(l[i][j] == 0, "LDL not lower"); }
   eq(mul(mul(l, dm), tr(l)), a, 10 * tol, "L D L'");
   LM u = toL(UDU(A, D));
   for (size_t i = 0; i < n; i++) { dm[i][i] = D(i); REQUIRE(u[i][i] == 1, "UDU diagonal"); for (size_t j = 0; j < i; j++) REQUIRE(u[i][j] == 0, "UDU not upper"); }
   eq(mul(mul(u, dm), tr(u)), a, 10 * tol, "U D U'");
   MD T = genR(g, n);
   LM t = toL(T), ti; inv(t, ti);
   double s = -1, b = -1, lo = 1e300, hi = 0;
   for (size_t i = 0; i < n; i++) { lo = std::min(lo, fabs(T(i, i))); hi = std::max(hi, fabs(T(i, i))); }
   LM r = toL(inverseUT(T, &s, &b));
   LD tt = 1e-11L * maxabs(ti) * maxabs(t) * maxabs(ti);
   eq(r, ti, tt, "inverseUT");
   REQ_EQ(s, lo, "inverseUT smallest"); REQ_EQ(b, hi, "inverseUT largest");
   s = b = -1;
   MD Tt = transpose(T);
   r = toL(inverseLT(Tt, &s, &b));
   eq(r, tr(ti), tt, "inverseLT");
   REQ_EQ(s, lo, "inverseLT smallest"); REQ_EQ(b, hi, "inverseLT largest");
   eq(toL(UTtimesTranspose(T)), mul(t, tr(t)), 1e-13L * n * 8, "UTtimesTranspose");
   // retriangularize a general [R||Z]
   vector<string> nm = genNames(g, n);
   SRI S(toNL(nm));
   MD RR = genH(g, n, n); VD ZZ = genV(g, n);
   Inf I; I.n = nm; I.A = mul(tr(toL(RR)), toL(RR)); I.b = mulv(tr(toL(RR)), toL(ZZ));
   if (g.flag()) S.retriangularize(RR, ZZ); else S.retriangularize(RR || ZZ);
   same(S, I, "retriangularize");
   if (n > 1) g.nontrivial();
}

// ------------------------------------------------------------------ Namelist
PROP(namelist, 120000, 2400000, "three or more operations")
{
   vector<string> m;                                           // model
   Namelist N;
   size_t ops = 1 + g.below(10), done = 0;
   auto find = [&](const vector<string>& v, const string& s) { for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return (int)i; return -1; };
   auto strs = [&](const Namelist& x) { vector<string> r; for (unsigned i = 0; i < x.size(); i++) r.push_back(x.getName(i)); return r; };
   if (g.flag(0.3)) { unsigned k = g.below(5); N = Namelist(k); REQ_EQ(N.size(), k, "Namelist(n)"); m = strs(N); REQUIRE(set<string>(m.begin(), m.end()).size() == k, "default names repeat"); }
   else if (g.flag(0.3))
   {
      vector<string> v;
      size_t k = g.below(7);
      for (size_t i = 0; i < k; i++) v.push_back(POOL[g.below(5)]);
      N = Namelist(v);
      m = strs(N);
      REQUIRE(set<string>(m.begin(), m.end()) == set<string>(v.begin(), v.end()) && set<string>(m.begin(), m.end()).size() == m.size(), "Namelist of a vector: " << N);
   }
   for (size_t o = 0; o < ops; o++)
   {
      int op = g.below(11);
      g << " " << op;
      string s = POOL[g.below(10)];
      unsigned i = g.below(m.size() + 2), j = g.below(m.size() + 2);
      if (op == 0)
      {
         bool th = throws([&] { N += s; });
         REQ_EQ(th, find(m, s) >= 0, "adding a name that is present is refused");
         if (!th) m.push_back(s);
      }
      else if (op == 1) { N -= s; int k = find(m, s); if (k >= 0) m.erase(m.begin() + k); }
      else if (op == 2) { N.swap(i, j); if (i < m.size() && j < m.size()) swap(m[i], m[j]); }
      else if (op == 3) { N.sort(); std::sort(m.begin(), m.end()); }
      else if (op == 4)
      {
         unsigned k = g.below(9);
         N.resize(k);
         vector<string> r = strs(N);
         REQ_EQ(r.size(), (size_t)k, "resize");
         for (size_t q = 0; q < r.size() && q < m.size(); q++) REQ_EQ(r[q], m[q], "resize changed a name");
         REQUIRE(set<string>(r.begin(), r.end()).size() == r.size(), "resize repeats a name: " << N);
         m = r;
      }
      else if (op == 5)
      {
         bool ok = N.setName(i, s);
         bool can = i < m.size() && (m[i] == s || find(m, s) < 0);
         REQ_EQ(ok, can, "setName");
         if (can) m[i] = s;
      }
      else if (op == 6) { N.randomize(1 + g.below(1000)); vector<string> r = strs(N); REQUIRE(multiset<string>(r.begin(), r.end()) == multiset<string>(m.begin(), m.end()), "randomize changed the names"); m = r; }
      else
      {
         vector<string> v = genNames(g, g.below(6));
         Namelist O = toNL(v), Q;
         set<string> A(m.begin(), m.end()), B(v.begin(), v.end()), W;
         int w = op - 7;
         if (w == 0) { Q = N & O; for (auto& x : A) if (B.count(x)) W.insert(x); Namelist c(N); c &= O; REQUIRE(identical(c, Q), "&= differs from &"); }
         else if (w == 1) { Q = N | O; W = A; W.insert(B.begin(), B.end()); Namelist c(N); c |= O; REQUIRE(identical(c, Q), "|= differs from |"); }
         else if (w == 2) { Q = N ^ O; for (auto& x : A) if (!B.count(x)) W.insert(x); for (auto& x : B) if (!A.count(x)) W.insert(x); Namelist c(N); c ^= O; REQUIRE(identical(c, Q), "^= differs from ^"); }
         else
         {
            REQ_EQ(N == O, A == B && m.size() == v.size(), "operator==");
            REQ_EQ(N != O, !(A == B && m.size() == v.size()), "operator!=");
            REQ_EQ(identical(N, O), m == v, "identical");
            vector<string> p = m; g.shuffle(p);
            REQUIRE(N == toNL(p), "operator== of a permutation");
            REQ_EQ(identical(N, toNL(p)), p == m, "identical of a permutation");
            bool th = throws([&] { Namelist c(N); c += O; });
            bool clash = false;
            for (auto& x : B) if (A.count(x)) clash = true;
            REQ_EQ(th, clash, "operator+= of a list with a name that is present is refused");
            continue;
         }
         vector<string> r = strs(Q);
         REQUIRE(set<string>(r.begin(), r.end()) == W && r.size() == W.size(), "set operation " << w << ": " << Q);
         if (w == 1) for (size_t q = 0; q < m.size(); q++) REQ_EQ(r[q], m[q], "| reorders the first names");
         N = Q; m = r;
      }
      REQUIRE(strs(N) == m, "names " << N << " after op " << op);
      REQUIRE(N.valid(), "not valid");
      for (int k = 0; k < 10; k++) { REQ_EQ(N.index(POOL[k]), find(m, POOL[k]), "index"); REQ_EQ(N.contains(POOL[k]), find(m, POOL[k]) >= 0, "contains"); }
      REQ_EQ(N.getName(m.size()), string("out-of-range"), "name out of range");
      done++;
   }
   if (done > 2) g.nontrivial();
}
PBT_MAIN
