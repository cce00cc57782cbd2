// M02: sequential statistics against batch definitions in long double, over histories of operations.
#include <list>
#include <iomanip>
#include "gp.hpp"
#include "Stats.hpp"
#include "BivarStats.hpp"
#include "PowerSum.hpp"
#include "RobustStats.hpp"
#include "MostCommonValue.hpp"
using namespace gpstk; using pbt::G; using pbt::d2s; using std::string; using std::vector;
typedef long double L;
struct Obs { double x, y, w; };
struct Acc   // the accumulators under test beside the plain list of what they should hold
{
   vector<Obs> v; vector<Obs> ever; bool minOk = true; L big = 0, bigW = 0; int ops = 0;
   Stats<double> s; SeqStats<double> q; WtdStats<double> w; TwoSampleStats<double> t; BivarStats<double> b, bs; PowerSum p;
   Acc() : bs(true) {}
};
static L amp(const Acc& a) { L sw = 0; for (auto& o : a.v) sw += o.w; return a.v.empty() ? 1 : std::max<L>(1, a.bigW / std::max<L>(sw, 1e-30L)) * std::max<L>(1, (L)a.ever.size() / a.v.size()); }
static void add1(Acc& a, Obs o) { a.v.push_back(o); if (a.v.size() == 1) { a.ever.clear(); a.minOk = true; a.bigW = 0; } a.ever.push_back(o); }
static void account(Acc& a) { L sw = 0; for (auto& o : a.v) { a.big = std::max({a.big, std::fabs((L)o.x), std::fabs((L)o.y)}); sw += o.w; } a.bigW = std::max(a.bigW, sw); ++a.ops; }
struct Ref { L n, mx, my, vx, vy, sxx, syy, sxy, wm, wv, sw; double lx, hx, ly, hy; };
static Ref batch(const vector<Obs>& v)
{
   Ref r; memset(&r, 0, sizeof r); r.n = v.size(); if (v.empty()) return r; r.lx = r.hx = v[0].x; r.ly = r.hy = v[0].y;
   for (auto& o : v) { r.mx += o.x; r.my += o.y; r.sw += o.w; r.wm += (L)o.w * o.x; r.lx = std::min(r.lx, o.x); r.hx = std::max(r.hx, o.x); r.ly = std::min(r.ly, o.y); r.hy = std::max(r.hy, o.y); }
   r.mx /= r.n; r.my /= r.n; r.wm /= r.sw;
   for (auto& o : v) { r.sxx += (o.x - r.mx) * (o.x - r.mx); r.syy += (o.y - r.my) * (o.y - r.my); r.sxy += (o.x - r.mx) * (o.y - r.my); r.wv += o.w * (o.x - r.wm) * (o.x - r.wm); }
   r.wv /= r.sw; if (v.size() > 1) { r.vx = r.sxx / (r.n - 1); r.vy = r.syy / (r.n - 1); } return r;
}
template <class A> static void one(const A& s, const Ref& r, L m, L var, L tm, L tv, bool mm, const char* nm)
{
   REQ_EQ(s.N(), (unsigned)r.n, nm); REQ_NEAR(s.Average(), (double)m, (double)tm, nm << " average"); REQ_NEAR(s.Variance(), (double)var, (double)tv, nm << " variance");
   if (var > 4 * tv || r.n < 2) REQ_NEAR(s.StdDev(), (double)std::sqrt(var), (double)(tv / std::sqrt(std::max(var, (L)1e-300L)) + 1e-300L), nm << " deviation");
   if (mm) { REQ_EQ(s.Minimum(), r.lx, nm << " minimum"); REQ_EQ(s.Maximum(), r.hx, nm << " maximum"); }
}
static void check(Acc& a)
{
   Ref r = batch(a.v); L B = std::max<L>(a.big, 1e-300L), k = 4e-15L * (a.ever.size() + 10 + a.ops) * amp(a), tm = k * B, tv = 8 * k * B * B; size_t n = a.v.size();
   one(a.s, r, r.mx, r.vx, tm, tv, a.minOk, "Stats"); one(a.q, r, r.mx, r.vx, tm, tv, a.minOk, "SeqStats");
   one(a.w, r, r.wm, n > 1 ? r.wv * r.n / (r.n - 1) : 0, tm, tv * (n > 1 ? r.n / (r.n - 1) : 1), a.minOk, "WtdStats"); REQ_NEAR(a.w.WtsSum(), (double)r.sw, (double)(k * a.bigW + 1e-300L), "sum of weights");
   REQ_EQ(a.t.N(), (unsigned)n, "two-sample count"); REQ_EQ(a.b.n(), n, "bivariate count"); REQ_EQ(a.bs.n(), n, "bivariate scaled count"); REQ_EQ(a.p.size(), (long)n, "power sum count");
   REQ_NEAR(a.t.AverageX(), (double)r.mx, (double)tm, "two-sample average x"); REQ_NEAR(a.t.AverageY(), (double)r.my, (double)tm, "two-sample average y"); REQ_NEAR(a.t.VarianceX(), (double)r.vx, (double)tv, "two-sample variance x"); REQ_NEAR(a.t.VarianceY(), (double)r.vy, (double)tv, "two-sample variance y");
   for (auto* b : {&a.b, &a.bs}) { const char* nm = b == &a.b ? "bivariate" : "bivariate scaled"; REQ_NEAR(b->averageX(), (double)r.mx, (double)tm, nm << " average x"); REQ_NEAR(b->averageY(), (double)r.my, (double)tm, nm << " average y"); REQ_NEAR(b->varianceX(), (double)r.vx, (double)tv, nm << " variance x"); REQ_NEAR(b->varianceY(), (double)r.vy, (double)tv, nm << " variance y"); if (a.minOk) { REQUIRE(b->minimumX() == r.lx && b->maximumX() == r.hx && b->minimumY() == r.ly && b->maximumY() == r.hy, nm << " extremes"); } }
   if (a.minOk) { REQUIRE(a.t.MinimumX() == r.lx && a.t.MaximumX() == r.hx && a.t.MinimumY() == r.ly && a.t.MaximumY() == r.hy, "two-sample extremes"); }
   REQ_NEAR(a.p.average(), (double)r.mx, (double)tm, "power sum average"); REQ_NEAR(a.p.variance(), (double)(n > 1 ? r.sxx / r.n : 0), (double)tv, "power sum variance");
   L ex = tv * n, ey = tv * n;
   if (n >= 2 && r.sxx > 1e4L * ex)
   {
      L sl = r.sxy / r.sxx, ts = (ex + std::fabs(sl) * ex) / r.sxx * 4, ti = tm + ts * B + std::fabs(sl) * tm;
      auto line = [&](double s, double i, double ev, double x, const char* nm) { REQ_NEAR(s, (double)sl, (double)ts, nm << " slope"); REQ_NEAR(i, (double)(r.my - sl * r.mx), (double)ti, nm << " intercept"); REQ_NEAR(ev, (double)(r.my + sl * (x - r.mx)), (double)(ti * 4 + ts * std::fabs(x) * 2), nm << " evaluation"); };
      double x0 = 2 * r.hx - r.lx; line(a.t.Slope(), a.t.Intercept(), a.t.Evaluate(x0), x0, "two-sample"); line(a.b.slope(), a.b.intercept(), a.b.eval(x0), x0, "bivariate"); line(a.bs.slope(), a.bs.intercept(), a.bs.eval(x0), x0, "bivariate scaled");
      if (r.syy > 1e4L * ey)
      {
         L c = r.sxy / std::sqrt(r.sxx * r.syy), tc = 4 * (ex / r.sxx + ey / r.syy + ex / std::sqrt(r.sxx * r.syy)); REQ_NEAR(a.t.Correlation(), (double)c, (double)tc, "two-sample correlation"); REQ_NEAR(a.b.correlation(), (double)c, (double)tc, "correlation"); REQ_NEAR(a.bs.correlation(), (double)c, (double)tc, "scaled correlation");
         if (n > 2)
         {
            L see = r.syy * std::max<L>(0, 1 - c * c), v = see / (n - 2), tvv = (r.syy * 4 * tc + ey) / (n - 2); double g1 = a.t.SigmaYX(), g2 = a.b.sigmaYX(), g3 = a.bs.sigmaYX();
            REQ_NEAR(g1 * g1, (double)v, (double)tvv, "two-sample sigmaYX"); REQ_NEAR(a.t.VarianceYX(), (double)v, (double)tvv, "two-sample VarianceYX"); REQ_NEAR(g2 * g2, (double)v, (double)tvv, "sigmaYX"); REQ_NEAR(g3 * g3, (double)v, (double)tvv, "scaled sigmaYX");
            double h1 = a.t.SigmaSlope(), h2 = a.b.sigmaSlope(), h3 = a.bs.sigmaSlope(); L vs = v / r.sxx, tvs = 2 * (tvv + v * ex / r.sxx) / r.sxx; REQ_NEAR(h1 * h1, (double)vs, (double)tvs, "two-sample sigmaSlope"); REQ_NEAR(h2 * h2, (double)vs, (double)tvs, "sigmaSlope"); REQ_NEAR(h3 * h3, (double)vs, (double)tvs, "scaled sigmaSlope");
         }
         else { REQ_EQ(a.t.SigmaYX(), 0., "two samples"); REQ_EQ(a.b.sigmaSlope(), 0., "two samples"); }
      }
   }
}
static double value(G& g, int kind, double off) { switch (kind) { case 0: return g.rangeO(-4, 4, 0); case 1: return off; case 2: return off + g.real(-1, 1); case 3: return g.real(-1, 1) * std::pow(10., (double)g.rangeO(-3, 3, 0)); default: return g.oneIn(5) ? 50 * off : off + 0.25 * g.rangeO(-2, 2, 0); } }
struct Gen { int kx, ky; double ox, oy, sl; };
static Obs obs(G& g, const Gen& m) { Obs o; o.x = value(g, m.kx, m.ox); o.y = m.ky == 5 ? m.oy + m.sl * o.x : value(g, m.ky, m.oy); o.w = g.oneIn(4) ? 1 : g.real(0.1, 4); return o; }
static void put(Acc& a, const Obs& o, bool neg) { a.s.Add(o.x); a.q.Add(o.x); a.w.Add(o.x, neg ? -o.w : o.w); a.t.Add(o.x, o.y); a.b.add(o.x, o.y); a.bs.add(o.x, o.y); a.p.add(o.x); add1(a, o); }
static void take(Acc& a, size_t i) { Obs o = a.v[i]; a.s.Subtract(o.x); a.q.Subtract(o.x); a.w.Subtract(o.x, o.w); a.t.Subtract(o.x, o.y); a.b.subtract(o.x, o.y); a.bs.subtract(o.x, o.y); a.p.subtract(o.x); a.v.erase(a.v.begin() + i); a.minOk = a.v.empty(); if (a.v.empty()) { a.p.clear(); a.bigW = 0; a.ever.clear(); } }
PROP(history, 60000, 800000, "a subtraction, merge, reset or reload after at least two samples")
{
   Gen m; m.kx = g.below(5); m.ky = g.below(6); m.ox = g.pick({0., 1., -1., 3.5, 1000., -2e6, 1e-4}); m.oy = g.pick({0., 1., -1., 7., -300., 1e5}); m.sl = g.pick({0., 1., -2., 0.01}); g << "kinds " << m.kx << m.ky << " offsets " << m.ox << "," << m.oy;
   Acc A, B; int n = g.range(1, 14); bool swapped = false;
   for (int i = 0; i < n; ++i)
   {
      Acc& a = swapped ? B : A; Acc& o = swapped ? A : B; size_t before = a.v.size(); int op = g.weighted({8, 3, 4, 2, 2, 1, 2, 2, 1});
      if (op >= 2 && op != 7 && before >= 2) g.nontrivial();
      switch (op)
      {
      case 0: { Obs x = obs(g, m); g << " add(" << d2s(x.x) << "," << d2s(x.y) << "," << d2s(x.w) << ")"; put(a, x, g.oneIn(5)); if (g.oneIn(8)) { a.w.Add(99, 0); } break; }
      case 1:   // as containers
      {
         int k = g.range(0, 6); vector<double> x, y, w; Vector<double> X(k), Y(k), W(k); vector<std::pair<double, double>> pr; std::list<double> ls; g << " addv" << k; for (int j = 0; j < k; ++j) { Obs e = obs(g, m); x.push_back(e.x); y.push_back(e.y); w.push_back(e.w); X(j) = e.x; Y(j) = e.y; W(j) = e.w; pr.push_back({e.x, e.y}); ls.push_back(e.x); add1(a, e); }
         if (g.flag()) { a.s.Add(x); a.q.Add(x); a.w.Add(x, w); a.t.Add(x, y); a.b.add(x, y); a.bs.add(pr); } else { a.s.Add(X); a.q.Add(X); a.w.Add(X, W); a.t.Add(X, Y); a.b.add(X, Y); a.bs.add(X, Y); } a.p.add(ls.begin(), ls.end()); break;
      }
      case 2: if (!a.v.empty()) { size_t j = g.below(a.v.size()); g << " sub#" << j; take(a, j); } break;
      case 3:   // several as containers
      {
         if (a.v.empty()) break; size_t k = g.range(1, a.v.size()), st = a.v.size() - k; vector<double> x, y, w; Vector<double> X(k), Y(k), W(k); vector<std::pair<double, double>> pr; std::list<double> ls; g << " subv" << k;
         for (size_t j = 0; j < k; ++j) { Obs e = a.v[st + j]; x.push_back(e.x); y.push_back(e.y); w.push_back(e.w); X(j) = e.x; Y(j) = e.y; W(j) = e.w; pr.push_back({e.x, e.y}); ls.push_back(e.x); }
         if (g.flag()) { a.s.Subtract(x); a.q.Subtract(x); a.w.Subtract(x, w); a.t.Subtract(x, y); a.b.subtract(x, y); a.bs.subtract(pr); } else { a.s.Subtract(X); a.q.Subtract(X); a.w.Subtract(X, W); a.t.Subtract(X, Y); a.b.subtract(X, Y); a.bs.subtract(X, Y); } a.p.subtract(ls.begin(), ls.end());
         a.v.resize(st); a.minOk = a.v.empty(); if (a.v.empty()) { a.p.clear(); a.bigW = 0; a.ever.clear(); } break;
      }
      case 4:   // merge the other into this
         g << " merge"; a.s += o.s; a.q += o.q; a.w += o.w; a.t += o.t; a.b += o.b; a.bs += o.bs; for (auto& e : o.v) a.p.add(e.x); a.minOk = (a.v.empty() || a.minOk) && (o.v.empty() || o.minOk); { bool was = a.minOk; for (auto& e : o.v) add1(a, e); a.minOk = was; if (!o.v.empty()) a.ever.insert(a.ever.end(), o.ever.begin(), o.ever.end()); a.big = std::max(a.big, o.big); a.bigW += o.bigW; } break;
      case 5: g << " reset"; a.s.Reset(); a.q.Reset(); a.w.Reset(); a.t.Reset(); a.b.clear(); a.bs.clear(); a.p.clear(); a.v.clear(); a.ever.clear(); a.minOk = true; a.bigW = 0; break;
      case 6:   // dump and load
      {
         g << " reload"; vector<unsigned> u; vector<double> d; { Stats<double> z; a.s.Dump(u, d); z.Load(u, d); a.s = z; } { SeqStats<double> z; if (a.v.size()) { a.q.Dump(u, d); z.Load(u, d); a.q = z; } } { WtdStats<double> z; if (a.v.size()) { a.w.Dump(u, d); z.Load(u, d); a.w = z; } } { TwoSampleStats<double> z; a.t.Dump(u, d); z.Load(u, d); a.t = z; } if (g.oneIn(4)) { u.clear(); d.clear(); TwoSampleStats<double> z(a.t); z.Load(u, d); REQ_EQ(z.N(), 0u, "load of nothing"); z.Add(0, 3); REQ_EQ(z.AverageY(), 3., "after load of nothing"); Stats<double> y(a.s); u.clear(); d.clear(); y.Load(u, d); y.Add(0); y.Add(2); REQ_EQ(y.Average(), 1., "after load of nothing"); } break;
      }
      case 7: swapped = !swapped; break;
      case 8:   // remove the other where it was merged just now
      {
         Acc c(a); c.s += o.s; c.q += o.q; c.w += o.w; c.t += o.t; vector<Obs> keep = c.v; c.s -= o.s; c.q -= o.q; c.w -= o.w; c.t -= o.t; g << " merge-remove"; a.s = c.s; a.q = c.q; a.w = c.w; a.t = c.t; a.minOk = a.v.empty() || (a.minOk && o.v.empty()); a.big = std::max(a.big, o.big); a.bigW += o.bigW; a.ever.insert(a.ever.end(), o.ever.begin(), o.ever.end()); if (a.v.empty()) { a.ever.clear(); a.bigW = 0; } break;
      }
      }
      account(a); check(a); if (op == 4) check(o);
   }
}
PROP(moments, 60000, 600000, "more samples than the moment order")
{
   int n = g.range(0, 30), sub = g.range(0, 5); PowerSum p; vector<double> v; double off = g.pick({0., 0., 1., -20.}); L B = 1; for (int i = 0; i < n + sub; ++i) { double x = off + (g.flag() ? g.rangeO(-3, 3, 0) : g.real(-2, 2)); v.push_back(x); p.add(x); B = std::max(B, std::fabs((L)x)); } for (int i = 0; i < sub; ++i) { p.subtract(v.back()); v.pop_back(); } g << n << " samples, " << sub << " more removed, offset " << off;
   L m = 0; for (double x : v) m += x; if (n) m /= n; L mu[6] = {0}; for (double x : v) { L d = 1; for (int k = 1; k <= 5; ++k) { d *= x - m; mu[k] += d / n; } } L e = 1e-14L * (n + sub + 2) * 20; if (n > 5) g.nontrivial();
   for (int k = 2; k <= 5; ++k) REQ_NEAR(p.moment(k), n >= k ? (double)mu[k] : 0., (double)(e * std::pow(B, (L)k) * (n ? 1 + sub / (L)n : 1)), "central moment " << k); REQ_NEAR(p.average(), (double)m, (double)(e * B), "average"); REQ_EQ(p.moment(6), 0., "order above the sums");
   if (n > 4 && mu[2] > 1e-2L * B * B) { L r = B * B / mu[2]; REQ_NEAR(p.skew(), (double)(mu[3] / std::pow(mu[2], 1.5L)), (double)(e * r * r * 10), "skew"); REQ_NEAR(p.kurtosis(), (double)(mu[4] / (mu[2] * mu[2])), (double)(e * r * r * r * 10), "kurtosis"); }
}
template <class T> static T medianRef(vector<T> v) { std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / T(2); }
PROP(robust, 80000, 800000, "four or more values")
{
   bool adOff = false; int n = g.range(2, 40); vector<double> v; int kind = g.below(4); for (int i = 0; i < n; ++i) v.push_back(kind == 0 ? g.rangeO(-3, 3, 0) : kind == 1 ? g.real(-10, 10) : kind == 2 ? i : 5 + g.real(-1, 1) * (g.oneIn(8) ? 1e4 : 1)); if (kind == 2 && g.flag()) std::reverse(v.begin(), v.end()); if (n > 3) g.nontrivial(); g << n << " values kind " << kind << ":"; for (double x : v) g << " " << d2s(x);
   vector<double> w(v), s(v); std::sort(s.begin(), s.end()); double med = medianRef(v); double sc = std::max(1., std::max(std::fabs(s[0]), std::fabs(s[n - 1])));
   REQ_EQ(Robust::Median(&w[0], n), med, "Median"); REQUIRE(w == v, "Median with save_flag changed its input"); REQ_EQ(Robust::Median(&w[0], n, false), med, "Median sorted"); REQUIRE(w == s, "not sorted"); w = v; REQ_EQ(median(v), med, "median(vector)"); Vector<double> V(n); for (int i = 0; i < n; ++i) V(i) = v[i]; REQ_EQ(median(V), med, "median(Vector)");
   vector<double> dv; for (double x : v) dv.push_back(std::fabs(x - med)); double md = medianRef(dv); REQ_NEAR(mad(v), md, 1e-14 * sc, "mad(vector)"); REQ_NEAR(mad(V), md, 1e-14 * sc, "mad(Vector)"); double M = -1; w = v; REQ_NEAR(Robust::MedianAbsoluteDeviation(&w[0], n, M), md / 0.6745, 1e-13 * sc, "MedianAbsoluteDeviation"); REQ_EQ(M, med, "its median"); REQUIRE(w == v, "MedianAbsoluteDeviation changed its input"); REQ_NEAR(Robust::MAD(&w[0], n, M, false), md / 0.6745, 1e-13 * sc, "MAD");
   double q1, q3; Robust::Quartiles(&s[0], n, q1, q3); int h = (n + 1) / 2; vector<double> lo(s.begin(), s.begin() + h), hi(s.end() - h, s.end()); REQ_EQ(q1, medianRef(lo), "first quartile"); REQ_EQ(q3, medianRef(hi), "third quartile");
   // m-estimate: fixed point of the weights it returns, and a weighted mean of the data
   double mad_ = md / 0.6745; if (mad_ > 1e-6 && std::fabs(med) > 1e-3) { vector<double> wt(n); double me = Robust::MEstimate(&v[0], n, med, mad_, &wt[0]); L sw = 0, sx = 0; for (int i = 0; i < n; ++i) { REQUIRE(wt[i] > 0 && wt[i] <= 1, "weight " << d2s(wt[i])); sw += wt[i]; sx += (L)wt[i] * v[i]; } REQ_NEAR(me, (double)(sx / sw), 1e-12 * sc, "weighted mean of its weights"); REQ_EQ(Robust::MEstimate(&v[0], n, med, mad_), me, "without weights"); L m = med; for (int it = 0; it < 10; ++it) { L a = 0, b = 0; for (double x : v) { L d = std::fabs(x - m), tv = 1.5L * mad_, k = d > tv ? tv / d : 1; a += k; b += k * x; } L nm = b / a; bool stop = std::fabs((nm - m) / nm) <= 1e-6L; bool close = std::fabs(std::fabs((nm - m) / nm) - 1e-6L) < 1e-9L; m = nm; if (close) { m = NAN; break; } if (stop) break; } if (m == m) REQ_NEAR(me, (double)m, 1e-9 * sc, "iteratively reweighted mean"); }
   // sorting with a parallel array
   { vector<double> a(v); vector<int> ix(n); for (int i = 0; i < n; ++i) ix[i] = i; QSort(&a[0], &ix[0], n); REQUIRE(a == s, "QSort"); std::set<int> seen; for (int i = 0; i < n; ++i) { REQUIRE(seen.insert(ix[i]).second && v[ix[i]] == a[i], "QSort lost the parallel array"); } }
   // Anderson-Darling statistic
   { L mean = 0; for (double x : v) mean += x; mean /= n; L var = 0; for (double x : v) var += (x - mean) * (x - mean); var /= (n - 1); double sd = std::sqrt((double)var); if (sd > 1e-3) { w = v; double got = ADtest(&w[0], n, (double)mean, sd); REQUIRE(w == v, "ADtest changed its input"); L a2 = -n, rec = -n; bool far = false; L tol = 0; for (int i = 0; i < n; ++i) { L z = (s[i] - mean) / sd; if (std::fabs(z) > 4.5L) far = true; L c = std::erfc(-z / std::sqrt(2.0L)) / 2, d = std::erfc(z / std::sqrt(2.0L)) / 2; L p = ((2 * (i + 1) - 1) * std::log(c) + (2 * (n - (i + 1)) + 1) * std::log(d)) / n; a2 -= p; rec -= ((2 * i - 1) * std::log(c) + (2 * (n - i) + 1) * std::log(d)) / n; tol += 4e-7L * ((2 * i + 1) / c + (2 * (n - i) - 1) / d) / n; } a2 *= 1 + (0.75L + 2.25L / n) / n; rec *= 1 + (0.75L + 2.25L / n) / n; double tl = (double)(tol * 4 + 1e-6L); if (!far && !(std::fabs(got - a2) <= tl)) { REQ_NEAR(got, (double)rec, tl, "Anderson-Darling statistic (neither right nor the recorded off-by-one)"); adOff = true; } } }
   { vector<double> z(n); Robust::Quantiles(&z[0], n); for (int i = 0; i < n; ++i) { L f = (i + 1 - 0.375L) / (n + 0.25L); REQ_NEAR(z[i], (double)(4.91L * (std::pow(f, 0.14L) - std::pow(1 - f, 0.14L))), 1e-12, "normal quantile"); } }
   bool t1 = false; try { Robust::Median(&v[0], 1); } catch (Exception&) { t1 = true; } REQUIRE(t1, "median of one value accepted");
   REQUIRE_SIG("adtest-index", !adOff, "ADtest weighs sample i (from 0) with 2i-1 and 2(n-i)+1 instead of 2i+1 and 2(n-i)-1");
}
KNOWN("adtest-index") { double x[4] = {-1, -0.3, 0.2, 1.1}; L rec = -4, right = -4; for (int i = 0; i < 4; ++i) { L c = std::erfc(-(L)x[i] / std::sqrt(2.0L)) / 2, d = 1 - c; rec -= ((2 * i - 1) * std::log(c) + (2 * (4 - i) + 1) * std::log(d)) / 4; right -= ((2 * i + 1) * std::log(c) + (2 * (4 - i) - 1) * std::log(d)) / 4; } L f = 1 + (0.75L + 2.25L / 4) / 4; double got = ADtest(x, 4, 0, 1); if (std::fabs(got - rec * f) < 1e-5L && std::fabs(got - right * f) > 1e-3L) pbt::fail("ADtest of four values differs from the Anderson-Darling statistic", "adtest-index"); }
PROP(polyfit, 8000, 80000, "degree at least one and an outlier present")
{
   int deg = g.range(0, 3), n = g.range(12, 40), no = g.range(0, 2); vector<double> c; for (int i = 0; i <= deg; ++i) c.push_back(g.real(-5, 5)); double t0 = g.pick({0., 100., -7.}); vector<double> t, x, clean; for (int i = 0; i < n; ++i) { double tt = t0 + i * 0.1 + g.real(0, 0.05), f = 0; for (int k = deg; k >= 0; --k) f = f * (tt - t0) + c[k]; t.push_back(tt); clean.push_back(f); x.push_back(f + 1e-3 * g.real(-1, 1)); } for (int k = 0; k < no; ++k) x[1 + g.below(n - 1)] += g.flag() ? 500 : -300; if (deg && no) g.nontrivial(); g << "degree " << deg << " " << n << " points " << no << " outliers";
   vector<double> r(x), w(n), co(deg + 1); double x0 = x[0]; int rc = Robust::RobustPolyFit(&r[0], &t[0], n, deg + 1, &co[0], &w[0]); REQUIRE(rc == 0 || rc == -2 || rc == -3, "return code " << rc);
   for (int i = 0; i < n; ++i) { double f = 0, dt = t[i] - t[0]; for (int k = deg; k >= 0; --k) f = f * dt + co[k]; f += x0; REQ_NEAR(r[i], x[i] - f, 1e-9 * (1 + std::fabs(x[i])), "residual is data minus fit"); if (rc == 0 && (no == 0 || (deg < 2 && n >= 25))) REQ_NEAR(f, clean[i], no ? 0.5 : 4e-3, "fitted value at " << i); REQUIRE(w[i] >= 0 && w[i] <= 1, "weight " << d2s(w[i])); }
}
PROP(commonest, 40000, 400000, "three or more distinct values")
{
   int dim = g.range(2, 9), nv = g.range(1, dim); MostCommonValue m(dim); vector<double> vals; for (int i = 0; i < nv; ++i) vals.push_back(i * 5 + g.real(0, 1)); double tol = g.pick({0.00095, 0.1}); m.setTol(tol); vector<int> cnt(nv, 0); vector<int> first; int n = g.range(0, 40); if (nv > 2) g.nontrivial(); g << nv << " values, " << n << " adds";
   for (int i = 0; i < n; ++i) { int k = g.below(nv); if (!cnt[k]) first.push_back(k); double d = cnt[k] ? g.real(-0.9, 0.9) * tol : 0; ++cnt[k]; m.add(vals[k] + d); }
   int best = 0; for (int c : cnt) best = std::max(best, c); REQ_EQ(m.bestN(), best, "count of the most common"); double b = m.bestDT(); if (n == 0) REQ_EQ(b, 0., "nothing added"); else { bool ok = false; for (int k = 0; k < nv; ++k) if (cnt[k] == best && std::fabs(b - vals[k]) < 1e-12) ok = true; REQUIRE(ok, "most common value " << d2s(b)); }
   vector<int> c; vector<double> v; m.getResults(c, v); REQ_EQ(c.size(), first.size(), "table size"); for (size_t i = 0; i < c.size(); ++i) REQUIRE(c[i] == cnt[first[i]] && v[i] == vals[first[i]], "table entry " << i); m.reset(3); REQ_EQ(m.bestN(), 0, "after reset");
}
PBT_MAIN
