// S01: pseudorange position solutions of exact and of noisy data, with outlier rejection, against a least squares solver and a brute-force search written here
#include "gp.hpp"
#include "PRSolution.hpp"
#include "PRSolutionLegacy.hpp"
#include "Bancroft.hpp"
#include "TropModel.hpp"
#include "GPSWeekSecond.hpp"
#include "XvtStore.hpp"
#include "Position.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map; using std::set;
typedef long double D; static const double C = 299792458.0, OM = 7.2921151467e-5;
static double LR(G& g, double lo, double hi) { return g.logReal(std::log10(lo), std::log10(hi), false); }
struct Sv { SatID id; double p[3], v[3], c0, c1, rel; bool eph; };
struct Store : XvtStore<SatID>
{
   CommonTime t0; map<SatID, Sv> sv;
   Xvt getXvt(const SatID& id, const CommonTime& t) const override { auto i = sv.find(id); if (i == sv.end() || !i->second.eph) { InvalidRequest e("no ephemeris"); GPSTK_THROW(e); } const Sv& s = i->second; double d = t - t0; Xvt x; for (int k = 0; k < 3; k++) { x.x[k] = s.p[k] + s.v[k] * d; x.v[k] = s.v[k]; } x.clkbias = s.c0 + s.c1 * d; x.clkdrift = s.c1; x.relcorr = s.rel; x.health = Xvt::Healthy; return x; }
   Xvt computeXvt(const SatID& id, const CommonTime& t) const throw() override { try { return getXvt(id, t); } catch (...) { return Xvt(); } }
   Xvt::HealthStatus getSVHealth(const SatID&, const CommonTime&) const throw() override { return Xvt::Healthy; }
   void dump(std::ostream&, short) const override {} void edit(const CommonTime&, const CommonTime&) override {} void clear() override {} TimeSystem getTimeSystem() const override { return TimeSystem::GPS; } CommonTime getInitialTime() const override { return CommonTime::BEGINNING_OF_TIME; } CommonTime getFinalTime() const override { return CommonTime::END_OF_TIME; } bool hasVelocity() const override { return true; } bool isPresent(const SatID& s) const override { return sv.count(s); } set<SatID> getIndexSet() const override { return set<SatID>(); }
};
struct Trop : TropModel
{
   double z; Trop(double zz) : z(zz) { valid = true; } string name() override { return "test"; }
   double correction(const Position& R, const Position& S, const CommonTime&) override { double e = R.elevation(S) * DEG_TO_RAD; return z / (std::sin(e) + 0.02); }
   double correction(double) const override { return 0; } double correction(const Xvt&, const Xvt&, const CommonTime&) override { return 0; } double dry_zenith_delay() const override { return z; } double wet_zenith_delay() const override { return 0; } double dry_mapping_function(double) const override { return 1; } double wet_mapping_function(double) const override { return 1; }
};
struct Scene { CommonTime tr; double rx[3]; map<SatelliteSystem, double> clk; vector<SatID> sats; vector<double> pr; Store eph; vector<bool> use; vector<D> trueRange; double zenith; };
static void rotated(const double* s, D rho, D* o) { D w = (D)OM * rho / C; o[0] = cosl(w) * s[0] + sinl(w) * s[1]; o[1] = -sinl(w) * s[0] + cosl(w) * s[1]; o[2] = s[2]; }
static D dist(const D* a, const D* b) { return sqrtl((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static double tropAt(const D* rx, const D* s, double z, const CommonTime& t) { if (z == 0) return 0; Trop m(z); return m.correction(Position((double)rx[0], (double)rx[1], (double)rx[2]), Position((double)s[0], (double)s[1], (double)s[2]), t); }
   // range from a place to a satellite position at transmission, and the rotated position
static D rangeTo(const D* rx, const double* s, D* at) { D rho = 2.2e7; for (int k = 0; k < 6; k++) { rotated(s, rho, at); rho = dist(at, rx); } return rho; }
static const vector<SatelliteSystem> systems{SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo, SatelliteSystem::BeiDou};

static void genScene(G& g, Scene& s, const vector<SatelliteSystem>& sys, int n, bool noeph)
{
   s.tr = GPSWeekSecond(g.range(1000, 3000), g.range(0, 604799) + (g.flag() ? 0 : 0.25), TimeSystem::GPS); s.eph.t0 = s.tr; double lat = std::asin(g.real(-1, 1)), lon = g.real(-3.14159, 3.14159), h = g.oneIn(6) ? g.real(-500, 40000) : g.real(-100, 3000), a = 6378137, e2 = 0.00669437999, nn = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat)); s.rx[0] = (nn + h) * std::cos(lat) * std::cos(lon); s.rx[1] = (nn + h) * std::cos(lat) * std::sin(lon); s.rx[2] = (nn * (1 - e2) + h) * std::sin(lat); s.zenith = g.oneIn(3) ? 0 : g.real(0.1, 2.6); for (auto x : sys) s.clk[x] = g.oneIn(4) ? 0 : g.flag() ? g.real(-3e5, 3e5) : g.real(-1000, 1000); D rx[3] = {s.rx[0], s.rx[1], s.rx[2]};
   g << "rx " << lat << " " << lon << " " << h << " zenith " << s.zenith; double az0 = g.real(0, 6.28); map<SatelliteSystem, vector<int> > ids; for (auto x : sys) { for (int k = 1; k <= 24; k++) ids[x].push_back(k); g.shuffle(ids[x]); }
   for (int k = 0; k < n; k++)
   {
      SatelliteSystem x = k < (int)sys.size() ? sys[k] : g.pick(sys); Sv v; v.id = SatID(ids[x].back(), x); ids[x].pop_back(); double el = (g.oneIn(4) ? g.real(60, 85) : g.real(8, 60)) / 57.29578, az = az0 + 6.2832 * k / n * g.pick(vector<double>{1, 2, 1}) + g.real(-0.4, 0.4); double E[3] = {-std::sin(lon), std::cos(lon), 0}, N[3] = {-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)}, U[3] = {std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)}, d[3]; for (int i = 0; i < 3; i++) d[i] = std::cos(el) * (std::sin(az) * E[i] + std::cos(az) * N[i]) + std::sin(el) * U[i]; double R = g.real(25.3e6, 28e6), b = 0, c2 = -R * R; for (int i = 0; i < 3; i++) { b += d[i] * s.rx[i]; c2 += s.rx[i] * s.rx[i]; } double len = -b + std::sqrt(b * b - c2); double w[3]; for (int i = 0; i < 3; i++) w[i] = g.real(-1, 1); double dot = 0, q = 0; for (int i = 0; i < 3; i++) v.p[i] = s.rx[i] + len * d[i]; for (int i = 0; i < 3; i++) dot += w[i] * v.p[i] / R; for (int i = 0; i < 3; i++) { w[i] -= dot * v.p[i] / R; q += w[i] * w[i]; } for (int i = 0; i < 3; i++) v.v[i] = 3100 * w[i] / std::sqrt(q + 1e-9); v.c0 = g.real(-8e-4, 8e-4); v.c1 = g.real(-1e-10, 1e-10); v.rel = g.real(-7e-8, 7e-8); v.eph = !noeph || !g.oneIn(8);
      D tof = 0.075L, clk = s.clk[x], rho = 0, tr = 0, at[3]; for (int i = 0; i < 8; i++) { double p[3]; D dt = -clk / C - tof; for (int m = 0; m < 3; m++) p[m] = v.p[m] + v.v[m] * (double)dt; rho = rangeTo(rx, p, at); tr = tropAt(rx, at, s.zenith, s.tr); tof = (rho + tr) / C; } D dt = -clk / C - tof; D svclk = v.c0 + v.c1 * dt + v.rel; s.sats.push_back(v.id); s.pr.push_back((double)(rho + tr + clk - C * svclk)); s.use.push_back(v.eph); s.eph.sv[v.id] = v; g << " " << v.id << (v.eph ? "" : "!");
   }
}
   // least squares over the satellites in use; weights by the inverse covariance, empty: none
struct Fit { bool ok; vector<D> x; vector<D> res; vector<vector<D> > P, cov; D rms; vector<SatelliteSystem> sys; vector<D> slope; D iters; };
static bool invert(vector<vector<D> > a, vector<vector<D> >& r) { int n = a.size(); r.assign(n, vector<D>(n, 0)); for (int k = 0; k < n; k++) r[k][k] = 1; for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i; if (fabsl(a[p][k]) < 1e-12L) return false; std::swap(a[p], a[k]); std::swap(r[p], r[k]); D q = a[k][k]; for (int j = 0; j < n; j++) { a[k][j] /= q; r[k][j] /= q; } for (int i = 0; i < n; i++) if (i != k) { D f = a[i][k]; for (int j = 0; j < n; j++) { a[i][j] -= f * a[k][j]; r[i][j] -= f * r[k][j]; } } } return true; }
static Fit solve(const Scene& s, const vector<double>& pr, const vector<bool>& use, const vector<SatelliteSystem>& allowed, const vector<vector<D> >& W)
{
   Fit f; f.ok = false; vector<int> idx; for (size_t k = 0; k < use.size(); k++) if (use[k]) idx.push_back(k); for (auto a : allowed) for (int k : idx) if (s.sats[k].system == a) { f.sys.push_back(a); break; } int n = idx.size(), dim = 3 + f.sys.size(); if (n < dim) return f; vector<D> x(dim, 0); for (int k = 0; k < 3; k++) x[k] = s.rx[k]; for (size_t k = 0; k < f.sys.size(); k++) x[3 + k] = s.clk.at(f.sys[k]);
   for (int it = 0; it < 25; it++)
   {
      vector<vector<D> > P(n, vector<D>(dim, 0)); vector<D> r(n); for (int i = 0; i < n; i++) { const Sv& v = s.eph.sv.at(s.sats[idx[i]]); D tx = -(D)pr[idx[i]] / C; D ck = v.c0 + v.c1 * tx + v.rel; tx -= ck; ck = v.c0 + v.c1 * tx + v.rel; double p[3]; for (int m = 0; m < 3; m++) p[m] = v.p[m] + v.v[m] * (double)tx; D at[3], rho = rangeTo(&x[0], p, at); int c = 3; for (auto y : f.sys) { if (y == s.sats[idx[i]].system) break; c++; } r[i] = pr[idx[i]] + C * ck - rho - tropAt(&x[0], at, s.zenith, s.tr) - x[c]; for (int m = 0; m < 3; m++) P[i][m] = (x[m] - at[m]) / rho; P[i][c] = 1; }
      vector<vector<D> > N(dim, vector<D>(dim, 0)); vector<D> b(dim, 0); auto w = [&](int i, int j) -> D { return W.empty() ? (i == j ? 1 : 0) : W[idx[i]][idx[j]]; }; for (int a = 0; a < dim; a++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { D ww = w(i, j); if (ww == 0) continue; D pw = P[i][a] * ww; b[a] += pw * r[j]; for (int c = 0; c < dim; c++) N[a][c] += pw * P[j][c]; } if (!invert(N, f.cov)) return f; D step = 0; for (int a = 0; a < dim; a++) { D dx = 0; for (int c = 0; c < dim; c++) dx += f.cov[a][c] * b[c]; x[a] += dx; step += dx * dx; } f.P = P; f.res = r; if (step < 1e-16L && it > 1) { f.ok = true; break; } if (!(step < 1e24L)) return f;
      f.slope.assign(n, 0); for (int j = 0; j < n; j++) { D g2 = 0, pg = 0; for (int a = 0; a < dim; a++) { D gg = 0; for (int c = 0; c < dim; c++) for (int i = 0; i < n; i++) if (w(i, j) != 0) gg += f.cov[a][c] * P[i][c] * w(i, j); g2 += gg * gg; pg += P[j][a] * gg; } f.slope[j] = fabsl(1 - pg) < 1e-8L ? 0 : sqrtl(g2 * (n - dim) / (1 - pg)); if (1 - pg < 1e-5L && fabsl(1 - pg) > 1e-11L) f.slope[j] = -1; }
   }
   f.x = x; D q = 0; for (D r : f.res) q += r * r; f.rms = sqrtl(q / n); return f;
}
static vector<vector<D> > noW;
static D gdop(const Fit& f) { D t = 0; for (size_t k = 0; k < f.cov.size(); k++) t += f.cov[k][k]; return sqrtl(t); }
static D spread(const Fit& f, const vector<vector<D> >& W) { D m = 0, sc = 0; for (auto& r : W) for (D x : r) sc = std::max(sc, fabsl(x)); for (auto& r : f.cov) { D t = 0; for (D x : r) t += fabsl(x); m = std::max(m, t); } return m * (W.empty() ? 1 : sc) * (D)f.P.size(); }
   // not near-singular, and not near the heights at which the solution turns the tropospheric correction off
static bool good(const Fit& f, const vector<vector<D> >& W = noW) { if (!f.ok || spread(f, W) > 200) return false; double h = Position((double)f.x[0], (double)f.x[1], (double)f.x[2]).getHeight(); return h > -900 && h < 43000; }
static void compare(PRSolution& p, const Fit& f, const vector<vector<D> >& W, const string& what) { REQ_EQ(p.Solution.size(), f.x.size(), what << " size"); D tol = 2e-3L + 4e-4L * spread(f, W); for (size_t k = 0; k < f.x.size(); k++) if (!(fabsl(p.Solution[k] - f.x[k]) <= tol)) pbt::fail(pbt::strf("%s: component %d is %.5f wanted %.5Lf (tolerance %.5Lf)", what.c_str(), (int)k, p.Solution[k], f.x[k], tol)); D m = 0; for (auto& r : f.cov) for (D x : r) m = std::max(m, fabsl(x)); REQUIRE(p.Covariance.rows() == f.x.size() && p.Covariance.cols() == f.x.size(), what << " covariance size"); for (size_t i = 0; i < f.x.size(); i++) for (size_t j = 0; j < f.x.size(); j++) REQUIRE(fabsl(p.Covariance(i, j) - f.cov[i][j]) <= 2e-5L * m * (1 + spread(f, W)), what << " covariance " << i << " " << j << " " << p.Covariance(i, j) << " wanted " << (double)f.cov[i][j]); REQUIRE(fabsl(p.RMSResidual - f.rms) <= 2e-3L, what << " RMS " << p.RMSResidual << " wanted " << (double)f.rms); REQUIRE(p.dataGNSS == f.sys, what << " systems"); REQ_EQ(p.Nsvs, (int)f.P.size(), what << " satellites used"); }

PROP(exact, 20000, 240000, "satellites of several systems, some without ephemeris or of a system not allowed")
{
   vector<SatelliteSystem> allowed = systems; g.shuffle(allowed); allowed.resize(g.range(1, 3)); vector<SatelliteSystem> data = allowed; bool other = g.oneIn(3); if (other) for (auto x : systems) if (std::find(allowed.begin(), allowed.end(), x) == allowed.end()) { data.push_back(x); break; } g.shuffle(data); if (g.oneIn(4) && data.size() > 1) data.pop_back(); Scene s; genScene(g, s, data, g.range(3 + data.size(), 14), g.flag()); vector<SatID> in = s.sats; vector<bool> use = s.use; bool fewer = false; for (size_t k = 0; k < in.size(); k++) { if (g.oneIn(12)) { in[k].id = -in[k].id; use[k] = false; } if (std::find(allowed.begin(), allowed.end(), in[k].system) == allowed.end()) use[k] = false; fewer |= !use[k]; } Fit f = solve(s, s.pr, use, allowed, noW); PRSolution p; p.allowedGNSS = allowed; if (g.flag()) p.hasMemory = false; Trop trop(s.zenith); ZeroTropModel zt; TropModel* tm = s.zenith == 0 ? (TropModel*)&zt : &trop; if (p.hasMemory && g.flag()) { double d = LR(g, 1, 1e6); p.fixAPSolution(s.rx[0] + d, s.rx[1] - d, s.rx[2]); g << " a priori " << d; } int n = std::count(use.begin(), use.end(), true); set<SatelliteSystem> present; for (size_t k = 0; k < in.size(); k++) if (use[k]) present.insert(in[k].system); vector<SatID> sats = in; int ret = p.RAIMComputeUnweighted(s.tr, sats, s.pr, &s.eph, tm); if (n == 0) { REQUIRE((ret == -4) && !p.isValid(), "no satellite can be used: " << ret); return; } if (n < 3 + (int)present.size()) { REQ_EQ(ret, -3, "too few satellites"); REQUIRE(!p.isValid(), "valid"); return; } if (!good(f)) { g.label("bad geometry"); return; } g.nontrivial(present.size() > 1 && fewer);
   REQUIRE(ret == 0 || (ret == 1 && p.SlopeFlag), "return " << ret); REQUIRE(p.isValid(), "valid"); compare(p, f, noW, "exact data"); D tol = 2e-3L + 4e-4L * spread(f, noW); for (int k = 0; k < 3; k++) REQUIRE(fabsl(p.Solution[k] - s.rx[k]) <= tol, "position " << k << " is " << p.Solution[k] << " wanted " << s.rx[k]); for (size_t k = 0; k < f.sys.size(); k++) REQUIRE(fabsl(p.Solution[3 + k] - s.clk[f.sys[k]]) <= tol, "clock " << k); for (size_t k = 0; k < in.size(); k++) REQUIRE(sats[k].system == in[k].system && sats[k].id == (use[k] ? in[k].id : -std::abs(in[k].id)), "mark of satellite " << in[k] << " is " << sats[k]); REQUIRE(p.SatelliteIDs == sats, "SatelliteIDs"); REQUIRE(!p.TropFlag, "trop flag"); D pd = sqrtl(f.cov[0][0] + f.cov[1][1] + f.cov[2][2]), td = 0; for (size_t k = 3; k < f.cov.size(); k++) td += f.cov[k][k]; auto near = [&](double a, D b, const char* w) { REQUIRE(fabsl(a - b) <= 1e-4L * b * (1 + spread(f, noW)), w << " " << a << " wanted " << (double)b); }; near(p.PDOP, pd, "PDOP"); near(p.TDOP, sqrtl(td), "TDOP"); near(p.GDOP, sqrtl(td + pd * pd), "GDOP"); D ms = 0; for (D x : f.slope) { if (x < 0) return; ms = std::max(ms, x); } REQUIRE(fabsl(p.MaxSlope - ms) <= 1e-3L * ms * (1 + spread(f, noW)), "largest slope " << p.MaxSlope << " wanted " << (double)ms); bool slope = ms > 1000 || (ms > 500 && n == 5); if (fabsl(ms - 1000) > 20 && fabsl(ms - 500) > 10) REQ_EQ(ret, slope ? 1 : 0, "return with largest slope " << (double)ms);
}
PROP(noisy, 20000, 240000, "correlated weights")
{
   vector<SatelliteSystem> allowed = systems; g.shuffle(allowed); allowed.resize(g.range(1, 2)); Scene s; genScene(g, s, allowed, g.range(4 + allowed.size(), 12), false); vector<double> pr = s.pr; double noise = g.pick(vector<double>{0.1, 1, 30}); for (double& x : pr) x += noise * g.real(-1, 1); int n = pr.size(), kind = g.below(3); vector<vector<D> > W; Matrix<double> w; if (kind) { W.assign(n, vector<D>(n, 0)); for (int i = 0; i < n; i++) W[i][i] = LR(g, 0.2, 20); if (kind == 2) { vector<vector<D> > L(n, vector<D>(n, 0)), V(n, vector<D>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L[i][j] = i == j ? g.real(0.5, 2) : g.real(-0.3, 0.3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) V[i][j] += L[i][k] * L[j][k]; W = V; } w = Matrix<double>(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { w(i, j) = (double)W[i][j]; W[i][j] = w(i, j); } } g << " noise " << noise << " weights " << kind; g.nontrivial(kind == 2); vector<bool> use(n, true); vector<SatID> in = s.sats; if (g.oneIn(3)) { int k = g.below(n); in[k].id *= -1; use[k] = false; } Fit f = solve(s, pr, use, allowed, W); if (!good(f, W)) { g.label("bad geometry"); return; } PRSolution p; p.allowedGNSS = allowed; p.RMSLimit = 1e5; p.hasMemory = g.flag(); Trop trop(s.zenith); ZeroTropModel zt; TropModel* tm = s.zenith == 0 ? (TropModel*)&zt : &trop; vector<SatID> sats = in; Matrix<double> svp;
   if (g.flag()) { int ret = p.RAIMCompute(s.tr, sats, pr, w, &s.eph, tm); REQUIRE(ret == 0 || (ret == 1 && p.SlopeFlag && !p.RMSFlag && !p.TropFlag), "return " << ret); } else { REQ_EQ(p.PreparePRSolution(s.tr, sats, pr, &s.eph, svp), (int)f.P.size(), "satellites prepared"); REQUIRE(svp.rows() == (size_t)n && svp.cols() >= 4, "matrix of satellites"); Vector<double> res, slopes; REQ_EQ(p.SimplePRSolution(s.tr, sats, svp, w, tm, 10, 3e-7, res, slopes), 0, "simple solution"); REQ_EQ(res.size(), f.res.size(), "residuals"); for (size_t k = 0; k < f.res.size(); k++) REQUIRE(fabsl(res[k] - f.res[k]) <= 2e-3L + 4e-4L * spread(f, W), "residual " << k << " " << res[k] << " wanted " << (double)f.res[k]); for (size_t k = 0; k < f.slope.size(); k++) { if (f.slope[k] < 0) continue; REQUIRE(fabsl(slopes[k] - f.slope[k]) <= 1e-3L * f.slope[k] * (1 + spread(f, W)), "slope " << k << " " << slopes[k] << " wanted " << (double)f.slope[k]); } } REQUIRE(p.isValid(), "valid"); compare(p, f, W, "noisy data");
}
   // one or two bad pseudoranges; the search: fewest rejected satellites whose best fit is below the limit
PROP(raim, 5600, 80000, "two bad pseudoranges, found")
{
   vector<SatelliteSystem> allowed = systems; g.shuffle(allowed); allowed.resize(g.oneIn(3) ? 2 : 1); Scene s; genScene(g, s, allowed, g.range(5 + allowed.size(), 9), false); int n = s.sats.size(); vector<double> pr = s.pr; for (double& x : pr) x += g.real(-1, 1); int bad = g.range(1, 2); set<int> which; which.insert(g.below(n)); if (bad == 2) which.insert((*which.begin() + g.range(1, n - 1)) % n); for (int k : which) { double e = LR(g, 60, 1e5) * (g.flag() ? 1 : -1); pr[k] += e; g << " bad " << s.sats[k] << " by " << e; } double limit = g.pick(vector<double>{6.5, 6.5, 3, 40}); int most = g.oneIn(4) ? g.range(0, 2) : -1; g << " limit " << limit << " most " << most;
   vector<bool> best; D bestRms = -1, second = -1; int stage = 0; bool found = false, few = false; for (; stage <= n; stage++) { if (most >= 0 && stage > most) break; vector<int> m(n, 0); std::fill(m.begin(), m.begin() + stage, 1); do { vector<bool> use(n); int c = 0; for (int k = 0; k < n; k++) { use[k] = !m[k]; c += use[k]; } set<SatelliteSystem> present; for (int k = 0; k < n; k++) if (use[k]) present.insert(s.sats[k].system); if (c < 3 + (int)present.size()) { few = true; break; } Fit f = solve(s, pr, use, allowed, noW); if (!good(f)) { g.label("bad geometry"); return; } if (fabsl(f.rms - limit) < 0.05L * limit) { g.label("near the limit"); return; } if (bestRms < 0 || f.rms < bestRms) { second = bestRms; bestRms = f.rms; best = use; } else if (second < 0 || f.rms < second) second = f.rms; } while (std::prev_permutation(m.begin(), m.end())); if (bestRms >= 0 && bestRms < limit) { found = true; break; } if (few) break; }
   if (!found && few) { g.label("no solution"); return; } if (second >= 0 && second - bestRms < 0.02L * bestRms + 0.01L) { g.label("ambiguous"); return; } g.nontrivial(found && stage == 2); PRSolution p; p.allowedGNSS = allowed; p.RMSLimit = limit; p.NSatsReject = most; p.hasMemory = g.flag(); Trop trop(s.zenith); ZeroTropModel zt; TropModel* tm = s.zenith == 0 ? (TropModel*)&zt : &trop; vector<SatID> sats = s.sats; int ret = p.RAIMComputeUnweighted(s.tr, sats, pr, &s.eph, tm); g << " rejects " << stage << " rms " << (double)bestRms; REQUIRE(p.isValid() && (ret == 0 || ret == 1), "return " << ret); g << " ret " << ret << " lib rms " << p.RMSResidual << " sol " << p.Solution[0] << " " << p.Solution[1] << " " << p.Solution[2] << " it " << p.NIterations << " conv " << p.Convergence; REQ_EQ(p.RMSFlag, !found, "RMS flag"); for (int k = 0; k < n; k++) REQ_EQ(sats[k].id > 0, (bool)best[k], "use of satellite " << s.sats[k]); Fit f = solve(s, pr, best, allowed, noW); compare(p, f, noW, "after rejection"); if (!found) REQ_EQ(ret, 1, "return");
}
   // a history of epochs with one object: the a priori state it keeps and the averages
PROP(memory, 4000, 48000, "a system that is missing at some epoch")
{
   vector<SatelliteSystem> allowed = systems; g.shuffle(allowed); allowed.resize(g.range(1, 3)); PRSolution p; p.allowedGNSS = allowed; int n = g.range(1, 5), count = 0, ndata = 0; if (g.oneIn(3)) p.fixAPSolution(1e6, 2e6, 3e6); vector<vector<D> > info(3, vector<D>(3, 0)); vector<D> rhs(3, 0), first(3); D worst = 0; bool missing = false; map<SatelliteSystem, D> last;
   for (int e = 0; e < n; e++)
   {
      vector<SatelliteSystem> data = allowed; while (data.size() > 1 && g.oneIn(3)) data.pop_back(); missing |= data.size() < allowed.size(); Scene s; genScene(g, s, data, g.range(4 + data.size(), 10), false); vector<double> pr = s.pr; for (double& x : pr) x += g.real(-2, 2); vector<bool> use(pr.size(), true); Fit f = solve(s, pr, use, allowed, noW); if (!good(f)) return; Trop trop(s.zenith); vector<SatID> sats = s.sats; int ret = p.RAIMComputeUnweighted(s.tr, sats, pr, &s.eph, &trop); REQUIRE(ret == 0 || ret == 1, "return " << ret); compare(p, f, noW, "epoch"); if (ret && p.TropFlag) return; count++; vector<vector<D> > c3(3, vector<D>(3)), iv; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c3[i][j] = f.cov[i][j]; if (!invert(c3, iv)) return; if (e == 0) for (int i = 0; i < 3; i++) first[i] = f.x[i]; else ndata += pr.size(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { info[i][j] += iv[i][j]; rhs[i] += iv[i][j] * (f.x[j] - first[j]); } worst = std::max(worst, spread(f, noW)); for (size_t k = 0; k < f.sys.size(); k++) last[f.sys[k]] = f.x[3 + k]; D tol = 2e-3L + 4e-4L * spread(f, noW); REQ_EQ(p.APSolution.size(), 3 + allowed.size(), "a priori size"); for (int i = 0; i < 3; i++) REQUIRE(fabsl(p.APSolution[i] - f.x[i]) <= tol, "a priori position"); for (size_t k = 0; k < allowed.size(); k++) REQUIRE(fabsl(p.APSolution[3 + k] - last[allowed[k]]) <= 2e-3L + 4e-4L * worst, "a priori clock " << k << " " << p.APSolution[3 + k] << " wanted " << (double)last[allowed[k]]);
   }
   g.nontrivial(missing && n > 1); REQ_EQ(p.was.getN(), count, "solutions in the average"); vector<vector<D> > cov; if (!invert(info, cov)) return; Vector<double> avg = p.was.getSol(); D big = 0; for (int i = 0; i < 3; i++) { D x = first[i]; for (int j = 0; j < 3; j++) x += cov[i][j] * rhs[j]; big = std::max(big, fabsl(x - first[i])); REQUIRE(fabsl(avg[i] - x) <= 0.01L * worst + 1e-5L * worst * big + 1e-9L * worst * worst * 1e7L, "weighted average " << i << " " << avg[i] << " wanted " << (double)x << " first " << (double)first[i]); } REQ_EQ(p.ndata, ndata, "data counted");
}
PROP(refused, 12000, 80000, "a call that is refused")
{
   vector<SatelliteSystem> sys{SatelliteSystem::GPS}; Scene s; genScene(g, s, sys, g.range(0, 6), false); g.nontrivial(true); PRSolution p; vector<SatID> sats = s.sats; Trop trop(1); bool thrown = false; try { p.RAIMComputeUnweighted(s.tr, sats, s.pr, &s.eph, &trop); } catch (Exception&) { thrown = true; } REQUIRE(thrown, "no allowed systems"); p.allowedGNSS = sys; if (s.sats.size() >= 4) { thrown = false; sats = s.sats; try { p.RAIMComputeUnweighted(s.tr, sats, s.pr, &s.eph, NULL); } catch (Exception&) { thrown = true; } REQUIRE(thrown, "no tropospheric model"); Matrix<double> w(3, 3, 0.0), svp(s.sats.size(), 4, 1.0); Vector<double> a, b; thrown = false; try { p.SimplePRSolution(s.tr, s.sats, svp, w, &trop, 10, 1e-6, a, b); } catch (Exception&) { thrown = true; } REQUIRE(thrown, "weights of another size"); } for (auto& v : s.eph.sv) v.second.eph = false; sats = s.sats; int ret = p.RAIMComputeUnweighted(s.tr, sats, s.pr, &s.eph, &trop); REQ_EQ(ret, -4, "no ephemeris at all"); for (auto& x : sats) REQUIRE(x.id < 0, "marked"); REQUIRE(!p.isValid(), "valid"); sats = s.sats; p.allowedGNSS = {SatelliteSystem::Galileo}; ret = p.RAIMComputeUnweighted(s.tr, sats, s.pr, &s.eph, &trop); REQ_EQ(ret, -4, "no satellite of an allowed system"); for (auto& x : sats) REQUIRE(x.id < 0, "marked");
}
   // satellites of a system that is not allowed, given directly without their marks
PROP(disallowed, 12000, 120000, "an unmarked satellite of a system that is not allowed")
{
   vector<SatelliteSystem> sys = systems; g.shuffle(sys); sys.resize(2); Scene s; genScene(g, s, sys, g.range(8, 12), false); PRSolution p; p.allowedGNSS = {sys[0]}; p.hasMemory = false; vector<bool> use; for (auto& x : s.sats) use.push_back(x.system == sys[0]); int n = std::count(use.begin(), use.end(), true); g.nontrivial(n >= 4); Fit f = solve(s, s.pr, use, p.allowedGNSS, noW); PRSolution q; q.allowedGNSS = sys; vector<SatID> sats = s.sats; Matrix<double> svp, w; q.PreparePRSolution(s.tr, sats, s.pr, &s.eph, svp); if (g.flag()) { w = Matrix<double>(s.sats.size(), s.sats.size(), 0.0); for (size_t k = 0; k < s.sats.size(); k++) w(k, k) = 1; } Vector<double> res, slopes; Trop trop(s.zenith); int ret = p.SimplePRSolution(s.tr, s.sats, svp, w, &trop, 10, 3e-7, res, slopes); if (n < 4) { REQ_EQ(ret, -3, "too few"); return; } if (!good(f)) return; REQ_EQ(ret, 0, "return"); compare(p, f, noW, "without the others"); REQ_EQ(res.size(), (size_t)n, "residuals");
}
PROP(legacy, 12000, 120000, "a bad pseudorange")
{
   vector<SatelliteSystem> sys{SatelliteSystem::GPS}; Scene s; genScene(g, s, sys, g.range(6, 9), false); int n = s.sats.size(), bad = g.flag() ? (int)g.below(n) : -1; vector<double> pr = s.pr; for (double& x : pr) x += g.real(-0.5, 0.5); if (bad >= 0) pr[bad] += LR(g, 300, 1e5); vector<bool> use(n, true), best; vector<SatelliteSystem> al = sys; D rms = -1, sec = -1; if (bad < 0) { best = use; } else for (int k = 0; k < n; k++) { vector<bool> u(n, true); u[k] = false; Fit f = solve(s, pr, u, al, noW); if (!good(f)) return; if (rms < 0 || f.rms < rms) { sec = rms; rms = f.rms; best = u; } else if (sec < 0 || f.rms < sec) sec = f.rms; } Fit all = solve(s, pr, use, al, noW), f = solve(s, pr, best, al, noW); if (!good(f) || !good(all)) return; if (bad >= 0 && (rms > 5 || sec < 20 || all.rms < 8)) return; if (s.zenith && Position(s.rx[0], s.rx[1], s.rx[2]).getHeight() > 9900) return; g.nontrivial(bad >= 0); PRSolutionLegacy p; Trop trop(s.zenith); ZeroTropModel zt; vector<SatID> sats = s.sats; int ret = p.RAIMCompute(s.tr, sats, pr, s.eph, s.zenith == 0 ? (TropModel*)&zt : &trop); REQUIRE(ret == 0 || ret == 1, "return " << ret); for (int k = 0; k < n; k++) REQ_EQ(sats[k].id > 0, (bool)best[k], "use of " << s.sats[k]); D tol = 2e-3L + 4e-4L * spread(f, noW); REQ_EQ(p.Solution.size(), (size_t)4, "size"); for (int k = 0; k < 4; k++) REQUIRE(fabsl(p.Solution[k] - f.x[k]) <= tol, "component " << k << " " << p.Solution[k] << " wanted " << (double)f.x[k]); REQUIRE(p.Covariance.rows() == 4 && p.Covariance.cols() == 4, "covariance has " << p.Covariance.rows() << " rows"); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) REQUIRE(fabsl(p.Covariance(i, j) - f.cov[i][j]) <= 1e-4L * spread(f, noW) * (1 + spread(f, noW)), "covariance"); REQ_EQ(p.Nsvs, (int)f.P.size(), "satellites used"); REQUIRE(fabsl(p.RMSResidual - f.rms) < 2e-3L, "RMS");
}
PROP(bancroft, 24000, 240000, "rows outside the limits are among the data")
{
   vector<SatelliteSystem> sys{SatelliteSystem::GPS}; Scene s; s.zenith = 0; genScene(g, s, sys, g.range(4, 10), false); int n = s.sats.size(); double clk = g.real(-1e4, 1e4); bool junk = g.flag(); vector<vector<double> > rows; vector<vector<D> > P; for (int k = 0; k < n; k++) { const Sv& v = s.eph.sv[s.sats[k]]; double r = 0; vector<D> pr; for (int i = 0; i < 3; i++) r += (v.p[i] - s.rx[i]) * (v.p[i] - s.rx[i]); r = std::sqrt(r); for (int i = 0; i < 3; i++) pr.push_back((s.rx[i] - v.p[i]) / r); pr.push_back(1); P.push_back(pr); rows.push_back({v.p[0], v.p[1], v.p[2], r + clk}); } vector<vector<D> > N(4, vector<D>(4, 0)), iv; for (auto& r : P) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) N[i][j] += r[i] * r[j]; if (!invert(N, iv)) return; D gd = 0; for (int k = 0; k < 4; k++) gd += iv[k][k]; if (gd > 400) { g.label("bad geometry"); return; } if (junk) { rows.insert(rows.begin() + g.below(rows.size()), {1e7, 1e7, 1e7, 2.1e7}); rows.push_back({rows[0][0], rows[0][1], rows[0][2], g.flag() ? 1.4e7 : 3.1e7}); } g.nontrivial(junk); Matrix<double> d(rows.size(), 4); for (size_t k = 0; k < rows.size(); k++) for (int i = 0; i < 4; i++) d(k, i) = rows[k][i]; Bancroft b; b.ChooseOne = false; Vector<double> x, y; int ret = b.Compute(d, x); REQ_EQ(ret, 0, "return"); double tol = 0.01 + 2e-2 * (double)gd; auto is = [&](const Vector<double>& z) { double m = std::fabs(z[3] - clk); for (int i = 0; i < 3; i++) m = std::max(m, std::fabs(z[i] - s.rx[i])); return m <= tol; }; y = b.SecondSolution; REQUIRE(is(x) || is(y), "neither solution is right: " << x[0] << " " << x[1] << " " << x[2] << " " << x[3] << " and " << y[0] << " " << y[1] << " " << y[2] << " " << y[3] << ", wanted " << s.rx[0] << " " << s.rx[1] << " " << s.rx[2] << " " << clk << ", gdop^2 " << (double)gd); double near = g.flag() ? b.CloseTo : RSS(s.rx[0], s.rx[1], s.rx[2]); Bancroft c; c.CloseTo = near; Vector<double> z; REQ_EQ(c.Compute((const Matrix<double>&)d, z), 0, "return"); auto off = [&](const Vector<double>& q) { return std::fabs(RSS(q[0], q[1], q[2]) - near); }; const Vector<double>& w = off(x) < off(y) ? x : y; if (std::fabs(off(x) - off(y)) > 1) for (int i = 0; i < 4; i++) REQUIRE(std::fabs(z[i] - w[i]) <= tol, "the solution chosen is not the one nearer to the radius"); if (n == 4 || !junk) { Matrix<double> few(3, 4); for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) few(k, i) = rows[k][i]; REQ_EQ(b.Compute(few, x), -1, "three rows"); }
}
PBT_MAIN
