// E04: tabular stores (positions and clocks) against the window of records the documentation selects and a long double
// Lagrange polynomial (or line) through it; SP3EphemerisStore loaded from generated files.
#include "gp.hpp"
#include "PositionSatStore.hpp"
#include "ClockSatStore.hpp"
#include "SP3EphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
#include "CivilTime.hpp"
#include "MJD.hpp"
#include <fstream>
using namespace gpstk; using pbt::G; using pbt::strf; using std::string; using std::vector; using std::map;
typedef long double LD;
static const CommonTime& base() { static CommonTime t(GPSWeekSecond(1700, 86400.0, TimeSystem::GPS)); return t; }
static CommonTime at(double s) { CommonTime t = base(); t.addSeconds((long)std::floor(s)); t.addSeconds(s - std::floor(s)); return t; }
static double sec(const CommonTime& t) { return t - base(); }

   // value and derivative of the interpolating polynomial, and the sums of magnitudes that bound the rounding error
struct Lag { LD y, dy, ay, ady; };
static Lag lagrange(const vector<double>& X, const vector<double>& Y, double x)
{
   Lag r{0, 0, 0, 0}; size_t n = X.size(); for (size_t i = 0; i < n; i++) { LD L = 1, d = 0; for (size_t j = 0; j < n; j++) if (j != i) L *= ((LD)x - X[j]) / ((LD)X[i] - X[j]); for (size_t k = 0; k < n; k++) if (k != i) { LD p = 1 / ((LD)X[i] - X[k]); for (size_t j = 0; j < n; j++) if (j != i && j != k) p *= ((LD)x - X[j]) / ((LD)X[i] - X[j]); d += p; } r.y += L * Y[i]; r.dy += d * Y[i]; r.ay += fabsl(L * Y[i]); r.ady += fabsl(d * Y[i]); } LD m = 0; for (double v : Y) m = std::max(m, fabsl((LD)v)); r.ay += 0.01L * m; if (n > 1) r.ady += 0.01L * m / fabsl((LD)X[1] - X[0]); return r;
}
struct Row { double v[9], s[9]; }; // position: P V A; clock: bias, drift, accel in 0, 1, 2
typedef map<double, Row> Table;
   // indices of the first and last record of the window, or the reason for refusing
struct Win { bool ok, exact; int a, b; string why; };
struct Limits { bool gap; double gapInt; bool len; double lenMax; };
static vector<double> keys(const Table& t) { vector<double> k; for (auto& r : t) k.push_back(r.first); return k; }
static Win window(const vector<double>& k, double t, int nh, bool exactReturn, const Limits& l)
{
   Win w{false, false, 0, 0, ""}; int n = k.size(); if (n < 2) { w.why = "size"; return w; } int lb = std::lower_bound(k.begin(), k.end(), t) - k.begin(); w.exact = lb < n && k[lb] == t; if (w.exact && exactReturn) { w.ok = true; w.a = w.b = lb; return w; }
   w.a = lb - nh; w.b = lb + nh - 1; if (lb == n || w.a < 0 || w.b > n - 1) { w.why = "data"; return w; } if (l.gap && k[lb] - k[lb - 1] > l.gapInt) { w.why = "gap"; return w; } if (l.len && k[w.b] - k[w.a] > l.lenMax) { w.why = "length"; return w; } w.ok = true; return w;
}
   // records of a table with mostly regular spacing
static vector<double> genTimes(G& g, int n, double& dt) { dt = g.pick(vector<double>{900, 300, 30, 15, 5, 120.5}); vector<double> t; double x = dt * g.range(-3, 3); bool irregular = g.oneIn(5); for (int k = 0; k < n; k++) { t.push_back(x); x += dt; if (g.oneIn(12)) x += dt * g.range(1, 4); if (irregular) x += dt * 0.25 * g.range(0, 2); } return t; }
static double genQuery(G& g, const vector<double>& t, double dt) { if (t.empty()) return dt * g.range(-3, 20); int k = g.below(t.size()); if (g.oneIn(8)) k = 0; if (g.oneIn(8)) k = t.size() - 1; switch (g.below(6)) { case 0: return t[k]; case 1: return t[k] + dt * 0.5; case 2: return t[k] - dt * 0.25; case 3: return t[k] + (g.flag() ? 1 : -1) * g.pick(vector<double>{1e-3, 1, dt, 2 * dt}); default: return std::round((t[k] + dt * g.real(-1, 1)) * 1000) / 1000; } }
static Limits genLimits(G& g, double dt, int nh) { Limits l{false, 0, false, 0}; if (g.oneIn(3)) { l.gap = true; l.gapInt = dt * g.pick(vector<double>{0.9, 1.05, 1.5, 2.5}); } if (g.oneIn(3)) { l.len = true; l.lenMax = dt * (2 * nh - 1) * g.pick(vector<double>{0.9, 1, 1.2, 2}) + 1; } return l; }
template <class S> static void setLimits(S& s, const Limits& l) { if (l.gap) s.setGapInterval(l.gapInt); else s.disableDataGapCheck(); if (l.len) s.setMaxInterval(l.lenMax); else s.disableIntervalCheck(); REQUIRE(s.isDataGapCheck() == l.gap && s.isIntervalCheck() == l.len && (!l.gap || s.getGapInterval() == l.gapInt) && (!l.len || s.getMaxInterval() == l.lenMax), "limits"); }
template <class S> static void content(G& g, const S& s, const map<SatID, Table>& m, const vector<SatID>& sats)
{
   int n = 0; double lo = 1e300, hi = -1e300; map<SatelliteSystem, int> sys; vector<SatID> list; for (auto& x : m) { n += x.second.size(); sys[x.first.system] += x.second.size(); if (x.second.size()) { list.push_back(x.first); lo = std::min(lo, x.second.begin()->first); hi = std::max(hi, x.second.rbegin()->first); } }
   REQ_EQ(s.ndata(), n, "ndata"); REQ_EQ(s.size(), n, "size"); if (n) REQUIRE(sec(s.getInitialTime()) == lo && sec(s.getFinalTime()) == hi, "time limits"); else REQUIRE(s.getInitialTime() == CommonTime::END_OF_TIME && s.getFinalTime() == CommonTime::BEGINNING_OF_TIME, "time limits of an empty store"); REQUIRE(s.getSatList() == list, "satellite list");
   for (auto& y : sys) REQ_EQ(s.ndata(y.first), y.second, "records of a system"); for (auto& x : sats) { auto i = m.find(x); bool has = i != m.end() && i->second.size(); REQ_EQ(s.ndata(x), has ? (int)i->second.size() : 0, "records of a satellite"); if (has) { REQUIRE(s.isPresent(x) && s.hasSatellite(x), "present"); REQUIRE(sec(s.getInitialTime(x)) == i->second.begin()->first && sec(s.getFinalTime(x)) == i->second.rbegin()->first, "time limits of a satellite"); map<double, int> d; vector<double> k = keys(i->second); for (size_t j = 1; j < k.size(); j++) d[k[j] - k[j - 1]]++; if (d.size() <= 3) { int most = 0; for (auto& e : d) most = std::max(most, e.second); double st = s.nomTimeStep(x); if (d.size()) REQUIRE(d.count(st) && d[st] == most, "nominal time step " << st); else REQ_EQ(st, 0.0, "nominal time step of one record"); } } else REQUIRE(s.getInitialTime(x) == CommonTime::END_OF_TIME && s.getFinalTime(x) == CommonTime::BEGINNING_OF_TIME && s.nomTimeStep(x) == 0, "limits of an absent satellite"); if (i == m.end()) REQUIRE(!s.isPresent(x), "absent"); }
   (void)g;
}
template <class S> static void editBoth(G& g, S& s, map<SatID, Table>& m, double dt) { double a = dt * g.range(-4, 15) + g.pick(vector<double>{0, 0.5, -0.5}), b = a + dt * g.range(0, 25); g << " edit " << a << " " << b << ";"; if (g.flag()) { s.edit(at(a)); b = 1e300; } else s.edit(at(a), at(b)); for (auto& x : m) for (auto i = x.second.begin(); i != x.second.end();) if (i->first < a || i->first > b) i = x.second.erase(i); else ++i; }
static string why(const Win& w) { return w.ok ? "" : w.why; }
static vector<SatID> genSats(G& g) { vector<SatID> v; int n = g.range(1, 3); for (int k = 0; k < n; k++) v.push_back(SatID(k + 1, g.flag() ? SatelliteSystem::GPS : SatelliteSystem::Glonass)); return v; }
static void close(double got, LD want, LD mag, const char* what) { LD tol = 2e-11L * mag + 1e-300L; if (!(fabsl(got - want) <= tol)) pbt::fail(strf("%s: got %.17g wanted %.17g within %.3g", what, got, (double)want, (double)tol)); }
static double rss(double a, double b) { return std::sqrt(a * a + b * b); }
static vector<double> col(const Table& t, const vector<double>& k, int a, int b, int c) { vector<double> v; for (int i = a; i <= b; i++) v.push_back(t.at(k[i]).v[c]); return v; }
static vector<double> sub(const vector<double>& k, int a, int b) { return vector<double>(k.begin() + a, k.begin() + b + 1); }
   // windows allowed for an exact match that has to be interpolated: the matching record at index nhalf-1 to nhalf+1
static vector<Win> exactWindows(const vector<double>& k, int i, int nh) { vector<Win> v; for (int off = nh - 1; off <= nh + 1; off++) { Win w{true, true, i - off, i - off + 2 * nh - 1, ""}; if (w.a >= 0 && w.b < (int)k.size()) v.push_back(w); } return v; }

PROP(positions, 9000, 200000, "a satellite with at least two windows of records")
{
   PositionSatStore s; vector<SatID> sats = genSats(g); int order = g.pick(vector<int>{3, 4, 8, 9, 10, 10, 11, 16}), nh = (order + 1) / 2; s.setInterpolationOrder(order); REQ_EQ((int)s.getInterpolationOrder(), 2 * nh, "order is made even"); int mode = g.below(4); // 0: P, 1: P V, 2: P V A, 3: P A
   bool hv = mode == 1 || mode == 2, ha = mode >= 2; double dt; map<SatID, Table> m; vector<std::pair<SatID, double> > seq; g << "order " << order << " mode " << mode << ";"; vector<double> times = genTimes(g, g.range(1, 40), dt);
   for (auto& x : sats) for (auto t : times) if (!g.oneIn(15)) seq.push_back({x, t}); g.shuffle(seq); for (size_t k = seq.size(); k > 0 && g.oneIn(2); k--) seq.push_back(seq[g.below(seq.size())]);
   double amp = 26000, w = 1.46e-4 * g.real(0.2, 2); if (seq.empty()) return; bool gotV = false, gotA = false;
   for (auto& q : seq)
   {
      double ph = g.oneIn(20) ? g.real(0, 0.01) : 0; Row r; double u = w * q.second + q.first.id + ph; for (int k = 0; k < 3; k++) { double a = u + 2.1 * k; r.v[k] = amp * std::cos(a); r.v[3 + k] = hv ? -amp * w * std::sin(a) * 1e4 : 0; r.v[6 + k] = ha ? -amp * w * w * std::cos(a) * 1e3 : 0; r.s[k] = g.range(1, 50); r.s[3 + k] = hv ? g.range(1, 50) : 0; r.s[6 + k] = ha ? g.range(1, 50) : 0; } Triple P(r.v[0], r.v[1], r.v[2]), V(r.v[3], r.v[4], r.v[5]), A(r.v[6], r.v[7], r.v[8]), sP(r.s[0], r.s[1], r.s[2]), sV(r.s[3], r.s[4], r.s[5]), sA(r.s[6], r.s[7], r.s[8]);
      if (g.oneIn(3)) { vector<int> o{0, 1, 2}; g.shuffle(o); for (int k : o) { if (k == 0) s.addPositionData(q.first, at(q.second), P, sP); if (k == 1 && hv) s.addVelocityData(q.first, at(q.second), V, sV); if (k == 2 && ha) s.addAccelerationData(q.first, at(q.second), A, sA); } }
      else { PositionRecord rec; rec.Pos = P; rec.sigPos = sP; rec.Vel = V; rec.sigVel = sV; rec.Acc = A; rec.sigAcc = sA; s.addPositionRecord(q.first, at(q.second), rec); } m[q.first][q.second] = r; gotV = hv; gotA = ha;
   }
   if (g.oneIn(8)) { g << " clear;"; s.clear(); map<SatID, Table> old = m; m.clear(); content(g, s, m, sats); REQUIRE(!s.hasVelocity() && !s.hasAccleration(), "a cleared store has no velocity"); hv = ha = gotV = gotA = false; for (auto& x : old) for (auto& r : x.second) { for (int k = 3; k < 9; k++) r.second.v[k] = r.second.s[k] = 0; s.addPositionData(x.first, at(r.first), Triple(r.second.v[0], r.second.v[1], r.second.v[2]), Triple(r.second.s[0], r.second.s[1], r.second.s[2])); m[x.first][r.first] = r.second; } }
   REQUIRE(s.hasPosition() && s.hasVelocity() == gotV && s.hasAccleration() == gotA && !s.hasClockBias() && !s.hasClockDrift(), "has"); size_t most = 0; for (auto& x : m) most = std::max(most, x.second.size()); g.nontrivial((int)most > 2 * nh);
   int rounds = g.range(1, 3);
   for (int round = 0; round < rounds; round++)
   {
      content(g, s, m, sats); Limits l = genLimits(g, dt, nh); setLimits(s, l);
      for (int q = 0; q < 6; q++)
      {
         SatID x = g.pick(sats); if (g.oneIn(20)) x.id = 20; const Table tb = m.count(x) ? m.at(x) : Table(); vector<double> k = keys(tb); double t = genQuery(g, k, dt); g << " at " << x.id << " " << pbt::d2s(t) << " gap " << (l.gap ? l.gapInt : 0) << " len " << (l.len ? l.lenMax : 0) << ";"; Win e = k.size() ? window(k, t, nh, true, l) : Win{false, false, 0, 0, "satellite"}, w = k.size() ? window(k, t, nh, false, l) : e;
         auto call = [&](auto f) { try { f(); return true; } catch (InvalidRequest&) { return false; } }; PositionRecord rec; Triple P, V, A; bool okR = call([&] { rec = s.getValue(x, at(t)); }), okP = call([&] { P = s.getPosition(x, at(t)); }), okV = call([&] { V = s.getVelocity(x, at(t)); }), okA = call([&] { A = s.getAcceleration(x, at(t)); });
         REQUIRE(okP == e.ok, "getPosition refuses " << !okP << ", expected reason: " << why(e)); if (!hv && !ha) REQUIRE(!okA, "acceleration without velocity and acceleration data");
         if (e.exact) // at an epoch of the table
         {
            const Row& r = tb.at(t); for (int i = 0; i < 3 && okP; i++) REQ_EQ(P[i], r.v[i], "position at an epoch of the table");
            if (hv) { REQUIRE(okR && okV, "an epoch of a table with velocity"); for (int i = 0; i < 3; i++) REQUIRE(rec.Pos[i] == r.v[i] && rec.Vel[i] == r.v[3 + i] && rec.sigPos[i] == r.s[i] && rec.sigVel[i] == r.s[3 + i] && rec.Acc[i] == r.v[6 + i] && V[i] == r.v[3 + i], "the record at an epoch of the table"); }
            else { if (w.ok) REQUIRE(okR && okV, "an epoch inside the table"); int idx = std::lower_bound(k.begin(), k.end(), t) - k.begin(); vector<Win> ws = exactWindows(k, idx, nh); if (okR) { REQUIRE(ws.size(), "no window for " << t); for (int i = 0; i < 3; i++) { REQ_NEAR(rec.Pos[i], r.v[i], 1e-10 * amp, "position at an epoch of the table"); REQ_EQ(rec.sigPos[i], r.s[i], "sigma at an epoch"); bool fit = false, fit2 = !okV; for (auto& y : ws) { Lag d = lagrange(sub(k, y.a, y.b), col(tb, k, y.a, y.b, i), t); if (fabsl(rec.Vel[i] - 1e4L * d.dy) <= 2e-8L * d.ady) fit = true; if (okV && fabsl(V[i] - 1e4L * d.dy) <= 2e-8L * d.ady) fit2 = true; } REQUIRE(fit && fit2, "velocity at an epoch of the table " << rec.Vel[i] << " " << V[i]); } } }
            if (ha) { REQUIRE(okA, "acceleration at an epoch"); for (int i = 0; i < 3; i++) REQ_EQ(A[i], r.v[6 + i], "acceleration at an epoch"); }
            continue;
         }
         REQUIRE(okR == w.ok && okV == w.ok, "refusal: getValue " << !okR << " getVelocity " << !okV << ", expected reason: " << why(w)); if (hv || ha) REQ_EQ(okA, w.ok, "getAcceleration refuses"); if (!w.ok) continue; vector<double> X = sub(k, w.a, w.b);
         for (int i = 0; i < 3; i++)
         {
            Lag p = lagrange(X, col(tb, k, w.a, w.b, i), t); close(rec.Pos[i], p.y, p.ay, "position"); close(P[i], p.y, p.ay, "getPosition"); REQ_NEAR(rec.sigPos[i], rss(tb.at(k[w.a + nh - 1]).s[i], tb.at(k[w.a + nh]).s[i]), 1e-9, "sigma of position"); if (hv) { Lag v = lagrange(X, col(tb, k, w.a, w.b, 3 + i), t); close(rec.Vel[i], v.y, v.ay, "velocity"); close(V[i], v.y, v.ay, "getVelocity"); REQ_NEAR(rec.sigVel[i], rss(tb.at(k[w.a + nh - 1]).s[3 + i], tb.at(k[w.a + nh]).s[3 + i]), 1e-9, "sigma of velocity"); if (!ha) { close(rec.Acc[i], v.dy / 10, v.ady / 10, "acceleration from velocities"); close(A[i], v.dy / 10, v.ady / 10, "getAcceleration from velocities"); } } else { close(rec.Vel[i], 1e4L * p.dy, 1e4L * p.ady, "velocity from positions"); close(V[i], 1e4L * p.dy, 1e4L * p.ady, "getVelocity from positions"); }
            if (ha) { Lag a = lagrange(X, col(tb, k, w.a, w.b, 6 + i), t); close(A[i], a.y, a.ay, "getAcceleration"); if (hv) close(rec.Acc[i], a.y, a.ay, "acceleration"); }
         }
         if (nh >= 4 && X.back() - X.front() < 900.0 * (2 * nh - 1) * 1.01 && X.back() - X.front() < 8000 && mode < 2) { bool clean = true; for (double y : X) if (std::fabs(tb.at(y).v[0] - amp * std::cos(w.ok ? 0.0 : 0.0)) < 0) clean = false; (void)clean; }
      }
      if (round + 1 < rounds) editBoth(g, s, m, dt);
   }
}

PROP(clocks, 9000, 200000, "a satellite with at least two windows of records")
{
   ClockSatStore s; vector<SatID> sats = genSats(g); bool lin = g.oneIn(3); int order = lin ? 2 : g.pick(vector<int>{3, 4, 8, 9, 10, 11, 14}), nh = (order + 1) / 2; if (lin) { s.setLinearInterp(); if (g.flag()) s.setInterpolationOrder(8); } else { if (g.flag()) s.setLagrangeInterp(); s.setInterpolationOrder(order); } REQ_EQ((int)s.getInterpolationOrder(), 2 * nh, "order"); int mode = g.below(4); bool hd = mode == 1 || mode == 2, ha = mode >= 2; double dt; map<SatID, Table> m; vector<std::pair<SatID, double> > seq; g << (lin ? "linear" : "order ") << order << " mode " << mode << ";"; vector<double> times = genTimes(g, g.range(1, 36), dt); double scale = g.flag() ? 1e-6 : 1;
   for (auto& x : sats) for (auto t : times) if (!g.oneIn(15)) seq.push_back({x, t}); g.shuffle(seq); for (size_t k = seq.size(); k > 0 && g.oneIn(2); k--) seq.push_back(seq[g.below(seq.size())]); if (seq.empty()) return;
   for (auto& q : seq) { Row r; r.v[0] = scale * (g.real(-1, 1) + 300); r.v[1] = hd ? scale * 1e-3 * (1.5 + g.real(-1, 1)) : 0; r.v[2] = ha ? scale * 1e-6 * (1.5 + g.real(-1, 1)) : 0; r.s[0] = scale * 0.01 * g.range(1, 9); r.s[1] = hd ? scale * 1e-5 * g.range(1, 9) : 0; r.s[2] = ha ? scale * 1e-8 * g.range(1, 9) : 0; if (g.oneIn(3)) { vector<int> o{0, 1, 2}; g.shuffle(o); for (int k : o) { if (k == 0) s.addClockBias(q.first, at(q.second), r.v[0], r.s[0]); if (k == 1 && hd) s.addClockDrift(q.first, at(q.second), r.v[1], r.s[1]); if (k == 2 && ha) s.addClockAcceleration(q.first, at(q.second), r.v[2], r.s[2]); } } else { ClockRecord c; c.bias = r.v[0]; c.drift = r.v[1]; c.accel = r.v[2]; c.sig_bias = r.s[0]; c.sig_drift = r.s[1]; c.sig_accel = r.s[2]; s.addClockRecord(q.first, at(q.second), c); } m[q.first][q.second] = r; }
   if (g.oneIn(8)) { g << " clear;"; s.clear(); map<SatID, Table> old = m; m.clear(); content(g, s, m, sats); REQUIRE(!s.hasClockDrift() && !s.hasClockAccel(), "a cleared store has no drift"); hd = ha = false; for (auto& x : old) for (auto& r : x.second) { r.second.v[1] = r.second.v[2] = 0; s.addClockBias(x.first, at(r.first), r.second.v[0], r.second.s[0]); m[x.first][r.first] = r.second; } }
   REQUIRE(s.hasClockBias() && s.hasClockDrift() == hd && s.hasClockAccel() == ha && !s.hasPosition() && !s.hasVelocity(), "has"); size_t most = 0; for (auto& x : m) most = std::max(most, x.second.size()); g.nontrivial((int)most > 2 * nh); int rounds = g.range(1, 3);
   for (int round = 0; round < rounds; round++)
   {
      content(g, s, m, sats); Limits l = genLimits(g, dt, nh); setLimits(s, l);
      for (int q = 0; q < 6; q++)
      {
         SatID x = g.pick(sats); if (g.oneIn(20)) x.id = 20; const Table tb = m.count(x) ? m.at(x) : Table(); vector<double> k = keys(tb); double t = genQuery(g, k, dt); g << " at " << x.id << " " << pbt::d2s(t) << " gap " << (l.gap ? l.gapInt : 0) << " len " << (l.len ? l.lenMax : 0) << ";"; Win e = k.size() ? window(k, t, nh, true, l) : Win{false, false, 0, 0, "satellite"}, w = k.size() ? window(k, t, nh, false, l) : e; auto call = [&](auto f) { try { f(); return true; } catch (InvalidRequest&) { return false; } }; ClockRecord rec; double B = 0, D = 0; bool okR = call([&] { rec = s.getValue(x, at(t)); }), okB = call([&] { B = s.getClockBias(x, at(t)); }), okD = call([&] { D = s.getClockDrift(x, at(t)); }); REQUIRE(okB == e.ok, "getClockBias refuses " << !okB << ", expected reason: " << why(e));
         auto line = [&](const vector<double>& X, const vector<double>& Y) { Lag r; LD sl = ((LD)Y[1] - Y[0]) / ((LD)X[1] - X[0]); r.y = Y[0] + sl * ((LD)t - X[0]); r.dy = sl; r.ay = fabsl(Y[0]) + fabsl(Y[1]); r.ay *= 4; r.ady = 4 * (fabsl(Y[0]) + fabsl(Y[1])) / fabsl((LD)X[1] - X[0]); return r; }; auto interp = [&](const Win& y, int c) { vector<double> X = sub(k, y.a, y.b), Y = col(tb, k, y.a, y.b, c); return lin ? line(X, Y) : lagrange(X, Y, t); };
         if (e.exact)
         {
            const Row& r = tb.at(t); REQ_EQ(B, r.v[0], "bias at an epoch of the table"); if (hd) { REQUIRE(okR && okD, "an epoch of a table with drift"); REQUIRE(rec.bias == r.v[0] && rec.drift == r.v[1] && rec.sig_bias == r.s[0] && rec.sig_drift == r.s[1] && rec.accel == r.v[2] && D == r.v[1], "the record at an epoch of the table"); continue; }
            if (w.ok) REQUIRE(okR && okD, "an epoch inside the table"); if (okR) { int idx = std::lower_bound(k.begin(), k.end(), t) - k.begin(); vector<Win> ws = exactWindows(k, idx, nh); REQUIRE(ws.size(), "no window"); REQ_NEAR(rec.bias, r.v[0], 1e-11 * scale * 300, "bias at an epoch"); REQ_EQ(rec.sig_bias, r.s[0], "sigma at an epoch"); bool fit = false, fit2 = !okD; for (auto& y : ws) { Lag d = interp(y, 0); if (fabsl(rec.drift - d.dy) <= 2e-11L * d.ady) fit = true; if (okD && fabsl(D - d.dy) <= 2e-11L * d.ady) fit2 = true; } REQUIRE(fit && fit2, "drift at an epoch " << rec.drift << " " << D); } continue;
         }
         REQUIRE(okR == w.ok && okD == w.ok, "refusal: getValue " << !okR << " getClockDrift " << !okD << ", expected reason: " << why(w)); if (!w.ok) continue; Lag b = interp(w, 0); close(rec.bias, b.y, b.ay, "bias"); close(B, b.y, b.ay, "getClockBias"); REQ_NEAR(rec.sig_bias, rss(tb.at(k[w.a + nh - 1]).s[0], tb.at(k[w.a + nh]).s[0]), 1e-12 * scale, "sigma of bias");
         if (hd) { Lag d = interp(w, 1); close(rec.drift, d.y, d.ay, "drift"); close(D, d.y, d.ay, "getClockDrift"); if (!ha) close(rec.accel, d.dy, d.ady, "acceleration from drifts"); } else { close(rec.drift, b.dy, b.ady, "drift from biases"); close(D, b.dy, b.ady, "getClockDrift from biases"); } if (ha) { Lag a = interp(w, 2); close(rec.accel, a.y, a.ay, "acceleration"); }
      }
      if (round + 1 < rounds) editBoth(g, s, m, dt);
   }
}

   // the window that is not centered near the ends of the table
PROP(noncentered, 9000, 250000, "a window that had to be shifted")
{
   PositionSatStore s; SatID x(3, SatelliteSystem::GPS); double dt; int n = g.range(1, 30), nh = g.range(1, 8); vector<double> k = genTimes(g, n, dt); for (auto t : k) s.addPositionData(x, at(t), Triple(1, 2, t)); Limits l = genLimits(g, dt, nh); setLimits(s, l); double t = genQuery(g, k, dt); bool er = g.flag(); g << "n " << n << " nhalf " << nh << " at " << t << " exactReturn " << er << " gap " << (l.gap ? l.gapInt : 0) << " len " << (l.len ? l.lenMax : 0); for (auto y : k) g << " " << y;
   PositionSatStore::DataTable::const_iterator a, b; bool ok = true, r = false; try { r = s.getNonCenteredTableInterval(x, at(t), nh, a, b, er); } catch (InvalidRequest&) { ok = false; } int lb = std::lower_bound(k.begin(), k.end(), t) - k.begin(); bool exact = lb < n && k[lb] == t; if (exact && er) { REQUIRE(ok && r && sec(a->first) == t, "an epoch of the table"); return; }
   bool want = lb < n && n >= 2 * nh; if (want && !exact && l.gap && (lb ? k[lb] - k[lb - 1] : k[0] - t) > l.gapInt) want = false; int first = 0; if (want) { first = std::min(std::max(lb - nh, 0), n - 2 * nh); g.nontrivial(first != lb - nh); if (l.len && k[first + 2 * nh - 1] - k[first] > l.lenMax) want = false; } REQUIRE(ok == want, "refusal " << !ok); if (ok) { REQ_EQ(r, exact, "exact match"); REQUIRE(sec(a->first) == k[first] && sec(b->first) == k[first + 2 * nh - 1], "window from " << sec(a->first) << " to " << sec(b->first) << ", wanted " << k[first] << " to " << k[first + 2 * nh - 1]); }
      // and the centered window as such
   ok = true; try { r = s.getTableInterval(x, at(t), nh, a, b, er); } catch (InvalidRequest&) { ok = false; } Win w = window(k, t, nh, er, l); if (!exact) { REQUIRE(ok == w.ok, "getTableInterval refuses " << !ok << ", expected reason " << why(w)); if (ok) REQUIRE(!r && sec(a->first) == k[w.a] && sec(b->first) == k[w.b], "centered window from " << sec(a->first) << " to " << sec(b->first)); }
}

PROP(sp3files, 700, 15000, "a record that is rejected and one that is kept")
{
      // an SP3 file written here, by the format description
   bool vel = g.oneIn(3); char ver = g.pick(vector<char>{'c', 'd'}); double dt = g.pick(vector<double>{900, 300, 60}); int ne = g.range(12, 25), ns = g.range(1, 3); bool rbp = g.flag(), rbc = g.flag(), rpp = g.flag(), rpc = g.flag(); SP3EphemerisStore s; s.rejectBadPositions(rbp); s.rejectBadClocks(rbc); s.rejectPredPositions(rpp); s.rejectPredClocks(rpc); g << "SP3" << ver << (vel ? " V" : " P") << " dt " << dt << " epochs " << ne << " flags " << rbp << rbc << rpp << rpc << ";"; string dir = pbt::scratch(), fn = dir + "/t.sp3"; vector<SatID> sats; for (int k = 0; k < ns; k++) sats.push_back(SatID(k + 1 + 3 * k, k == 2 ? SatelliteSystem::Galileo : SatelliteSystem::GPS)); map<SatID, Table> pos, clk; int rej = 0, kept = 0; double w = 1.4e-4;
   {
      std::ofstream f(fn); GPSWeekSecond ws(base()); CivilTime c0(base()); f << "#" << ver << (vel ? "V" : "P") << CivilTime(base()).printf("%4Y %2m %2d %2H %2M %11.8f"); char buf[200]; std::snprintf(buf, sizeof buf, " %7d ORBIT IGS14 FIT  IGS", ne); f << buf << "\n"; std::snprintf(buf, sizeof buf, "## %4d %15.8f %14.8f %5d %15.13f", ws.week, ws.sow, dt, (int)static_cast<MJD>(base()).mjd, 0.0); f << buf << "\n"; std::snprintf(buf, sizeof buf, ver == 'd' ? "+  %3d   " : "+   %2d   ", ns); string l = buf; for (int k = 0; k < 17; k++) { std::snprintf(buf, sizeof buf, k < ns ? "%c%02d" : "  0", k < ns ? (sats[k].system == SatelliteSystem::GPS ? 'G' : 'E') : ' ', k < ns ? sats[k].id : 0); l += buf; } f << l << "\n"; for (int r = 0; r < 4; r++) { f << "+        "; for (int k = 0; k < 17; k++) f << "  0"; f << "\n"; } for (int r = 0; r < 5; r++) { f << "++       "; for (int k = 0; k < 17; k++) f << "  0"; f << "\n"; }
      f << "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n/* one\n/* two\n/* three\n/* four\n";
      for (int e = 0; e < ne; e++)
      {
         f << CivilTime(at(e * dt)).printf("*  %4Y %2m %2d %2H %2M %11.8f") << "\n";
         for (auto& x : sats)
         {
            Row r; double u = w * e * dt + x.id; bool badP = g.oneIn(15), badC = g.oneIn(15), pp = g.oneIn(15), pc = g.oneIn(15); int sg[4], sv[4]; for (int k = 0; k < 4; k++) { sg[k] = g.range(0, 20); sv[k] = g.range(0, 20); } for (int k = 0; k < 3; k++) { r.v[k] = std::round(26000e6 * std::cos(u + 2.1 * k)) / 1e6; r.v[3 + k] = std::round(-26000e10 * w * std::sin(u + 2.1 * k)) / 1e6; r.s[k] = std::pow(1.25, sg[k]); r.s[3 + k] = std::pow(1.25, sv[k]); } if (badP) r.v[0] = r.v[1] = r.v[2] = 0; Row c; c.v[0] = badC ? 999999.999999 : std::round((100 + 0.01 * e) * 1e6) / 1e6; c.v[1] = std::round(0.5 * e * 1e6) / 1e6 * 1e-4; c.s[0] = std::pow(1.025, sg[3]) * 1e-6; c.s[1] = std::pow(1.025, sv[3]) * 1e-10;
            std::snprintf(buf, sizeof buf, "P%c%02d%14.6f%14.6f%14.6f%14.6f %2d %2d %2d %3d %c%c  %c%c\n", x.system == SatelliteSystem::GPS ? 'G' : 'E', x.id, r.v[0], r.v[1], r.v[2], c.v[0], sg[0], sg[1], sg[2], sg[3], ' ', pc ? 'P' : ' ', ' ', pp ? 'P' : ' '); f << buf; if (vel) { std::snprintf(buf, sizeof buf, "V%c%02d%14.6f%14.6f%14.6f%14.6f %2d %2d %2d %3d       \n", x.system == SatelliteSystem::GPS ? 'G' : 'E', x.id, r.v[3], r.v[4], r.v[5], c.v[1] * 1e4, sv[0], sv[1], sv[2], sv[3]); f << buf; } g << (badP ? "0" : "p") << (badC ? "9" : "c") << (pp ? "P" : "-") << (pc ? "P " : "- ");
            if ((badP && rbp) || (badC && rbc)) { rej++; continue; } if (!(pp && rpp)) { pos[x][e * dt] = r; kept++; } if (!(pc && rpc)) clk[x][e * dt] = c;
         }
      }
      f << "EOF\n";
   }
   g.nontrivial(rej && kept); s.loadFile(fn); REQ_EQ(s.nfiles(), 1, "files"); REQUIRE(s.getTimeSystem() == TimeSystem::GPS, "time system"); REQ_EQ(s.hasVelocity(), vel && kept > 0, "velocity"); int np = 0, nc = 0; vector<SatID> both; std::sort(sats.begin(), sats.end()); for (auto& x : sats) { np += pos[x].size(); nc += clk[x].size(); REQ_EQ(s.ndataPosition(x), (int)pos[x].size(), "position records of a satellite"); REQ_EQ(s.ndataClock(x), (int)clk[x].size(), "clock records of a satellite"); if (pos[x].size() && clk[x].size()) both.push_back(x); if (pos[x].size()) REQUIRE(sec(s.getPositionInitialTime(x)) == pos[x].begin()->first && sec(s.getPositionFinalTime(x)) == pos[x].rbegin()->first && sec(s.getInitialTime(x)) == pos[x].begin()->first, "time limits"); } REQ_EQ(s.ndata(), np, "records"); REQ_EQ(s.ndataClock(), nc, "clock records"); REQUIRE(s.getSatList() == both, "satellites"); auto is = s.getIndexSet(); REQUIRE(vector<SatID>(is.begin(), is.end()) == both, "index set");
   bool wholeRecord = !rpp && !rpc; (void)wholeRecord; Limits none{false, 0, false, 0};
   for (int q = 0; q < 6; q++)
   {
      SatID x = g.pick(sats); vector<double> kp = keys(pos[x]), kc = keys(clk[x]); double t = genQuery(g, kp, dt); g << " at " << x.id << " " << t << ";"; Win wp = window(kp, t, 5, vel, none), wc = window(kc, t, 5, vel, none); if (!vel && (wp.exact || wc.exact)) continue; bool ok = true; Xvt v; try { v = s.getXvt(x, at(t)); } catch (InvalidRequest&) { ok = false; } REQUIRE(ok == (wp.ok && wc.ok), "getXvt refuses " << !ok); Xvt c = s.computeXvt(x, at(t)); REQ_EQ(c.health == Xvt::Unavailable, !ok, "computeXvt"); Triple P, V; bool okp = true; try { P = s.getPosition(x, at(t)); V = s.getVelocity(x, at(t)); } catch (InvalidRequest&) { okp = false; } REQ_EQ(okp, wp.ok, "getPosition"); if (!ok) continue;
      auto val = [&](const Table& tb, const vector<double>& k, const Win& y, int cc) { if (y.exact) { Lag r{tb.at(t).v[cc], 0, fabsl(tb.at(t).v[cc]), 0}; return r; } return lagrange(sub(k, y.a, y.b), col(tb, k, y.a, y.b, cc), t); }; LD rel = 0;
      for (int i = 0; i < 3; i++) { Lag p = val(pos[x], kp, wp, i); close(v.x[i], 1000 * p.y, 1000 * p.ay, "position in m"); close(P[i], 1000 * p.y, 1000 * p.ay, "getPosition"); close(c.x[i], 1000 * p.y, 1000 * p.ay, "computeXvt position"); LD vv; if (vel) { Lag y = val(pos[x], kp, wp, 3 + i); vv = y.y / 10; close(v.v[i], vv, y.ay, "velocity in m/s"); close(V[i], vv, y.ay, "getVelocity"); } else { vv = p.dy * 1000; close(v.v[i], vv, p.ady * 1000, "velocity from positions"); } rel += 1000 * p.y * vv; }
      Lag b = val(clk[x], kc, wc, 0); close(v.clkbias, b.y * 1e-6L, b.ay * 1e-6L, "clock bias in s"); if (vel) { Lag d = val(clk[x], kc, wc, 1); close(v.clkdrift, d.y * 1e-6L, d.ay * 1e-6L + 1e-18L, "clock drift"); } else close(v.clkdrift, b.dy * 1e-6L, b.ady * 1e-6L, "clock drift from biases"); REQ_NEAR(v.relcorr, (double)(-2 * rel / (299792458.0L * 299792458.0L)), 1e-14, "relativity");
   }
   double a = dt * 3, z = dt * (ne - 3); s.edit(at(a), at(z)); int left = 0; for (auto& x : pos) for (auto& r : x.second) if (r.first >= a && r.first <= z) left++; REQ_EQ(s.ndata(), left, "records left by edit"); s.clear(); REQ_EQ(s.ndata() + s.ndataClock(), 0, "cleared"); std::remove(fn.c_str());
}
PBT_MAIN
