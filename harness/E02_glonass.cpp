// E02: GLONASS ephemerides against an integration of the ICD equations in the rotating frame, and the store against a scan.
#include "gp.hpp"
#include "GloEphemeris.hpp"
#include "GloEphemerisStore.hpp"
#include "Rinex3NavData.hpp"
#include "CivilTime.hpp"
using namespace gpstk; using pbt::G; using pbt::strf; using std::string; using std::vector; using std::map;
typedef long double LD;

struct St { LD s[6]; }; // km, km/s in PZ-90
   // ICD (5.1, appendix A.3.1.2): equations of motion in the rotating frame, lunisolar acceleration constant in it
static St deriv(const St& y, const double* a)
{
   const LD mu = 398600.4418L, ae = 6378.136L, we = 7.292115e-5L, J2 = 1.08262575e-3L; LD x = y.s[0], yy = y.s[1], z = y.s[2], r2 = x * x + yy * yy + z * z, r = sqrtl(r2), m3 = mu / (r2 * r), k = 1.5L * J2 * mu * ae * ae / (r2 * r2 * r), q = 5 * z * z / r2; St d; for (int i = 0; i < 3; i++) d.s[i] = y.s[3 + i];
   d.s[3] = -m3 * x - k * x * (1 - q) + we * we * x + 2 * we * y.s[4] + a[0]; d.s[4] = -m3 * yy - k * yy * (1 - q) + we * we * yy - 2 * we * y.s[3] + a[1]; d.s[5] = -m3 * z - k * z * (3 - q) + a[2]; return d;
}
static St add(const St& a, LD h, const St& b) { St r; for (int i = 0; i < 6; i++) r.s[i] = a.s[i] + h * b.s[i]; return r; }
static St integrate(St y, const double* a, double dt) { int n = std::max(1, (int)std::ceil(std::fabs(dt) / 15)); LD h = (LD)dt / n; for (int k = 0; k < n; k++) { St k1 = deriv(y, a), k2 = deriv(add(y, h / 2, k1), a), k3 = deriv(add(y, h / 2, k2), a), k4 = deriv(add(y, h, k3), a); for (int i = 0; i < 6; i++) y.s[i] += h / 6 * (k1.s[i] + 2 * k2.s[i] + 2 * k3.s[i] + k4.s[i]); } return y; }
struct Glo { double p[3], v[3], a[3], tau, gam; St st() const { St s; for (int i = 0; i < 3; i++) { s.s[i] = p[i]; s.s[3 + i] = v[i]; } return s; } };
static Glo gen(G& g)
{
      // a near circular orbit of 19100 km height in inertial space, expressed in the rotating frame
   const double we = 7.292115e-5; double r = g.real(25300, 25700), vc = std::sqrt(398600.4418 / r) * g.real(0.98, 1.02), u = g.real(0, 2 * M_PI), inc = g.oneIn(10) ? g.pick(vector<double>{0, M_PI / 2}) : g.real(1.05, 1.2), om = g.real(0, 2 * M_PI), th = g.oneIn(5) ? g.real(-0.05, 0.05) : 0; Glo o; double cu = cos(u), su = sin(u), cv = cos(u + th), sv = sin(u + th), ci = cos(inc), si = sin(inc), co = cos(om), so = sin(om);
   double P[3] = {r * (cu * co - su * ci * so), r * (cu * so + su * ci * co), r * su * si}, V[3] = {vc * (-sv * co - cv * ci * so), vc * (-sv * so + cv * ci * co), vc * cv * si}; V[0] += we * P[1]; V[1] -= we * P[0];
   auto rnd = [](double x, double q) { return std::floor(x / q + 0.5) * q; }; for (int i = 0; i < 3; i++) { o.p[i] = rnd(P[i], std::ldexp(1.0, -11)); o.v[i] = rnd(V[i], std::ldexp(1.0, -20)); o.a[i] = g.oneIn(6) ? 0 : std::ldexp((double)g.range(-15, 15), -30); } o.tau = std::ldexp((double)g.range(-(1 << 21), 1 << 21), -30); o.gam = std::ldexp((double)g.range(-1024, 1023), -40); return o;
}
static CommonTime when(G& g) { CivilTime c(g.range(1995, 2040), g.range(1, 12), g.range(1, 28), g.range(0, 23), g.pick(vector<int>{15, 45}), 0.0, TimeSystem::GLO); if (g.oneIn(6)) c = CivilTime(g.range(1995, 2040), g.pick(vector<int>{1, 12}), g.pick(vector<int>{1, 31}), g.pick(vector<int>{0, 23}), 45, 0.0, TimeSystem::GLO); return c.convertToCommonTime(); }
static GloEphemeris make(const Glo& o, const CommonTime& t, double step, int prn = 3, int health = 0) { GloEphemeris e; e.setRecord("R", prn, t, Triple(o.p[0], o.p[1], o.p[2]), Triple(o.v[0], o.v[1], o.v[2]), Triple(o.a[0], o.a[1], o.a[2]), o.tau, o.gam, 3600, health, -4, 1.0, step); return e; }
static double genStep(G& g) { return g.weighted({4, 2, 2}) == 0 ? g.pick(vector<double>{1, 5, 10, 30}) : g.flag() ? g.real(1.5, 30) : 60; }
static double genDt(G& g, double lim) { double x = g.oneIn(4) ? (double)g.range(-900, 899) : g.oneIn(5) ? g.pick(vector<double>{1, -1, 0.5, -0.5, 899.999, -900, 1e-3, -1e-3, 30, -30}) : g.real(-lim, lim); return std::max(-lim, std::min(lim, std::round(x * 1e6) / 1e6)); }

PROP(orbit, 30000, 1000000, "time other than the epoch")
{
   Glo o = gen(g); double step = genStep(g), dt = genDt(g, 900); CommonTime t0 = when(g), t = t0; t.addSeconds(dt); GloEphemeris e = make(o, t0, step); g << "step " << step << " dt " << dt << " pos " << o.p[0] << " " << o.p[1] << " " << o.p[2] << " vel " << o.v[0] << " " << o.v[1] << " " << o.v[2] << " acc " << o.a[0] << " " << o.a[1] << " " << o.a[2]; g.nontrivial(dt != 0);
   Xvt s = e.svXvt(t); St w = integrate(o.st(), o.a, dt); double tp = 1e-4 + 2e-9 * step * std::fabs(dt) * std::fabs(dt), tv = 1e-7 + 4e-9 * step * std::fabs(dt); // the library turns the (1e-9 km/s^2) lunisolar acceleration with the Earth once a step
   for (int k = 0; k < 3; k++) { REQ_NEAR(s.x[k], (double)(1000 * w.s[k]), tp, "position " << k); REQ_NEAR(s.v[k], (double)(1000 * w.s[3 + k]), tv, "velocity " << k); }
   double rel = 0; for (int k = 0; k < 3; k++) rel += (double)(w.s[k] * w.s[3 + k]) * 1e6; rel *= -2 / (299792458.0 * 299792458.0); double tr = 1e-15 + 2 * (2.7e7 * tv + 5e3 * tp) / (299792458.0 * 299792458.0); REQ_NEAR(s.relcorr, rel, tr, "relativity"); REQ_NEAR(s.clkbias, o.tau + o.gam * dt - rel, tr, "clock bias"); REQ_EQ(s.clkdrift, o.gam, "clock drift"); REQUIRE(s.frame == ReferenceFrame::PZ90, "frame");
   REQ_NEAR(e.svClockBias(t), s.clkbias, 1e-18, "svClockBias"); REQ_EQ(e.svClockDrift(t), o.gam, "svClockDrift"); Xvt f = e.svXvtOverrideFit(t); for (int k = 0; k < 3; k++) REQUIRE(f.x[k] == s.x[k] && f.v[k] == s.v[k], "svXvtOverrideFit"); Xvt c = e.svXvt(t0); for (int k = 0; k < 3; k++) { REQ_NEAR(c.x[k], 1000 * o.p[k], 1e-8, "broadcast position"); REQ_NEAR(c.v[k], 1000 * o.v[k], 1e-11, "broadcast velocity"); }
   REQUIRE(e.getEphemerisEpoch() == t0 && e.getEpochTime() == t0 && e.getPRNID() == 3 && e.getSatSys() == "R" && e.getTauN() == o.tau && e.getGammaN() == o.gam && e.getMFtime() == 3600 && e.getHealth() == 0 && e.getfreqNum() == -4 && e.getAgeOfInfo() == 1.0 && e.getIntegrationStep() == step && e.getAcc()[1] == o.a[1], "accessors");
}

PROP(continuity, 8000, 300000, "always")
{
      // velocity is the derivative of position, and going back from the state reached returns to the start
   Glo o = gen(g); double step = genStep(g), dt = genDt(g, 850); CommonTime t0 = when(g), t = t0; t.addSeconds(dt); g << "step " << step << " dt " << dt; GloEphemeris e = make(o, t0, step); g.nontrivial(true); Xvt s = e.svXvtOverrideFit(t), a = e.svXvtOverrideFit(t + 0.5), b = e.svXvtOverrideFit(t - 0.5);
   for (int k = 0; k < 3; k++) REQ_NEAR(a.x[k] - b.x[k], s.v[k], 2e-5 + 1e-7 * step * std::fabs(dt), "difference quotient of position"); Glo r = o; for (int k = 0; k < 3; k++) { r.p[k] = s.x[k] / 1000; r.v[k] = s.v[k] / 1000; } GloEphemeris back = make(r, t, step); Xvt z = back.svXvt(t0); double tp = 4e-3 + 4e-9 * step * dt * dt; for (int k = 0; k < 3; k++) { REQ_NEAR(z.x[k], 1000 * o.p[k], tp, "position after going back"); REQ_NEAR(z.v[k], 1000 * o.v[k], 1e-5 + 1e-8 * step * std::fabs(dt), "velocity after going back"); }
}

PROP(limits, 10000, 200000, "time outside the validity")
{
   Glo o = gen(g); CommonTime t0 = when(g); double step = 60, dt = g.weighted({2, 2}) ? g.pick(vector<double>{-900, 900, -900.001, 899.999, 900.001, -899.999, 901, -901}) : g.real(-2000, 2000); CommonTime t = t0; t.addSeconds(dt); g << "dt " << dt; GloEphemeris e = make(o, t0, step); bool in = t >= t0 - 900.0 && t < t0 + 900.0, thrown = false; g.nontrivial(!in); try { e.svXvt(t); } catch (InvalidRequest&) { thrown = true; } REQ_EQ(thrown, !in, "svXvt refuses"); e.svXvtOverrideFit(t); GloEphemeris none; int th = 0; try { none.getEphemerisEpoch(); } catch (InvalidRequest&) { th++; } try { none.getPRNID(); } catch (InvalidRequest&) { th++; } try { none.svClockBias(t); } catch (InvalidRequest&) { th++; } try { none.svClockDrift(t); } catch (InvalidRequest&) { th++; } REQ_EQ(th, 4, "an ephemeris without data refuses");
}

struct Rec { int slot; Glo o; int health; };
PROP(store, 15000, 500000, "at least four records and a query that succeeds")
{
   CommonTime base = when(g); double step = g.pick(vector<double>{10, 30, 60, 60, 100}); bool flag = g.oneIn(3); GloEphemerisStore s; if (g.flag()) s = GloEphemerisStore(step, flag); else { s.setIntegrationStep(step); s.setCheckHealthFlag(flag); } REQ_EQ(s.getCheckHealthFlag(), flag, "check health flag"); REQ_EQ(s.getIntegrationStep(), step, "integration step"); map<int, map<int, Rec> > m; int n = g.range(1, 30); bool hit = false; size_t most = 0; g << "flag " << flag << ";"; const double grid = 1800; Glo orbit = gen(g);
   for (int k = 0; k < n; k++)
   {
      int op = g.below(12);
      if (op < 9) { int prn = g.range(1, 3), slot = g.range(0, 6), h = g.oneIn(4) ? g.range(1, 4) : 0; Rec r{slot, orbit, h}; r.o.tau = std::ldexp((double)g.range(-1000, 1000), -30); g << " add " << prn << " slot " << slot << " health " << h << ";"; Rinex3NavData d; d.satSys = "R"; d.PRNID = prn; d.sat = RinexSatID(prn, SatelliteSystem::Glonass); d.time = base + grid * slot; d.px = r.o.p[0]; d.py = r.o.p[1]; d.pz = r.o.p[2]; d.vx = r.o.v[0]; d.vy = r.o.v[1]; d.vz = r.o.v[2]; d.ax = r.o.a[0]; d.ay = r.o.a[1]; d.az = r.o.a[2]; d.TauN = r.o.tau; d.GammaN = r.o.gam; d.MFtime = 3600.0; d.health = h; d.freqNum = 2; d.ageOfInfo = 0.0; bool ok = s.addEphemeris(d), want = !flag || h == 0; REQ_EQ(ok, want, "addEphemeris tells whether the record was added"); if (ok) m[prn][slot] = r; }
      else if (op == 9) { int a = g.range(-1, 4), b = a + g.range(0, 6); double ea = grid * a - g.pick(vector<double>{0, 1}), eb = grid * b + g.pick(vector<double>{0, 1}); g << " edit " << ea << " " << eb << ";"; if (g.flag()) { s.edit(base + ea); eb = 1e300; } else s.edit(base + ea, base + eb); for (auto& x : m) for (auto i = x.second.begin(); i != x.second.end();) if (grid * i->first < ea || grid * i->first > eb) i = x.second.erase(i); else ++i; }
      else if (op == 10 && g.oneIn(4)) { g << " clear;"; s.clear(); m.clear(); }
      for (auto i = m.begin(); i != m.end();) if (i->second.empty()) i = m.erase(i); else ++i;
      size_t total = 0; int lo = 99, hi = -99; for (auto& x : m) { total += x.second.size(); lo = std::min(lo, x.second.begin()->first); hi = std::max(hi, x.second.rbegin()->first); } most = std::max(most, total);
      REQ_EQ(s.size(), (int)m.size(), "size: number of satellites"); std::list<GloEphemeris> l; REQ_EQ(s.addToList(l), (int)total, "addToList"); REQ_EQ(l.size(), total, "addToList"); auto idx = s.getIndexSet(); REQ_EQ(idx.size(), m.size(), "index set"); for (int p = 1; p <= 3; p++) { SatID x(p, SatelliteSystem::Glonass); REQUIRE(s.isPresent(x) == (m.count(p) > 0) && idx.count(x) == m.count(p), "presence of " << p); CommonTime a = s.getInitialTime(x), b = s.getFinalTime(x); if (m.count(p)) REQUIRE(a == base + grid * m[p].begin()->first && b == base + grid * m[p].rbegin()->first, "time limits of " << p); }
      if (total) REQUIRE(s.getInitialTime() == base + grid * lo && s.getFinalTime() == base + grid * hi, "time limits of the store " << s.getInitialTime() << " " << s.getFinalTime()); else { int th = 0; try { s.getInitialTime(); } catch (InvalidRequest&) { th++; } try { s.getFinalTime(); } catch (InvalidRequest&) { th++; } REQ_EQ(th, 2, "time limits of an empty store"); }
      for (int q = 0; q < 2; q++)
      {
         int p = g.range(1, 3); double t = g.flag() ? grid * g.range(-1, 7) + g.pick(vector<double>{0, 900, -900, 899, -899, 1, -1, 450, -901, 901}) : g.real(-1500, 13000); SatID x(p, SatelliteSystem::Glonass); CommonTime e = base + t; const Rec* w = nullptr; for (auto& r : m[p]) if (t >= grid * r.first - 900 && t < grid * r.first + 900) w = &r.second; if (m[p].empty()) m.erase(p); bool edge = false; if (m.count(p)) for (auto& r : m[p]) if (std::fabs(t - grid * r.first) == 900) edge = true; g << " at " << p << " " << t << ";";
         bool thrown = false; Xvt v; try { v = s.getXvt(x, e); } catch (InvalidRequest&) { thrown = true; } if (edge) { if (!thrown) { bool ok = false; for (auto& r : m[p]) if (std::fabs(t - grid * r.first) <= 900) { GloEphemeris ge = make(r.second.o, base + grid * r.first, step, p); if (ge.svXvtOverrideFit(e).clkbias == v.clkbias) ok = true; } REQUIRE(ok, "getXvt half way between two records"); } continue; }
         REQ_EQ(thrown, !w, "getXvt refuses"); Xvt c = s.computeXvt(x, e); Xvt::HealthStatus h = !w ? Xvt::Unavailable : w->health ? Xvt::Unhealthy : Xvt::Healthy; REQUIRE(c.health == h && s.getSVHealth(x, e) == h, "health"); bool fth = false; try { const GloEphemeris& f = s.findEphemeris(x, e); REQUIRE(w && f.getTauN() == w->o.tau && f.getEphemerisEpoch() == base + grid * w->slot, "findEphemeris"); REQUIRE(s.findUserEphemeris(x, e).getTauN() == w->o.tau && s.findNearEphemeris(x, e).getTauN() == w->o.tau, "findUserEphemeris, findNearEphemeris"); } catch (InvalidRequest&) { fth = true; } REQ_EQ(fth, !w, "findEphemeris refuses");
         if (w) { hit = true; Xvt want = make(w->o, base + grid * w->slot, step, p).svXvt(e); for (int i = 0; i < 3; i++) REQUIRE(v.x[i] == want.x[i] && v.v[i] == want.v[i] && c.x[i] == want.x[i], "getXvt is svXvt of the record with the step of the store"); REQUIRE(v.clkbias == want.clkbias && v.clkdrift == want.clkdrift && c.clkbias == want.clkbias, "clock"); CommonTime wrong = e; wrong.setTimeSystem(TimeSystem::GPS); bool th = false; try { s.getXvt(x, wrong); } catch (InvalidRequest&) { th = true; } REQUIRE(th, "getXvt with another time system"); }
      }
   }
   g.nontrivial(most >= 4 && hit);
}
PBT_MAIN
