// E01: broadcast Kepler orbits and clocks against a long double implementation of the interface specifications.
#include "gp.hpp"
#include <memory>
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "OrbElemRinex.hpp"
#include "EngEphemeris.hpp"
#include "AlmOrbit.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector; typedef long double L;
static const L TPI = 6.283185307179586476925286766559L, PIL = TPI / 2;

struct El { L mu, we, A, Adot, dn, dndot, M0, e, w, O0, Od, i0, idot, cuc, cus, crc, crs, cic, cis, toe; bool geo; double af0, af1, af2; int week, toesow, tocdelta; };
static L kepler(L M, L e) { L E = M, lo = M - e - 1e-3L, hi = M + e + 1e-3L; for (int k = 0; k < 200; k++) { L f = E - e * sinl(E) - M; if (f > 0) hi = E; else lo = E; L n = E - f / (1 - e * cosl(E)); if (n <= lo || n >= hi) n = (lo + hi) / 2; if (fabsl(n - E) < 1e-18L * (1 + fabsl(E))) { E = n; break; } E = n; } return E; }
static L anomaly(const El& q, L t) { L n = sqrtl(q.mu / (q.A * q.A * q.A)) + q.dn + q.dndot * t / 2; return kepler(fmodl(q.M0 + n * t, TPI), q.e); }
struct V3 { L x[3]; };
static V3 pos(const El& q, L t)
{
   L E = anomaly(q, t), a = q.A + q.Adot * t, nu = 2 * atanl(sqrtl((1 + q.e) / (1 - q.e)) * tanl(E / 2)); if (fabsl(cosl(E / 2)) < 1e-9L) nu = atan2l(sqrtl(1 - q.e * q.e) * sinl(E), cosl(E) - q.e); L phi = nu + q.w;
   L u = phi + q.cus * sinl(2 * phi) + q.cuc * cosl(2 * phi), r = a * (1 - q.e * cosl(E)) + q.crs * sinl(2 * phi) + q.crc * cosl(2 * phi), i = q.i0 + q.idot * t + q.cis * sinl(2 * phi) + q.cic * cosl(2 * phi);
   L O = q.geo ? q.O0 + q.Od * t - q.we * q.toe : q.O0 + (q.Od - q.we) * t - q.we * q.toe; L X = r * cosl(u), Y = r * sinl(u); V3 p{{X * cosl(O) - Y * cosl(i) * sinl(O), X * sinl(O) + Y * cosl(i) * cosl(O), Y * sinl(i)}};
   if (!q.geo) return p; L f = -5 * PIL / 180, c = cosl(f), s = sinl(f); V3 m{{p.x[0], c * p.x[1] + s * p.x[2], -s * p.x[1] + c * p.x[2]}}; L z = q.we * t; c = cosl(z); s = sinl(z); return V3{{c * m.x[0] + s * m.x[1], -s * m.x[0] + c * m.x[1], m.x[2]}};
}
static V3 vel(const El& q, L t) { L h = 0.5L; V3 a = pos(q, t + h), b = pos(q, t - h), c = pos(q, t + 2 * h), d = pos(q, t - 2 * h), v; for (int k = 0; k < 3; k++) v.x[k] = (8 * (a.x[k] - b.x[k]) - (c.x[k] - d.x[k])) / (12 * h); return v; }

static El elements(G& g, SatelliteSystem sys, bool rates, bool geo)
{
   El q; q.mu = sys == SatelliteSystem::GPS || sys == SatelliteSystem::QZSS ? 3.986005e14L : 3.986004418e14L; q.we = sys == SatelliteSystem::BeiDou ? 7.292115e-5L : 7.2921151467e-5L; q.geo = geo;
   auto ang = [&]() -> L { return g.oneIn(10) ? (L)(g.range(-4, 4) * 0.25 * 3.14159265358979312) : (L)g.real(-3.2, 3.2); }; bool zero = g.oneIn(8); auto harm = [&](double m) -> L { return zero || g.oneIn(6) ? 0 : (L)g.real(-m, m); };
   q.A = geo || sys == SatelliteSystem::QZSS ? g.real(42.0e6, 42.3e6) : sys == SatelliteSystem::Galileo ? g.real(29.4e6, 29.8e6) : sys == SatelliteSystem::BeiDou ? g.real(27.7e6, 42.3e6) : g.oneIn(8) ? g.real(7e6, 45e6) : g.real(26.4e6, 26.7e6); double ra = std::sqrt((double)q.A); q.A = (L)(ra * ra);
   q.e = g.oneIn(5) ? 0.0 : g.oneIn(4) ? g.real(0, 0.3) : std::fabs(g.logReal(-6, -1.3)); q.M0 = ang(); q.w = ang(); q.O0 = ang(); q.i0 = geo ? g.real(0.0, 0.12) : g.oneIn(6) ? g.real(0.14, 3.0) : g.real(0.8, 1.1); q.dn = harm(8e-9); q.Od = harm(2e-8); q.idot = harm(1e-9); q.cuc = harm(1e-5); q.cus = harm(1e-5); q.crc = harm(400); q.crs = harm(400); q.cic = harm(1e-6); q.cis = harm(1e-6); q.Adot = rates ? harm(0.02) : 0; q.dndot = rates ? harm(1e-15) : 0;
   q.af0 = g.oneIn(6) ? 0 : g.real(-1e-3, 1e-3); q.af1 = g.oneIn(6) ? 0 : g.real(-1e-9, 1e-9); q.af2 = g.oneIn(3) ? 0 : g.real(-1e-16, 1e-16) * (g.flag() ? 1 : 100); q.week = g.range(1350, 2800); q.toesow = g.oneIn(4) ? g.pick(vector<int>{0, 7200, 597600, 601200, 604784, 16}) : g.flag() ? 7200 * g.range(0, 83) : 16 * g.range(0, 37799); q.tocdelta = g.oneIn(3) ? 0 : g.pick(vector<int>{-7200, -16, 16, 3600, 7200}); q.toe = q.toesow;
   g << "A " << (double)q.A << " e " << (double)q.e << " i0 " << (double)q.i0 << " M0 " << (double)q.M0 << " w " << (double)q.w << " O0 " << (double)q.O0 << " week " << q.week << " toe " << q.toesow; return q;
}
template <class E> static void fill(E& o, const El& q, const CommonTime& toe, const SatID& s) { o.dataLoadedFlag = true; o.satID = s; o.ctToe = toe; o.ctToc = toe + q.tocdelta; o.af0 = q.af0; o.af1 = q.af1; o.af2 = q.af2; o.M0 = q.M0; o.dn = q.dn; o.dndot = q.dndot; o.ecc = q.e; o.A = q.A; o.Adot = q.Adot; o.OMEGA0 = q.O0; o.i0 = q.i0; o.w = q.w; o.OMEGAdot = q.Od; o.idot = q.idot; o.Cuc = q.cuc; o.Cus = q.cus; o.Crc = q.crc; o.Crs = q.crs; o.Cic = q.cic; o.Cis = q.cis; }
static CommonTime epoch(SatelliteSystem s, int week, double sow) { switch (s) { case SatelliteSystem::Galileo: return CommonTime(GPSWeekSecond(week, sow, TimeSystem::GAL)); case SatelliteSystem::BeiDou: return CommonTime(BDSWeekSecond(week - 1356 < 0 ? week : week - 1356, sow, TimeSystem::BDT)); case SatelliteSystem::QZSS: return CommonTime(GPSWeekSecond(week, sow, TimeSystem::QZS)); default: return CommonTime(GPSWeekSecond(week, sow, TimeSystem::GPS)); } }
static void checkOrbit(const Xvt& x, const El& q, double dt, const char* what, bool v = true)
{
   V3 p = pos(q, dt); for (int k = 0; k < 3; k++) REQ_NEAR((double)(x.x[k] - p.x[k]), 0.0, 1e-4, what << " position " << k << " at " << dt << " s, wanted " << (double)p.x[k]);
   if (!v) return; V3 w = vel(q, dt); double tol = 2e-6 + (double)fabsl(q.dndot * dt * q.A) * 2; for (int k = 0; k < 3; k++) REQ_NEAR((double)(x.v[k] - w.x[k]), 0.0, tol, what << " velocity " << k << " at " << dt << " s, wanted " << (double)w.x[k]);
}
static double biasRef(const El& q, L dc) { return (double)(q.af0 + q.af1 * dc + q.af2 * dc * dc); }
static double driftRef(const El& q, L dc) { return (double)(q.af1 + 2 * q.af2 * dc); }
static void checkClock(const El& q, double dt, double bias, double drift, double rel, const char* what)
{
   L dc = (L)dt - q.tocdelta; REQ_NEAR(bias - biasRef(q, dc), 0.0, 1e-18 + 1e-15 * std::fabs(q.af0) + 1e-15 * std::fabs(q.af1) * (std::fabs(dt) + 1e5), what << " clock bias, wanted " << biasRef(q, dc)); REQ_NEAR(drift - driftRef(q, dc), 0.0, 1e-15 * std::fabs(q.af1) + 1e-14 * std::fabs(q.af2) * (std::fabs(dt) + 1e5) + 1e-28, what << " clock drift, wanted " << driftRef(q, dc));
   L s = q.e * sqrtl(q.A + q.Adot * dt), want = -2 * sqrtl(q.mu) / (299792458.0L * 299792458.0L) * s * sinl(anomaly(q, dt)); REQ_NEAR(rel - (double)want, 0.0, 1e-22 + 4.5e-10 * (double)s * 3e-7 + 4.5e-10 * (double)s * (double)fabsl(q.dndot) * dt * dt + 1e-9 * 4.5e-10 * (double)s + 4.5e-10 * (double)(s * fabsl(q.Adot * dt) / q.A), what << " relativity, wanted " << (double)want);
}
static double dtGen(G& g) { switch (g.below(6)) { case 0: return 0; case 1: return g.real(-7200, 7200); case 2: return g.range(-7200, 7200); case 3: return g.real(-100000, 100000); case 4: return g.range(-604800, 604800); default: return g.range(-14400, 14400); } }

PROP(orbiteph, 40000, 1000000, "eccentricity above 0 and a time that is not the epoch")
{
   SatelliteSystem sys = g.pick(vector<SatelliteSystem>{SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::BeiDou, SatelliteSystem::QZSS}); bool geo = sys == SatelliteSystem::BeiDou && g.flag(); bool rates = g.flag() && !geo; El q = elements(g, sys, rates, geo); SatID sat(sys == SatelliteSystem::QZSS ? g.range(193, 199) : g.range(1, 30), sys); CommonTime toe = epoch(sys, q.week, q.toesow); double dt = dtGen(g); CommonTime t = toe; t.addSeconds(dt); g << " system " << (int)sys << " dt " << dt; g.nontrivial(q.e > 0 && dt != 0);
   std::unique_ptr<OrbitEph> p; if (!geo && g.oneIn(4)) p.reset(new OrbitEph()); else if (sys == SatelliteSystem::GPS) p.reset(new GPSEphemeris()); else if (sys == SatelliteSystem::Galileo) p.reset(new GalEphemeris()); else if (sys == SatelliteSystem::BeiDou) p.reset(new BDSEphemeris()); else p.reset(new QZSEphemeris());
   bool thrown = false; try { p->svXvt(t); } catch (InvalidRequest&) { thrown = true; } REQUIRE(thrown, "svXvt of an empty ephemeris is refused"); fill(*p, q, toe, sat); const char* nm = geo ? "BDS GEO" : "OrbitEph"; std::unique_ptr<OrbitEph> c(p->clone()); Xvt x = c->svXvt(t); checkOrbit(x, q, dt, nm); checkClock(q, dt, p->svClockBias(t), p->svClockDrift(t), p->svRelativity(t), nm); REQUIRE(x.clkbias == p->svClockBias(t) && x.clkdrift == p->svClockDrift(t) && x.relcorr == p->svRelativity(t), "clock of svXvt");
}
PROP(orbelem, 30000, 700000, "eccentricity above 0 and a time that is not the epoch")
{
   SatelliteSystem sys = g.pick(vector<SatelliteSystem>{SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS}); El q = elements(g, sys, g.flag(), false); CommonTime toe = epoch(sys, q.week, q.toesow); double dt = dtGen(g); CommonTime t = toe; t.addSeconds(dt); g << " system " << (int)sys << " dt " << dt; g.nontrivial(q.e > 0 && dt != 0); OrbElemRinex o; o.dataLoadedFlag = false; bool thrown = false; try { o.svXvt(t); } catch (InvalidRequest&) { thrown = true; } REQUIRE(thrown, "svXvt of empty elements is refused"); fill(o, q, toe, SatID(3, sys)); o.setHealthy(g.flag()); std::unique_ptr<OrbElem> c(o.clone()); Xvt x = c->svXvt(t); checkOrbit(x, q, dt, "OrbElem"); checkClock(q, dt, o.svClockBias(t), o.svClockDrift(t), o.svRelativity(t), "OrbElem"); REQUIRE(x.clkbias == o.svClockBias(t) && x.clkdrift == o.svClockDrift(t) && x.relcorr == o.svRelativity(t), "clock of svXvt"); REQ_NEAR(o.svClockBiasM(t), o.svClockBias(t) * 299792458.0, 1e-9, "bias in metres"); REQUIRE((x.health == Xvt::Healthy) == o.isHealthy(), "health of svXvt");
   double b = g.real(-7200, 7200), e = g.real(-7200, 7200); o.beginValid = toe + b; o.endValid = toe + e; REQ_EQ(o.isValid(t), t >= o.beginValid && t <= o.endValid, "isValid"); REQUIRE(o.isValid(o.beginValid) == (b <= e) && (b > e || o.isValid(o.endValid)), "isValid at the ends");
   REQUIRE(o.isSameData(c.get()) == (c->beginValid == o.beginValid && c->endValid == o.endValid) || o.isSameData(c.get()), "isSameData"); vector<double*> f{&o.Cuc, &o.Cus, &o.Crc, &o.Crs, &o.Cic, &o.Cis, &o.M0, &o.dn, &o.dndot, &o.ecc, &o.A, &o.Adot, &o.OMEGA0, &o.i0, &o.w, &o.OMEGAdot, &o.idot, &o.af0, &o.af1, &o.af2}; std::unique_ptr<OrbElem> d(o.clone()); REQUIRE(o.isSameData(d.get()) && o.compare(d.get()).empty(), "a copy has the same data"); int k = g.below(f.size()); *f[k] += 1; REQUIRE(!o.isSameData(d.get()), "changed field " << k); REQ_EQ(o.compare(d.get()).size(), (size_t)1, "compare");
}
static void loadOrbit(BrcKeplerOrbit& o, const El& q, const CommonTime& toe, const CommonTime& b, const CommonTime& e, bool healthy) { o.loadData("G", ObsID(), 5, b, e, toe, 2, healthy, q.cuc, q.cus, q.crc, q.crs, q.cic, q.cis, q.M0, q.dn, q.dndot, q.e, q.A, std::sqrt((double)q.A), q.Adot, q.O0, q.i0, q.w, q.Od, q.idot); }
PROP(kepler, 30000, 700000, "eccentricity above 0 and a time that is not the epoch")
{
   El q = elements(g, SatelliteSystem::GPS, g.flag(), false); CommonTime toe = epoch(SatelliteSystem::GPS, q.week, q.toesow); double dt = dtGen(g); CommonTime t = toe; t.addSeconds(dt); g << " dt " << dt; g.nontrivial(q.e > 0 && dt != 0); BrcKeplerOrbit o; bool healthy = g.flag(); double b = g.real(-9000, 0), e = g.real(0, 9000); loadOrbit(o, q, toe, toe + b, toe + e, healthy); Xvt x = o.svXvt(t); checkOrbit(x, q, dt, "BrcKeplerOrbit"); BrcClockCorrection c; c.loadData("G", ObsID(), 5, toe + q.tocdelta, 2, healthy, q.af0, q.af1, q.af2); checkClock(q, dt, c.svClockBias(t), c.svClockDrift(t), o.svRelativity(t), "BrcKeplerOrbit"); REQ_NEAR(c.svClockBiasM(t), c.svClockBias(t) * 299792458.0, 1e-9, "bias in metres"); REQUIRE(x.relcorr == o.svRelativity(t), "relativity of svXvt"); REQ_EQ(o.withinFitInterval(t), t >= toe + b && t <= toe + e, "withinFitInterval"); REQUIRE((x.health == Xvt::Healthy) == healthy && o.isHealthy() == healthy, "health");
   REQUIRE(o.getOrbitEpoch() == toe && o.getBeginningOfFitInterval() == toe + b && o.getEndOfFitInterval() == toe + e && c.getEpochTime() == toe + q.tocdelta, "times"); REQ_EQ((double)o.getToe(), (double)q.toesow, "getToe"); REQ_EQ((int)o.getFullWeek(), q.week, "getFullWeek"); REQUIRE(o.getCuc() == (double)q.cuc && o.getCus() == (double)q.cus && o.getCrc() == (double)q.crc && o.getCrs() == (double)q.crs && o.getCic() == (double)q.cic && o.getCis() == (double)q.cis && o.getM0() == (double)q.M0 && o.getDn() == (double)q.dn && o.getEcc() == (double)q.e && o.getA() == (double)q.A && o.getAdot() == (double)q.Adot && o.getDnDot() == (double)q.dndot && o.getOmega0() == (double)q.O0 && o.getI0() == (double)q.i0 && o.getW() == (double)q.w && o.getOmegaDot() == (double)q.Od && o.getIDot() == (double)q.idot, "elements"); REQUIRE(c.getAf0() == q.af0 && c.getAf1() == q.af1 && c.getAf2() == q.af2, "clock coefficients");
}
   // fit interval in hours, IS-GPS-200 table 20-XII
static int fitHours(int iodc, int flag) { if (!flag) return 4; if (iodc >= 240 && iodc <= 247) return 8; if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14; if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26; if (iodc >= 504 && iodc <= 510) return 50; if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74; if (iodc >= 757 && iodc <= 763) return 98; if ((iodc >= 764 && iodc <= 767) || (iodc >= 1008 && iodc <= 1010)) return 122; if (iodc >= 1011 && iodc <= 1020) return 146; return 6; }
static int iodcGen(G& g) { return g.flag() ? g.range(0, 1023) : g.pick(vector<int>{239, 240, 247, 248, 255, 256, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 763, 764, 767, 768, 1007, 1008, 1010, 1011, 1020, 1021, 1023}); }
static bool fitDefined(int iodc, int flag) { return (iodc & 0xff) < 240 || (flag && fitHours(iodc, 1) != 6); }
PROP(engephemeris, 30000, 700000, "eccentricity above 0 and a time that is not the epoch")
{
   El q = elements(g, SatelliteSystem::GPS, false, false); double dt = dtGen(g); int iodc = iodcGen(g), fit = g.below(2); if (!fitDefined(iodc, fit)) { iodc = 5; } int toc = ((q.toesow + q.tocdelta) % 604800 + 604800) % 604800; bool split = g.flag(); int xmitBack = split ? g.range(0, 7200) : 0; // transmission before Toe
   CommonTime toe = epoch(SatelliteSystem::GPS, q.week, q.toesow); if (!split && toc != q.toesow + q.tocdelta) { toc = q.toesow; q.tocdelta = 0; } CommonTime t = toe; t.addSeconds(dt); g << " dt " << dt << " iodc " << iodc << " fit " << fit << " split " << split << " sent " << xmitBack << " before"; g.nontrivial(q.e > 0 && dt != 0);
   int xs = q.toesow - xmitBack, xw = q.week; if (xs < 0) { xs += 604800; xw--; } xs -= xs % 6; double ah = std::sqrt((double)q.A); EngEphemeris e; unsigned short tlm[3] = {1, 2, 3}; long how[3] = {xs, xs + 6, xs + 12}; if (xs + 12 >= 604800) { how[0] = how[1] = how[2] = xs; } short as[3] = {0, 0, 0}; short health = g.flag() ? 0 : g.range(1, 63);
   if (!split) e.loadData("G", tlm, how, as, 1, 7, q.week, 1, 2, health, iodc, 0, 900, -1e-8, toc, q.af2, q.af1, q.af0, iodc & 255, q.crs, q.dn, q.M0, q.cuc, q.e, q.cus, ah, q.toesow, fit, q.cic, q.O0, q.cis, q.i0, q.crc, q.w, q.Od, q.idot);
   else { e.setSF1(1, how[0], 0, xw, 1, 2, health, iodc, 0, -1e-8, toc, q.af2, q.af1, q.af0, 1, 7); e.setSF2(2, how[1], 0, iodc & 255, q.crs, q.dn, q.M0, q.cuc, q.e, q.cus, ah, q.toesow, fit); e.setSF3(3, how[2], 0, q.cic, q.O0, q.cis, q.i0, q.crc, q.w, q.Od, q.idot); }
   REQUIRE(e.getEphemerisEpoch() == toe, "ephemeris epoch " << e.getEphemerisEpoch() << " wanted " << toe); REQUIRE(e.getEpochTime() == toe + q.tocdelta, "clock epoch " << e.getEpochTime() << " wanted " << toe + q.tocdelta); Xvt x = e.svXvt(t); checkOrbit(x, q, dt, "EngEphemeris"); checkClock(q, dt, e.svClockBias(t), e.svClockDrift(t), e.svRelativity(t), "EngEphemeris"); REQUIRE(x.clkbias == e.svClockBias(t) && x.clkdrift == e.svClockDrift(t) && x.relcorr == e.svRelativity(t), "clock of svXvt");
   int h = fitHours(iodc, fit); REQ_EQ((int)EngEphemeris::getFitInterval(iodc, fit), h, "fit interval"); REQ_EQ((int)e.getFitInterval(), h, "fit interval of the ephemeris"); BrcKeplerOrbit o = e.getOrbit(); REQUIRE(o.getBeginningOfFitInterval() == toe - h * 1800.0 && o.getEndOfFitInterval() == toe + h * 1800.0, "fit interval from " << o.getBeginningOfFitInterval() << " to " << o.getEndOfFitInterval() << " around " << toe << " of hours " << h); REQUIRE(o.withinFitInterval(toe + h * 1800.0) && !o.withinFitInterval(toe + (h * 1800.0 + 1)) && o.withinFitInterval(toe - h * 1800.0) && !o.withinFitInterval(toe - (h * 1800.0 + 1)), "fit interval ends");
   REQUIRE(e.isDataSet(), "isDataSet"); REQUIRE(e.getCuc() == (double)q.cuc && e.getCus() == (double)q.cus && e.getCrc() == (double)q.crc && e.getCrs() == (double)q.crs && e.getCic() == (double)q.cic && e.getCis() == (double)q.cis && e.getM0() == (double)q.M0 && e.getDn() == (double)q.dn && e.getEcc() == (double)q.e && e.getAhalf() == ah && e.getOmega0() == (double)q.O0 && e.getI0() == (double)q.i0 && e.getW() == (double)q.w && e.getOmegaDot() == (double)q.Od && e.getIDot() == (double)q.idot && e.getAf0() == q.af0 && e.getAf1() == q.af1 && e.getAf2() == q.af2, "elements"); REQUIRE(e.getToe() == q.toesow && e.getToc() == toc && e.getIODC() == iodc && e.getIODE() == (iodc & 255) && e.getHealth() == health && e.getPRNID() == 7 && e.getFitInt() == fit && e.getTgd() == -1e-8 && e.getHOWTime(2) == how[1], "other items");
}
PROP(validity, 40000, 800000, "the epoch is within eight hours of the end of a week")
{
   SatelliteSystem sys = g.pick(vector<SatelliteSystem>{SatelliteSystem::GPS, SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS}); El q = elements(g, sys, false, false); CommonTime toe = epoch(sys, q.week, q.toesow), b, e; int back = g.range(0, 9000), iodc = iodcGen(g), flag = g.below(2); CommonTime xmit = toe - (double)(back - back % 6); g << " sent " << back << " iodc " << iodc << " fit " << flag; g.nontrivial(q.toesow < 28800 || q.toesow > 604800 - 28800); std::unique_ptr<OrbitEph> p;
   if (sys == SatelliteSystem::GPS) { GPSEphemeris* x = new GPSEphemeris(); p.reset(x); fill(*x, q, toe, SatID(3, sys)); x->IODC = iodc; x->fitDuration = GPSEphemeris::getFitInterval(iodc, flag); if (fitDefined(iodc, flag)) REQ_EQ((int)x->fitDuration, fitHours(iodc, flag), "GPS fit interval"); GPSWeekSecond xw(xmit); x->HOWtime = (long)xw.sow; x->transmitTime = xmit; x->adjustValidity(); int h = x->fitDuration; int toc = (q.toesow + q.tocdelta + 604800) % 604800; if (toc % 7200) { long hw = x->HOWtime - x->HOWtime % 30; b = CommonTime(GPSWeekSecond(xw.week, hw, TimeSystem::GPS)); } else b = toe + (double)q.tocdelta - h * 1800.0; int r = q.toesow % 3600; e = toe + (double)(r ? 3600 - r : 0) + h * 1800.0; }
   else if (sys == SatelliteSystem::Galileo) { GalEphemeris* x = new GalEphemeris(); p.reset(x); fill(*x, q, toe, SatID(3, sys)); x->transmitTime = xmit; x->adjustValidity(); b = xmit; e = toe + 14400.0; }
   else if (sys == SatelliteSystem::BeiDou) { BDSEphemeris* x = new BDSEphemeris(); p.reset(x); fill(*x, q, toe, SatID(3, sys)); if (g.flag()) xmit = toe + (double)back; x->transmitTime = xmit; x->adjustValidity(); b = xmit > toe ? xmit : toe; e = toe + 604800.0; }
   else { QZSEphemeris* x = new QZSEphemeris(); p.reset(x); fill(*x, q, toe, SatID(193, sys)); x->transmitTime = xmit; x->fitDuration = g.pick(vector<int>{2, 4, 6}); x->adjustValidity(); b = xmit; e = toe + x->fitDuration * 1800.0; }
   REQ_NEAR(p->beginValid - b, 0.0, 1e-6, "begin of validity " << p->beginValid << " wanted " << b); REQ_NEAR(p->endValid - e, 0.0, 1e-6, "end of validity " << p->endValid << " wanted " << e); if (b < e) { REQUIRE(p->isValid(p->beginValid) && p->isValid(p->endValid) && !p->isValid(p->beginValid - 0.01) && !p->isValid(p->endValid + 0.01), "ends of validity"); CommonTime t = b + g.unit() * (e - b); REQUIRE(p->isValid(t), "inside the validity"); }
}
PROP(almanac, 20000, 400000, "eccentricity above 0 and a time that is not the epoch")
{
   El q = elements(g, SatelliteSystem::GPS, false, false); q.dn = q.idot = q.cuc = q.cus = q.crc = q.crs = q.cic = q.cis = 0; q.af2 = 0; q.tocdelta = 0; double off = g.real(-0.1, 0.1); q.i0 = 0.3L * PIL + (L)off; int xm = g.flag() ? g.range(0, 604799) : ((q.toesow - g.range(0, 90000)) % 604800 + 604800) % 604800; short health = g.flag() ? 0 : 3; double ah = std::sqrt((double)q.A); AlmOrbit a(9, q.e, off, q.Od, ah, q.O0, q.w, q.M0, q.af0, q.af1, q.toesow, xm, q.week, health); double dt = dtGen(g); CommonTime t = a.getToaTime(); REQUIRE(t == CommonTime(GPSWeekSecond(q.week, q.toesow, t.getTimeSystem())), "Toa"); t.addSeconds(dt); g << " dt " << dt << " xmit " << xm; g.nontrivial(q.e > 0 && dt != 0); Xvt x = a.svXvt(t); checkOrbit(x, q, dt, "AlmOrbit"); REQ_NEAR(x.clkbias, q.af0 + q.af1 * dt, 1e-15 * std::fabs(q.af0) + 1e-15 * std::fabs(q.af1 * dt) + 1e-20, "almanac clock bias"); REQUIRE((x.health == Xvt::Healthy) == (health == 0), "health");
   int d = q.toesow - xm, week = q.week + (d < -302400 ? -1 : d > 302400 ? 1 : 0); if (std::abs(d) != 302400) { REQ_EQ((int)a.getFullWeek(), week, "week of transmission"); REQUIRE(a.getTransmitTime() == CommonTime(GPSWeekSecond(week, xm, t.getTimeSystem())), "transmit time"); }
}
PBT_MAIN
