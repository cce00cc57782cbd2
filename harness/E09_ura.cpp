// E09: URA, accuracy and fit interval tables against the tables of IS-GPS-200 written down independently here
#include "gp.hpp"
#include "GPS_URA.hpp"
#include "GNSSconstants.hpp"
#include "EngEphemeris.hpp"
#include "GPSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "BrcKeplerOrbit.hpp"
#include "BrcClockCorrection.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector;
static const double BIG = 9.999999999999e99;
   // IS-GPS-200 20.3.3.3.1.3: upper limits of the ranges of the URA index 0..15, and of the signed index -15..15 (30.3.3.1.1.4)
static const double upper[31] = {0.01, 0.02, 0.03, 0.04, 0.06, 0.08, 0.11, 0.15, 0.21, 0.30, 0.43, 0.60, 0.85, 1.20, 1.70, 2.40, 3.40, 4.85, 6.85, 9.65, 13.65, 24, 48, 96, 192, 384, 768, 1536, 3072, 6144, BIG};
static double up(int ura) { return upper[ura + 15]; }
   // nominal values: 2^(1+N/2) for N <= 6 (2.8, 5.7 and 11.3 for N = 1, 3, 5), 2^(N-2) for 6 < N < 15
static double nominal(int n, bool rounded) { if (n == 15) return BIG; if (n > 6) return std::pow(2.0, n - 2); if (rounded) { if (n == 1) return 2.8; if (n == 3) return 5.7; if (n == 5) return 11.3; } return std::pow(2.0, 1 + n / 2.0); }
static int fit(int iodc, int flag)
{
   if (iodc < 0 || iodc > 1023 || flag != 1) return 4; int low = iodc & 255; if (low < 240) return 6; if (iodc >= 240 && iodc <= 247) return 8; if (iodc <= 255 || iodc == 496) return 14; if (iodc <= 503 || iodc >= 1021) return 26; if (iodc <= 510) return 50; if (iodc == 511 || iodc <= 756) return 74; if (iodc <= 763) return 98; if (iodc <= 767 || iodc <= 1010) return 122; return 146;
}
static double genAcc(G& g) { switch (g.below(6)) { case 0: return up(g.range(-15, 14)); case 1: { double u = up(g.range(-15, 14)); return std::nextafter(u, g.flag() ? 0 : 1e9); } case 2: return g.logReal(1e-4, 1e5); case 3: { int n = g.range(0, 14); double v = nominal(n, true); return g.flag() ? v : std::nextafter(v, g.flag() ? 0 : 1e9); } case 4: return g.pick(vector<double>{0, 1e-300, 6144, 6144.0001, 4096, 4096.01, 1e50, BIG, 1e100, 1e308, -1, std::numeric_limits<double>::infinity()}); default: return g.real(0, 30); } }
   // index of the first range that holds an accuracy: counted, from the tables
static int find(double acc, int lo, const std::function<double(int)>& limit) { int n = lo; for (int k = lo; k < 15; k++) if (acc > limit(k)) n = k + 1; return n; }

PROP(accuracy, 200000, 4000000, "an accuracy at or next to the limit of a range, or beyond the table")
{
   double a = genAcc(g); g << "accuracy " << pbt::d2s(a); bool edge = a > 6144; for (int k = -15; k < 15; k++) if (std::fabs(a - up(k)) <= 1e-12 * up(k)) edge = true; g.nontrivial(edge);
   int u = accuracy2ura(a), c = accuracy2CNAVura(a), n = nominalAccuracy2ura(a); REQ_EQ(u, find(a, 0, [](int k) { return up(k); }), "accuracy2ura"); REQ_EQ(c, find(a, -15, [](int k) { return up(k); }), "accuracy2CNAVura"); REQ_EQ(n, find(a, 0, [](int k) { return nominal(k, true); }), "nominalAccuracy2ura"); if (a > 2.4) REQ_EQ(u, c, "both indices above 2.4 m");
   if (a <= BIG) { REQUIRE(a <= ura2accuracy(u) && (u == 0 || a > ura2accuracy(u - 1)), "the range of the index holds the accuracy"); REQUIRE(a <= ura2CNAVaccuracy(c) && (c == -15 || a > ura2CNAVaccuracy(c - 1)), "the range of the CNAV index holds the accuracy"); REQUIRE(a <= ura2nominalAccuracy(n) && (n == 0 || a > ura2nominalAccuracy(n - 1)), "nominal"); }
   double b = genAcc(g); if (b < a) std::swap(a, b); REQUIRE(accuracy2ura(a) <= accuracy2ura(b) && accuracy2CNAVura(a) <= accuracy2CNAVura(b) && nominalAccuracy2ura(a) <= nominalAccuracy2ura(b), "a larger accuracy has no smaller index");
}
PROP(indices, 60000, 1000000, "an index outside the table")
{
   int k = g.oneIn(8) ? g.range(-32768, 32767) : g.range(-20, 20); g << "index " << k; g.nontrivial(k < 0 || k > 15); int clamp = std::min(std::max(k, 0), 15); REQ_EQ(ura2accuracy(k), up(clamp), "ura2accuracy"); REQ_EQ(ura2nominalAccuracy(k), nominal(clamp, true), "ura2nominalAccuracy"); GPSEphemeris e; e.accuracyFlag = k; REQ_EQ(e.getAccuracy(), up(clamp), "GPSEphemeris::getAccuracy"); double v = 0, w = 0; bool ok = true, ok2 = true; try { v = ura2CNAVaccuracy(k); } catch (InvalidRequest&) { ok = false; } try { w = ura2CNAVNominalaccuracy(k); } catch (InvalidRequest&) { ok2 = false; }
   REQ_EQ(ok, k >= -15 && k <= 15, "ura2CNAVaccuracy refuses other indices"); REQ_EQ(ok2, ok, "ura2CNAVNominalaccuracy refuses other indices"); if (ok) { REQ_EQ(v, up(k), "ura2CNAVaccuracy"); if (k < 15) REQ_NEAR(w, nominal(k, true), 5e-5 * w, "ura2CNAVNominalaccuracy"); else REQUIRE(w >= 6144, "no accuracy can be predicted with index 15"); if (k < 15 && k > -15) REQUIRE(w <= v && w > up(k - 1), "the nominal value lies in its range"); REQ_EQ((int)accuracy2CNAVura(v), k, "index of the CNAV accuracy"); } if (k >= 0 && k <= 15) { REQ_EQ((int)accuracy2ura(ura2accuracy(k)), k, "index of the accuracy"); REQ_EQ((int)nominalAccuracy2ura(ura2nominalAccuracy(k)), k, "index of the nominal accuracy"); }
      // the objects that report it
   CommonTime toe = GPSWeekSecond(1700, 7200.0, TimeSystem::GPS); BrcKeplerOrbit o; ObsID id(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA); bool healthy = g.flag(); o.loadData("G", id, 5, toe - 7200, toe + 7200, toe, k, healthy, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.01, 26560000.0, 0, 0, 0, 0.9, 0, 0, 0); bool ok3 = true; double x = 0; try { x = o.getAccuracy(); } catch (InvalidRequest&) { ok3 = false; } REQ_EQ(ok3, ok, "BrcKeplerOrbit::getAccuracy refuses"); if (ok) REQ_EQ(x, up(k), "BrcKeplerOrbit::getAccuracy"); REQ_EQ((int)o.getURAoe(), k, "BrcKeplerOrbit::getURAoe"); REQ_EQ(o.isHealthy(), healthy, "health");
   double a = genAcc(g); o.setAccuracy(a); REQUIRE(o.getAccuracy() == up(find(a, 0, [](int j) { return up(j); })), "setAccuracy " << a << " then getAccuracy " << o.getAccuracy()); BrcClockCorrection c; c.loadData("G", id, 5, toe, k, healthy, 1e-6, 0, 0); REQ_EQ(c.getAccuracy(toe), up(clamp), "BrcClockCorrection::getAccuracy");
}
PROP(fitinterval, 120000, 2000000, "the fit interval flag set with a low byte of the IODC of 240 or more")
{
   int iodc = g.oneIn(6) ? g.range(-5, 1100) : g.oneIn(3) ? g.pick(vector<int>{0, 255, 511, 767, 1023, 239, 240, 247, 248, 256, 495, 496, 497, 503, 504, 510, 512, 751, 752, 756, 757, 763, 764, 768, 1007, 1008, 1010, 1011, 1020, 1021}) : 256 * g.range(0, 3) + 240 + g.range(0, 15); int f = g.oneIn(20) ? g.range(-3, 5) : (int)g.flag(); g << "IODC " << iodc << " flag " << f; int want = fit(iodc, f); g.nontrivial(f == 1 && iodc >= 0 && iodc <= 1023 && (iodc & 255) >= 240);
   REQ_EQ((int)getLegacyFitInterval(iodc, f), want, "getLegacyFitInterval"); REQ_EQ((int)EngEphemeris::getFitInterval(iodc, f), want, "EngEphemeris::getFitInterval"); REQ_EQ((int)GPSEphemeris::getFitInterval(iodc, f), want, "GPSEphemeris::getFitInterval"); GPSEphemeris e; e.IODC = iodc; e.setFitIntervalFlag(f); REQ_EQ((int)e.fitDuration, want, "GPSEphemeris::setFitIntervalFlag");
   QZSEphemeris q; q.dataLoadedFlag = true; q.ctToe = GPSWeekSecond(1700, 7200.0, TimeSystem::QZS); q.transmitTime = q.ctToe - 3600; q.setFitIntervalFlag(f); REQ_EQ((int)q.fitDuration, f ? 4 : 2, "QZSEphemeris::setFitIntervalFlag"); REQ_NEAR(q.endValid - q.ctToe, f ? 7200.0 : 3600.0, 1e-6, "end of validity");
}
PBT_MAIN
