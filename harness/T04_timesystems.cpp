// T04: time-system offsets and leap seconds against an independent table and algebraic laws; TimeSystemCorrection.
#include "timegen.hpp"
#include "TimeSystemCorr.hpp"
#include "GPSWeekSecond.hpp"
#include "TimeConverters.hpp"
#include "CivilTime.hpp"
using namespace gpstk; using namespace tg; using pbt::G;

// --- TAI-UTC as published by the IERS (Bulletin C / tai-utc.dat): JD-2400000.5 of the change, offset, reference MJD and rate
struct Row { long mjd; double off; double ref, rate; };
static const std::vector<Row>& table()
{
   static const std::vector<Row> t{
      {37300, 1.4228180, 37300, 0.001296}, {37512, 1.3728180, 37300, 0.001296}, {37665, 1.8458580, 37665, 0.0011232}, {38334, 1.9458580, 37665, 0.0011232},
      {38395, 3.2401300, 38761, 0.001296}, {38486, 3.3401300, 38761, 0.001296}, {38639, 3.4401300, 38761, 0.001296}, {38761, 3.5401300, 38761, 0.001296},
      {38820, 3.6401300, 38761, 0.001296}, {38942, 3.7401300, 38761, 0.001296}, {39004, 3.8401300, 38761, 0.001296}, {39126, 4.3131700, 39126, 0.002592}, {39887, 4.2131700, 39126, 0.002592},
      {41317, 10, 0, 0}, {41499, 11, 0, 0}, {41683, 12, 0, 0}, {42048, 13, 0, 0}, {42413, 14, 0, 0}, {42778, 15, 0, 0}, {43144, 16, 0, 0}, {43509, 17, 0, 0}, {43874, 18, 0, 0}, {44239, 19, 0, 0},
      {44786, 20, 0, 0}, {45151, 21, 0, 0}, {45516, 22, 0, 0}, {46247, 23, 0, 0}, {47161, 24, 0, 0}, {47892, 25, 0, 0}, {48257, 26, 0, 0}, {48804, 27, 0, 0}, {49169, 28, 0, 0}, {49534, 29, 0, 0},
      {50083, 30, 0, 0}, {50630, 31, 0, 0}, {51179, 32, 0, 0}, {53736, 33, 0, 0}, {54832, 34, 0, 0}, {56109, 35, 0, 0}, {57204, 36, 0, 0}, {57754, 37, 0, 0}};
   return t;
}
   // TAI-UTC on an MJD (day plus fraction); ownRef tells whether the row in force starts at its own reference date
static long double tai_utc(long mjd, double frac, bool* ownRef = nullptr)
{
   const Row* r = &table()[0]; for (auto& x : table()) if (x.mjd <= mjd) r = &x;
   if (ownRef) *ownRef = r->rate == 0 || r->ref == r->mjd;
   return (long double)r->off + ((long double)mjd - r->ref + frac) * (long double)r->rate;
}
static const std::vector<TimeSystem>& sup() { static const std::vector<TimeSystem> v{TimeSystem::GPS, TimeSystem::UTC, TimeSystem::GAL, TimeSystem::IRN, TimeSystem::GLO, TimeSystem::BDT, TimeSystem::TAI, TimeSystem::TT, TimeSystem::TDB}; return v; }
static gp::YMD ymd(long jd) { return gp::calendar()[jd]; }
   // days on and around the changes, from the first day of the table on
static long genMJD(G& g, long lo)
{
   long m;
   switch (g.below(3)) { case 0: m = table()[g.below(table().size())].mjd + g.range(-2, 2); break; case 1: m = g.range(37300, 41400); break; default: m = g.range(41317, 66154); }
   return std::max(m, lo);
}

PROP(leap_every_day, 29220, 29220, "the day is within two days of a published change")
{
      // every day of 1961 .. 2040, at a generated fraction of the day
   long mjd = 37300 + (long)g.enumerate(29220); double f = g.pick({0.0, 0.5, 0.999, 0.25, 1e-5}); if (g.flag()) f = g.unit();
   gp::YMD c = ymd(mjd + 2400001); g << "mjd " << mjd << " = " << c.y << "-" << c.m << "-" << c.d << " fraction " << pbt::d2s(f);
   double v = getLeapSeconds(c.y, c.m, c.d + f);
   bool own; long double want = tai_utc(mjd, f, &own);
   for (auto& r : table()) if (std::labs(r.mjd - mjd) <= 2) g.nontrivial();
   if (mjd >= 41317) { REQUIRE(v == (double)want, "leap seconds " << v << " expected " << (double)want); }
   else if (own) REQ_NEAR(v, (double)want, 1e-9, "");
   else
   {
      const Row* r = &table()[0]; for (auto& x : table()) if (x.mjd <= mjd) r = &x;
      double asCoded = (double)(r->off + (mjd - r->mjd + f) * r->rate);      // the recorded finding, and nothing else, is tolerated
      REQUIRE(std::fabs(v - asCoded) <= 1e-9 || std::fabs(v - (double)want) <= 1e-9, "TAI-UTC " << pbt::d2s(v) << " published " << pbt::d2s((double)want) << " with the known error " << pbt::d2s(asCoded));
   }
   if (mjd < 41317 && !own) REQUIRE_SIG("pre1972-rate-epoch", std::fabs(v - (double)want) <= 1e-9, "TAI-UTC " << pbt::d2s(v) << " published " << pbt::d2s((double)want));
      // within a day it can only grow at the published rate; TAI-UTC of UTC from the correction is the same number
   REQ_EQ(getTimeSystemCorrection(TimeSystem::UTC, TimeSystem::TAI, c.y, c.m, c.d + f), v, "");
   double v0 = getLeapSeconds(c.y, c.m, c.d); double rate = 0; for (auto& r : table()) if (r.mjd <= mjd) rate = r.rate;
   REQ_NEAR(v - v0, rate * f, 1e-12, "growth within the day");
}
PROP(before_1960, 3000, 10000, "always")
{
   g.nontrivial(); long jd = g.range(0, 2436934); gp::YMD c = ymd(jd); g << c.y << "-" << c.m << "-" << c.d;
   if (c.y >= 1960) return;
   REQ_EQ(getLeapSeconds(c.y, c.m, c.d + 0.5 * g.below(2)), 0.0, "");
}
KNOWN("pre1972-rate-epoch")
{
   double v = getLeapSeconds(1965, 3, 6);      // published: 3.64013 + (38825-38761)*0.001296 = 3.723074
   REQUIRE_SIG("pre1972-rate-epoch", std::fabs(v - 3.723074) < 1e-9, "TAI-UTC on 1965-03-06 is " << v << ", published 3.723074");
}

PROP(corrections, 400000, 2000000, "two different systems, a third one and a date whose leap second count matters")
{
   long mjd = genMJD(g, 37300); double f = g.flag() ? 0.0 : g.unit(); gp::YMD c = ymd(mjd + 2400001); double day = c.d + f;
   TimeSystem a = g.pick(sup()), b = g.pick(sup()), d = g.pick(sup());
   g << c.y << "-" << c.m << "-" << pbt::d2s(day) << " " << StringUtils::asString(a) << " " << StringUtils::asString(b) << " " << StringUtils::asString(d);
   double ab = getTimeSystemCorrection(a, b, c.y, c.m, day), ba = getTimeSystemCorrection(b, a, c.y, c.m, day), bd = getTimeSystemCorrection(b, d, c.y, c.m, day), ad = getTimeSystemCorrection(a, d, c.y, c.m, day);
   REQ_NEAR(ab, -ba, 1e-13, "antisymmetry"); REQ_NEAR(ad, ab + bd, 1e-12, "additivity");
   if (a == b) REQ_EQ(ab, 0.0, "");
      // offsets from TAI by definition (leap seconds from the library itself: checked day by day above)
   double leap = getLeapSeconds(c.y, c.m, day);
   auto fromTAI = [&](TimeSystem t) -> double { switch (t) { case TimeSystem::GPS: case TimeSystem::GAL: case TimeSystem::IRN: return -19; case TimeSystem::UTC: case TimeSystem::GLO: return -leap;
      case TimeSystem::BDT: return -33; case TimeSystem::TAI: return 0; default: return 32.184; } };
   double want = fromTAI(b) - fromTAI(a), tol = 1e-12 + ((a == TimeSystem::TDB) != (b == TimeSystem::TDB) ? 0.002 : 0);
   REQ_NEAR(ab, want, tol, "definition");
   if (a != b && b != d && a != d) g.nontrivial();
      // TDB is a smooth, bounded, about yearly function of TT
   if (a == TimeSystem::TDB && b == TimeSystem::TT)
   { double ab2 = getTimeSystemCorrection(a, b, c.y, c.m, day + 1e-3); REQ_NEAR(ab2, ab, 1e-6, "TDB-TT must be smooth"); }
      // applying it to a time and back is the identity
   CommonTime t = CommonTime().set(mjd + 2400001, 0L, 0.0, a) , u(t); u += ab; u.setTimeSystem(b); CommonTime w(u); w += ba; w.setTimeSystem(a);
   REQ_NEAR((double)diff(w, t), 0, 1e-10, "");
}
PROP(refused, 2000, 4000, "always")
{
   g.nontrivial(); long mjd = genMJD(g, 37300); gp::YMD c = ymd(mjd + 2400001); TimeSystem x = g.pick(sup()); TimeSystem bad = TimeSystem::Unknown;
   bool threw = false; try { if (g.flag()) getTimeSystemCorrection(x, bad, c.y, c.m, c.d); else getTimeSystemCorrection(bad, x, c.y, c.m, c.d); } catch (Exception&) { threw = true; }
   REQUIRE(threw, "a correction to or from an unknown time system must be refused");
   for (TimeSystem t : gp::systems()) REQUIRE(StringUtils::asTimeSystem(StringUtils::asString(t)) == t, "name of a time system");
}

struct CT { const char* name; TimeSystem fr, to; int sgn; bool rate; };   // sgn: sign of A0 when going fr -> to
static const std::vector<CT>& ctypes()
{
   static const std::vector<CT> v{{"GPUT", TimeSystem::GPS, TimeSystem::UTC, -1, true}, {"GAUT", TimeSystem::GAL, TimeSystem::UTC, -1, true}, {"GLUT", TimeSystem::GLO, TimeSystem::UTC, -1, false}, {"GPGA", TimeSystem::GPS, TimeSystem::GAL, 1, true},
      {"GAGP", TimeSystem::GPS, TimeSystem::GAL, 1, true}, {"GLGP", TimeSystem::GLO, TimeSystem::GPS, 1, false}, {"QZUT", TimeSystem::QZS, TimeSystem::UTC, -1, true}, {"BDUT", TimeSystem::BDT, TimeSystem::UTC, -1, true},
      {"BDGP", TimeSystem::BDT, TimeSystem::GPS, 1, false}, {"IRUT", TimeSystem::IRN, TimeSystem::UTC, -1, true}, {"IRGP", TimeSystem::IRN, TimeSystem::GPS, -1, true}};
   return v;
}
PROP(header_corrections, 150000, 1000000, "a nonzero rate and an epoch away from the reference time")
{
   const CT& k = g.pick(ctypes());
   TimeSystemCorrection c{std::string(k.name)};
   if (g.flag()) { std::string l(k.name); for (auto& ch : l) ch = tolower(ch); c = TimeSystemCorrection(); c.fromString(l); }
   c.A0 = g.flag() ? g.logReal(-12, -3) : 0; c.A1 = g.flag() ? g.logReal(-17, -10) : 0; c.refWeek = g.range(0, 4000); c.refSOW = g.flag() ? g.range(0, 604799) : g.range(0, 6) * 86400;
   long day = 2444245 + c.refWeek * 7 + (g.flag() ? g.rangeO(-14, 14, 0) : g.rangeO(-2000, 2000, 0)); if (day < 2440000) day = 2440000;
   Inst i; i.jd = day; i.sod = genSod(g); i.frac = genFrac(g);
   bool fwd = g.flag(); CommonTime t = make(i, fwd ? k.fr : k.to);
   g << k.name << " A0 " << pbt::d2s(c.A0) << " A1 " << pbt::d2s(c.A1) << " ref " << c.refWeek << "/" << c.refSOW << " at " << str(i) << (fwd ? " forward" : " back");
   double dt = (double)(secs(i) - ((F128)(2444245 + c.refWeek * 7) * 86400 + c.refSOW));
   double v = c.A0 + (k.rate ? c.A1 * dt : 0); double want = (fwd ? 1 : -1) * k.sgn * v;
   double got = c.Correction(t);
   REQ_NEAR(got, want, 1e-15 + std::fabs(want) * 1e-12 + std::fabs(c.A1) * 1e-6, "correction");
   if (c.A1 != 0 && dt != 0) g.nontrivial();
      // there and back
   CommonTime u(t); u += got; u.setTimeSystem(fwd ? k.to : k.fr); double back = c.Correction(u);
   REQ_NEAR(got + back, 0, 1e-15 + std::fabs(c.A1) * 1e-6 + std::fabs(c.A1 * want) * 2 + 1e-12 * std::fabs(want), "back");
   REQUIRE(c.isConverterFor(k.fr, k.to) && c.isConverterFor(k.to, k.fr), "");
   for (TimeSystem x : gp::systems()) for (TimeSystem y : gp::systems())
   {
      bool threw = false, r = false; try { r = c.isConverterFor(x, y); } catch (Exception&) { threw = true; }
      REQUIRE(threw == (x == y || x == TimeSystem::Unknown || y == TimeSystem::Unknown), "isConverterFor refusal");
      if (!threw) REQUIRE(r == ((x == k.fr && y == k.to) || (x == k.to && y == k.fr)), "isConverterFor");
   }
   TimeSystem other = g.pick(gp::systems());
   if (other != k.fr && other != k.to) { CommonTime z(t); z.setTimeSystem(other); bool threw = false; try { c.Correction(z); } catch (Exception&) { threw = true; } REQUIRE(threw, "a time in " << StringUtils::asString(other) << " must be refused"); }
   TimeSystemCorrection n(c.asString4()); REQUIRE(n == c && n.frTS == c.frTS && n.toTS == c.toTS, "four letter name");
}
PROP(qz_to_gps, 2000, 4000, "always")
{
   g.nontrivial(); TimeSystemCorrection c("QZGP"); c.A0 = g.logReal(-10, -6); c.A1 = 0; c.refWeek = 2000; c.refSOW = 0;
   CommonTime t = make(genInst(g, 2451545, 2465442), TimeSystem::QZS); double v = c.Correction(t); g << "A0 " << c.A0 << " gives " << v;
   REQUIRE_SIG("qzgp-ignores-coefficients", std::fabs(std::fabs(v) - std::fabs(c.A0)) <= 1e-9 * std::fabs(c.A0), "QZGP correction " << v << " with A0 " << c.A0);
}
KNOWN("qzgp-ignores-coefficients")
{
   TimeSystemCorrection c("QZGP"); c.A0 = 1e-8; c.A1 = 0; c.refWeek = 2000; c.refSOW = 0; CommonTime t; t.set(2458000, 0L, 0.0, TimeSystem::QZS);
   REQUIRE_SIG("qzgp-ignores-coefficients", std::fabs(c.Correction(t)) > 0, "QZGP with A0 1e-8 corrects by 0");
}
PBT_MAIN
