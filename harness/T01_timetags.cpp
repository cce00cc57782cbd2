// T01: every time representation converts to and from the common instant without losing or moving it.
#include "timegen.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "JulianDate.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "TimeConverters.hpp"
#include "Epoch.hpp"
using namespace gpstk; using namespace tg; using pbt::G;

// the calendar itself, every day of the range (64 stripes)
PROP(calendar_all_days, 64, 64, "every stripe of ~53800 consecutive days is non-trivial")
{
   long k = g.enumerate(64);
   const auto& c = gp::calendar();
   long a = k * (3442448 / 64 + 1), b = std::min<long>(3442448, a + 3442448 / 64 + 1);
   g << "days " << a << ".." << b;
   for (long jd = a; jd < b; ++jd)
   {
      int y, m, d; convertJDtoCalendar(jd, y, m, d);
      REQUIRE(y == c[jd].y && m == c[jd].m && d == c[jd].d, "JD " << jd << " -> " << y << "/" << m << "/" << d << " expected " << c[jd].y << "/" << c[jd].m << "/" << c[jd].d);
      long back = convertCalendarToJD((int)c[jd].y, c[jd].m, c[jd].d);
      REQUIRE(back == jd, c[jd].y << "/" << c[jd].m << "/" << c[jd].d << " -> " << back << " expected " << jd);
   }
   g.nontrivial();
}

PROP(seconds_of_day, 60000 * 8, 2000000 * 4, "seconds of day with a fraction")
{
   long h = g.range(0, 23), m = g.range(0, 59), s = g.range(0, 59); double f = genFrac(g);
   double sod = convertTimeToSOD(h, m, s + f);
   REQ_NEAR(sod, h * 3600.0 + m * 60.0 + s + f, 3e-11, "");
   int hh, mm; double ss; double in = h * 3600.0 + m * 60.0 + s + f;
   long whole = (long)in;
   g << h << ":" << m << ":" << s + f;
   convertSODtoTime(in, hh, mm, ss);
   REQUIRE(hh == whole / 3600 && mm == whole % 3600 / 60 && ss >= 0 && ss < 60, "sod " << pbt::d2s(in) << " gave " << hh << ":" << mm << ":" << pbt::d2s(ss));
   REQ_NEAR(hh * 3600.0 + mm * 60.0 + ss, in, 3e-11, "");
   g.nontrivial(f != 0);
}

struct WS { int nbits; long epochMjd; };
template <class W> void weekSecond(G& g, const Inst& i, const CommonTime& ct, TimeSystem ts, long epochJday)
{
   long days = i.jd - epochJday;
   if (days < 0)
   {
      bool threw = false; try { W w(ct); } catch (InvalidRequest&) { threw = true; }
      REQUIRE(threw, "instant before the week epoch must be refused");
      g.label("before-epoch"); return;
   }
   W w(ct);
   REQUIRE(w.getTimeSystem() == ts, "time system lost");
   REQ_EQ((long)w.week, days / 7, ""); REQ_NEAR(w.sow, (days % 7) * 86400.0 + i.sod + i.frac, 2e-10, "");
   REQ_EQ((long)w.getDayOfWeek(), days % 7, "");
   REQUIRE(w.sow >= 0 && w.sow < 604800, w.sow);
   CommonTime back = w.convertToCommonTime();
   REQUIRE(std::fabs((double)(secs(back) - secs(i))) < 3e-10, "back " << gp::show(back)); REQUIRE(back.getTimeSystem() == ts, "");
   W w2(back); REQUIRE(w2.week == w.week && std::fabs(w2.sow - w.sow) < 3e-10, "week/sow changed over a round trip");
   REQ_EQ((long)(w.getEpoch() * (unsigned)(w.bitmask() + 1) + w.getModWeek()), (long)w.week, "");
   g.label("weeksecond");
   g.nontrivial(i.frac != 0 || i.sod != 0);
}

PROP(instant_to_tag_and_back, 60000 * 8, 3000000 * 4, "instant not at midnight, or with a fraction of a second")
{
   int cls = g.below(13); Inst i = genInst(g); TimeSystem ts = g.pick(gp::systems());
   CommonTime ct = make(i, ts);
   static const char* names[] = {"Civil", "YDS", "MJD", "JD", "Unix", "Posix", "ANSI", "Zcount", "GPSws", "GALws", "BDSws", "QZSws", "IRNws"};
   g << names[cls] << " " << str(i) << " " << StringUtils::asString(ts);
   g.label(names[cls]);
   const auto& cal = gp::calendar();
   auto near = [&](const CommonTime& back, double tol) {
      REQUIRE(back.getTimeSystem() == ts, "time system changed to " << StringUtils::asString(back.getTimeSystem()));
      double d = (double)(secs(back) - secs(i));
      REQUIRE(std::fabs(d) <= tol, "moved by " << pbt::d2s(d) << " s to " << gp::show(back)); };
   bool nt = i.sod != 0 || i.frac != 0;
   long unixDays = i.jd - 2440588;
   switch (cls)
   {
      case 0: { CivilTime t(ct); REQUIRE(t.getTimeSystem() == ts, "");
         REQUIRE(t.year == cal[i.jd].y && t.month == cal[i.jd].m && t.day == cal[i.jd].d && t.hour == i.sod / 3600 && t.minute == i.sod % 3600 / 60, t.year << "/" << t.month << "/" << t.day << " " << t.hour << ":" << t.minute);
         REQ_NEAR(t.second, i.sod % 60 + i.frac, 1e-12, ""); near(t.convertToCommonTime(), 3e-11); if (i.frac == 0) REQUIRE(t.isValid(), ""); CivilTime u; u = t; REQUIRE(u == t, ""); break; }
      case 1: { YDSTime t(ct); REQUIRE(t.getTimeSystem() == ts, ""); long doy = i.jd - convertCalendarToJD(cal[i.jd].y, 1, 1) + 1;
         REQUIRE(t.year == cal[i.jd].y && t.doy == doy, t.year << " " << t.doy); if (i.jd != 2299161 && cal[i.jd].y != 1582) REQ_EQ((long)t.doy, (long)cal[i.jd].doy, "");
         REQ_NEAR(t.sod, i.sod + i.frac, 2e-11, ""); near(t.convertToCommonTime(), 4e-11); break; }
      case 2: { MJD t(ct); REQUIRE(t.getTimeSystem() == ts, ""); long double m = (i.jd - 2400001) + (i.sod + (long double)i.frac) / 86400.0L; REQUIRE(fabsl(t.mjd - m) < 1e-12L, "mjd " << (double)t.mjd); near(t.convertToCommonTime(), 1e-7); break; }
      case 3: { JulianDate t(ct); REQUIRE(t.getTimeSystem() == ts, ""); long double m = i.jd - 0.5L + (i.sod + (long double)i.frac) / 86400.0L; REQUIRE(fabsl(t.jd - m) < 1e-12L, "jd " << (double)t.jd); near(t.convertToCommonTime(), 1e-7); break; }
      case 4: { UnixTime t(ct); REQUIRE(t.getTimeSystem() == ts, ""); long us = (long)std::floor(i.frac * 1e6 + 0.5), s = unixDays * 86400 + i.sod;
         long tot = t.tv.tv_sec * 1000000L + t.tv.tv_usec; REQUIRE(std::labs(tot - (s * 1000000L + us)) <= 1, t.tv.tv_sec << " " << t.tv.tv_usec); REQUIRE(t.tv.tv_usec >= 0 && t.tv.tv_usec < 1000000, "");
         if (i.jd == 3442447 && t.tv.tv_sec >= (3442448L - 2440588) * 86400) return;
         near(t.convertToCommonTime(), 5.1e-7); break; }
      case 5: { bool in = unixDays >= 0 && unixDays * 86400 + i.sod < 2147483647L;
         if (!in) { bool ok = false; try { PosixTime t(ct); long s = unixDays * 86400 + i.sod; ok = t.ts.tv_sec == s || (t.ts.tv_sec == s + 1); } catch (InvalidRequest&) { ok = true; } REQUIRE(ok, ""); g.label("posix-out"); return; }
         PosixTime t(ct); REQUIRE(t.getTimeSystem() == ts, ""); long ns = (long)std::floor(i.frac * 1e9 + 0.5); long tot = t.ts.tv_sec * 1000000000L + t.ts.tv_nsec, want = (unixDays * 86400 + i.sod) * 1000000000L + ns;
         REQUIRE(std::labs(tot - want) <= 1, t.ts.tv_sec << " " << t.ts.tv_nsec); REQUIRE(t.ts.tv_nsec >= 0 && t.ts.tv_nsec < 1000000000, ""); near(t.convertToCommonTime(), 6e-10); break; }
      case 6: { bool in = unixDays >= 0 && unixDays * 86400 + i.sod < 2147483647L;
         if (!in) { bool ok = false; try { ANSITime t(ct); ok = t.time == unixDays * 86400 + i.sod; } catch (InvalidRequest&) { ok = true; } REQUIRE(ok, ""); g.label("ansi-out"); return; }
         ANSITime t(ct); REQUIRE(t.getTimeSystem() == ts, ""); REQ_EQ((long)t.time, unixDays * 86400 + i.sod, ""); CommonTime b = t.convertToCommonTime(); double d = (double)(secs(i) - secs(b)); REQUIRE(d >= -1e-9 && d < 1 && b.getTimeSystem() == ts, d); break; }
      case 7: { long days = i.jd - 2444245; if (days < 0) { bool th = false; try { GPSWeekZcount t(ct); } catch (InvalidRequest&) { th = true; } REQUIRE(th, ""); g.label("before-epoch"); return; }
         GPSWeekZcount t(ct); REQUIRE(t.getTimeSystem() == ts, ""); long double z = ((days % 7) * 86400.0L + i.sod + (long double)i.frac) / 1.5L; REQ_EQ((long)t.week, days / 7, "");
         REQUIRE(t.zcount <= (double)z + 1e-9 && t.zcount > (double)z - 1 - 1e-9, "zcount " << t.zcount << " for " << (double)z); CommonTime b = t.convertToCommonTime(); double d = (double)(secs(i) - secs(b)); REQUIRE(d >= -1e-9 && d < 1.5 + 1e-9 && b.getTimeSystem() == ts, d);
         GPSWeekZcount u(b); REQUIRE(u == t, "z-count changed over a round trip"); break; }
      case 8: weekSecond<GPSWeekSecond>(g, i, ct, ts, 2444245); break;
      case 9: weekSecond<GALWeekSecond>(g, i, ct, ts, 2451413); break;
      case 10: weekSecond<BDSWeekSecond>(g, i, ct, ts, 2453737); break;
      case 11: weekSecond<QZSWeekSecond>(g, i, ct, ts, 2444245); break;
      case 12: weekSecond<IRNWeekSecond>(g, i, ct, ts, 2451413); break;
   }
   g.nontrivial(nt);
}

// a chain of conversions through any tags ends where it started, to within the coarsest resolution met
PROP(conversion_chain, 25000 * 8, 800000 * 4, "chain of at least 3 different representations")
{
   Inst i = genInst(g, 2453738, 2465441); TimeSystem ts = g.pick(gp::systems()); CommonTime ct = make(i, ts); CommonTime cur = ct; double tol = 1e-9; int n = g.range(2, 8); std::set<int> used;
   g << str(i) << ":";
   for (int k = 0; k < n; k++)
   {
      int c = g.below(11); used.insert(c);
      static const double res[] = {4e-11, 5e-11, 1e-7, 1e-7, 5.1e-7, 6e-10, 3e-10, 3e-10, 3e-10, 3e-10, 3e-10};
      TimeTag* t = 0;
      switch (c) { case 0: t = new CivilTime; break; case 1: t = new YDSTime; break; case 2: t = new MJD; break; case 3: t = new JulianDate; break; case 4: t = new UnixTime; break; case 5: t = new PosixTime; break;
         case 6: t = new GPSWeekSecond; break; case 7: t = new GALWeekSecond; break; case 8: t = new BDSWeekSecond; break; case 9: t = new QZSWeekSecond; break; default: t = new IRNWeekSecond; }
      g << " " << c;
      t->convertFromCommonTime(cur);
      bool v = t->isValid(); cur = t->convertToCommonTime(); delete t; tol += res[c];
      (void)v;
   }
   double d = (double)(secs(cur) - secs(i));
   REQUIRE(std::fabs(d) <= tol, "moved by " << pbt::d2s(d) << " tolerance " << tol); REQUIRE(cur.getTimeSystem() == ts, "system");
   g.nontrivial(used.size() >= 3);
}

// fields -> instant -> fields
PROP(fields_to_instant_and_back, 50000 * 8, 2000000 * 4, "non-zero time of day")
{
   int cls = g.below(8); TimeSystem ts = g.pick(gp::systems()); Inst i = genInst(g); const auto& c = gp::calendar()[i.jd]; double sec = i.sod % 60 + i.frac;
   g << cls << " " << str(i);
   switch (cls)
   {
      case 0: { CivilTime a(c.y, c.m, c.d, i.sod / 3600, i.sod % 3600 / 60, sec, ts); CommonTime t = a; REQUIRE(std::fabs((double)(secs(t) - secs(i))) < 3e-11, gp::show(t)); CivilTime b(t);
         REQUIRE(b.year == a.year && b.month == a.month && b.day == a.day && std::fabs((b.hour - a.hour) * 3600.0 + (b.minute - a.minute) * 60.0 + b.second - a.second) < 3e-11, ""); if (i.frac == 0) REQUIRE(a.isValid() && b.isValid(), "a valid time is not valid"); int len = (c.m == 12 ? 31 : (int)(convertCalendarToJD(c.y, c.m + 1, 1) - convertCalendarToJD(c.y, c.m, 1))); if (c.y > 1600 && i.jd < 3440000) { REQUIRE(!CivilTime(c.y, c.m, len + 1, 0, 0, 0, ts).isValid(), "a day after the end of the month is valid"); REQUIRE(!CivilTime(c.y, c.m, c.d, 0, 60, 0, ts).isValid(), "minute 60 is valid"); } break; }
      case 1: { YDSTime a(c.y, i.jd - convertCalendarToJD(c.y, 1, 1) + 1, i.sod + i.frac, ts); CommonTime t = a; REQUIRE(std::fabs((double)(secs(t) - secs(i))) < 4e-11, gp::show(t)); YDSTime b(t); REQUIRE(b.year == a.year && b.doy == a.doy && std::fabs(b.sod - a.sod) < 5e-11, ""); if (i.frac == 0) REQUIRE(a.isValid() && b.isValid(), "a valid time is not valid"); if (c.y > 1600 && i.jd < 3440000) REQUIRE(!YDSTime(c.y, 367, 0, ts).isValid() && !YDSTime(c.y, 0, 0, ts).isValid(), "day of year 0 or 367 is valid"); break; }
      case 2: { if (i.jd < 2444245 || i.jd > 3442440) throw pbt::Discard(); long w = (i.jd - 2444245) / 7; double sow = (i.jd - 2444245) % 7 * 86400.0 + i.sod + i.frac; GPSWeekSecond a(w, sow, ts); CommonTime t = a; REQUIRE(std::fabs((double)(secs(t) - secs(i))) < 3e-10, gp::show(t)); GPSWeekSecond b(t); REQUIRE(b.week == w && std::fabs(b.sow - sow) < 3e-10, ""); REQUIRE(a.isValid() && b.isValid(), "a valid week and second is not valid"); REQUIRE(!GPSWeekSecond(w, 604800 + sow, ts).isValid(), "a second of week of 604800 or more is valid"); break; }
      case 3: { if (i.jd < 2444245 || i.jd > 3442440) throw pbt::Discard(); long w = (i.jd - 2444245) / 7, z = g.range(0, 403199); GPSWeekZcount a(w, z, ts); CommonTime t = a; REQUIRE(std::fabs((double)(secs(t) - ((F128)(2444245 + 7 * w) * 86400 + z * 1.5L))) < 1e-9, gp::show(t)); GPSWeekZcount b(t); REQUIRE(b == a, b.week << " " << b.zcount << " from " << w << " " << z); break; }
      case 4: { long s = g.range(0, 2147483646L); ANSITime a(s, ts); CommonTime t = a; ANSITime b(t); REQ_EQ((long)b.time, s, ""); REQUIRE(a.isValid() && b.isValid(), "a valid time is not valid"); REQUIRE(std::fabs((double)(secs(t) - ((F128)2440588 * 86400 + s))) < 1e-9, ""); break; }
      case 5: { long s = g.range(0, 2147483646L); long u = g.pick<long>({0, 1, 999999, 999000, g.range(0, 999999)}); UnixTime a(s, u, ts); CommonTime t = a; UnixTime b(t); REQUIRE(b.tv.tv_sec == s && b.tv.tv_usec == u, b.tv.tv_sec << "." << b.tv.tv_usec << " from " << s << "." << u); REQUIRE(a.isValid() && b.isValid(), "a valid time is not valid"); break; }
      case 6: { long s = g.range(0, 2147483646L); long u = g.pick<long>({0, 1, 999999999L, 999000000L, g.range(0, 999999999L)}); PosixTime a(s, u, ts); CommonTime t = a; PosixTime b(t); REQUIRE(b.ts.tv_sec == s && b.ts.tv_nsec == u, b.ts.tv_sec << "." << b.ts.tv_nsec << " from " << s << "." << u); REQUIRE(a.isValid() && b.isValid(), "a valid time is not valid"); break; }
      case 7: { // the same instant through every week system
         if (i.jd < 2453737) throw pbt::Discard(); long d; 
         d = i.jd - 2451413; GALWeekSecond ga(d / 7, d % 7 * 86400.0 + i.sod + i.frac, ts); IRNWeekSecond ir(d / 7, d % 7 * 86400.0 + i.sod + i.frac, ts); d = i.jd - 2453737; BDSWeekSecond bd(d / 7, d % 7 * 86400.0 + i.sod + i.frac, ts); d = i.jd - 2444245; QZSWeekSecond qz(d / 7, d % 7 * 86400.0 + i.sod + i.frac, ts);
         for (const CommonTime& t : {ga.convertToCommonTime(), ir.convertToCommonTime(), bd.convertToCommonTime(), qz.convertToCommonTime()}) REQUIRE(std::fabs((double)(secs(t) - secs(i))) < 3e-10, gp::show(t)); break; }
   }
   g.nontrivial(i.sod != 0);
}

// two representations of ordered instants are ordered the same way, and different systems never compare silently
PROP(tags_order_like_instants, 30000 * 8, 1000000 * 4, "two different instants less than a day apart, or different systems")
{
   Inst a = genInst(g, 2453738, 2465441), b = a; switch (g.below(4)) { case 0: b = genInst(g, 2453738, 2465441); break; case 1: b.sod = genSod(g); break; case 2: b.frac = genFrac(g); break; default: break; }
   bool sameSys = !g.oneIn(5); TimeSystem ts = TimeSystem::GPS, ts2 = sameSys ? ts : g.pick({TimeSystem::UTC, TimeSystem::GLO, TimeSystem::BDT}); CommonTime x = make(a, ts), y = make(b, ts2);
   double d = (double)(secs(a) - secs(b)); if (std::fabs(d) > 0 && std::fabs(d) < 1.1e-6) { d = 0; b = a; y = make(b, ts2); }
   g << str(a) << " vs " << str(b);
   auto ord = [&](auto p, auto q, const char* n) {
      if (!sameSys) { bool th = false; try { (void)(p < q); } catch (InvalidRequest&) { th = true; } REQUIRE(th, n << " compared different time systems"); REQUIRE(!(p == q), n); return; }
      int c = d < 0 ? -1 : d > 0 ? 1 : 0;
      REQUIRE((p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0) && (p >= q) == (c >= 0) && (p == q) == (c == 0) && (p != q) == (c != 0), n << " order " << c << " < " << (p < q) << " > " << (p > q) << " == " << (p == q)); };
   switch (g.below(8))
   {
      case 0: ord(CivilTime(x), CivilTime(y), "Civil"); break; case 1: ord(YDSTime(x), YDSTime(y), "YDS"); break;
      case 2: ord(GPSWeekSecond(x), GPSWeekSecond(y), "GPSWeekSecond"); break; case 3: ord(GALWeekSecond(x), GALWeekSecond(y), "GALWeekSecond"); break;
      case 4: ord(BDSWeekSecond(x), BDSWeekSecond(y), "BDSWeekSecond"); break; case 5: ord(PosixTime(x), PosixTime(y), "Posix"); break;
      case 6: ord(UnixTime(x), UnixTime(y), "Unix"); break; default: ord(IRNWeekSecond(x), IRNWeekSecond(y), "IRN"); break;
   }
   g.nontrivial(!sameSys || (d != 0 && std::fabs(d) < 86400));
}
PBT_MAIN
