// T02: CommonTime arithmetic, differencing and ordering agree with exact arithmetic on instants.
#include "timegen.hpp"
using namespace gpstk; using namespace tg; using pbt::G;

static const double TINY = 3e-16;
static void fields(const CommonTime& t)
{
   long d, ms; double f; TimeSystem ts; t.getInternal(d, ms, f, ts);
   REQUIRE(d >= 0 && d <= CommonTime::END_LIMIT_JDAY, "day " << d << " out of range");
   REQUIRE(ms >= 0 && ms < 86400000, "millisecond of day " << ms);
   REQUIRE(f >= -TINY && f < 0.001 + TINY, "fraction of millisecond " << pbt::d2s(f));
   long d2, s; double fs; TimeSystem t2; t.get(d2, s, fs, t2);
   REQUIRE(d2 == d && s == ms / 1000 && t2 == ts && t.getTimeSystem() == ts, "");
   REQ_NEAR(fs, (ms % 1000) * 1e-3 + f, 1e-15, "");
   double sod; t.get(d2, sod); REQ_NEAR(sod, ms / 1000.0 + f, 3e-11, ""); REQ_NEAR(t.getSecondOfDay(), ms / 1000.0 + f, 3e-11, "");
   double day; t.get(day, t2); REQ_NEAR(day, (double)(d + (ms / 1000.0L + (long double)f) / 86400.0L), 1e-9, ""); REQ_NEAR(t.getDays(), day, 1e-12, ""); REQUIRE(t2 == ts, "");
   REQUIRE(d2 == d, "");
}
   // an amount of seconds with weight on the carries
static double genSec(G& g, double lim)
{
   double s = 0;
   switch (g.below(10))
   {
      case 0: s = g.pick({0.0, 1.0, 0.001, 0.5, 86400.0, 86399.0, 86401.0, 604800.0, 60.0, 3600.0, 1e-3 - 1e-9, 86399.999}); break;
      case 1: s = (double)g.range(0, 100000) * 86400.0; break;
      case 2: s = g.range(0, 100000000) / 1000.0; break;
      case 3: s = g.unit() * 1e-3; break;
      case 4: s = std::pow(10.0, g.real(-12, 0)); break;
      case 5: s = g.range(0, 864000000L) / 1000.0 + g.unit() * 1e-3; break;
      case 6: s = std::pow(10.0, g.real(0, 11)); break;
      case 7: s = g.unit(); break;
      case 8: s = (double)g.range(0, 3000000000L); break;
      default: s = g.real(0, 200000);
   }
   if (g.flag()) s = -s;
   return std::fabs(s) > lim ? std::fmod(s, lim) : s;
}

PROP(add_history, 1500000, 8000000, "at least two amounts of different sign or kind, crossing a day")
{
   Inst i = genInst(g, 400000, 3000000); TimeSystem ts = g.pick(gp::systems());
   CommonTime t = make(i, ts); F128 m = secs(i); double tol = 3e-16;
   g << str(i);
   int n = g.range(1, 12); bool neg = false, pos = false; long d0 = i.jd; bool cross = false;
   for (int k = 0; k < n; ++k)
   {
      F128 amount = 0; double err = 3e-16;
      CommonTime before(t);
      switch (g.below(8))
      {
         case 0: { long d = g.flag() ? g.rangeO(-3, 3, 0) : g.rangeO(-20000, 20000, 0); g << " addDays " << d; REQUIRE(&t.addDays(d) == &t, ""); amount = (F128)d * 86400; break; }
         case 1: { long s = g.flag() ? g.pick<long>({0, 1, -1, 86399, 86400, 86401, -86399, -86400, -86401, 172800, -172800}) : g.rangeO(-2000000000L, 2000000000L, 0); g << " addSeconds(long) " << s; REQUIRE(&t.addSeconds(s) == &t, ""); amount = s; break; }
         case 2: { long s = g.flag() ? g.pick<long>({0, 1, -1, 999, 1000, -1000, 86399999, 86400000, 86400001, -86400000, -86399999, -86400001}) : g.rangeO(-400000000000L, 400000000000L, 0); g << " addMilliseconds " << s; REQUIRE(&t.addMilliseconds(s) == &t, ""); amount = (F128)s / 1000; break; }
         default: { double s = genSec(g, 2e9); err = 3e-11; amount = s; g << " " << pbt::d2s(s);
            switch (g.below(5)) { case 0: t = t + s; break; case 1: t = t - (-s); break; case 2: t += s; break; case 3: t -= -s; break; default: t.addSeconds(s); } }
      }
      m += amount; tol += err; if (amount < 0) neg = true; if (amount > 0) pos = true;
      fields(t);
      REQUIRE(t.getTimeSystem() == ts, "time system changed");
      double d = (double)(secs(t) - m);
      REQUIRE(std::fabs(d) <= tol, "after step " << k << " the instant is off by " << pbt::d2s(d) << " s, tolerance " << tol << ": " << gp::show(t));
      F128 da = amount; if (da > (F128)1e-9) REQUIRE(before < t && before <= t && t > before && t >= before && before != t && !(before == t), "order after adding"); 
      if (da < (F128)-1e-9) REQUIRE(t < before && t <= before && before > t && before >= t && t != before, "order after subtracting");
      double delta = t - before; REQ_NEAR(delta, (double)amount, 6e-11 + std::fabs((double)amount) * 5e-16, "difference after adding");
      long dd, ms; double fs; t.getInternal(dd, ms, fs); if (dd != d0) cross = true;
   }
   g.nontrivial(neg && pos && cross);
}

PROP(pairs_and_triples, 1500000, 8000000, "three distinct instants closer than a day, or differing systems")
{
   Inst i[3]; CommonTime t[3]; TimeSystem ts = g.pick(gp::systems());
   i[0] = genInst(g, 1, 3442440);
   for (int k = 1; k < 3; ++k)
   {
      i[k] = i[g.below(k)];
      switch (g.below(7)) { case 0: break; case 1: i[k] = genInst(g); break; case 2: i[k].jd = std::max(0L, std::min(3442447L, i[k].jd + g.rangeO(-1, 1, 0))); break; case 3: i[k].sod = genSod(g); break; case 4: i[k].frac = genFrac(g); break;
         case 5: { double f = i[k].frac + g.pick({1e-9, -1e-9, 1e-12, -1e-12, 1e-3, -1e-3, 2e-15, -2e-15}); if (f >= 0 && f < 1) i[k].frac = f; break; } default: i[k].sod = (i[k].sod + g.rangeO(-1, 1, 0) + 86400) % 86400; }
   }
   for (int k = 0; k < 3; k++) { t[k] = make(i[k], ts); fields(t[k]); g << str(i[k]) << "; "; REQ_NEAR((double)(secs(t[k]) - secs(i[k])), 0, 3e-16, "set"); }
   for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
   {
      F128 d = secs(i[a]) - secs(i[b]); double ad = std::fabs((double)d);
      REQ_NEAR(t[a] - t[b], (double)d, 6e-11 + ad * 5e-16, "difference " << a << "," << b);
      REQ_NEAR(t[a] - t[b], -(t[b] - t[a]), 6e-11 + ad * 5e-16, "antisymmetry");
      bool lt = t[a] < t[b], eq = t[a] == t[b];
      REQUIRE((t[a] != t[b]) == !eq && (t[a] <= t[b]) == (lt || eq) && (t[a] > t[b]) == !(lt || eq) && (t[a] >= t[b]) == !lt, "comparison operators disagree with each other");
      if (ad >= 1.9e-15) { REQUIRE(lt == (d < 0), "order " << a << "," << b); REQUIRE(!eq, "distinct instants equal"); }
      if (i[a].jd == i[b].jd && i[a].sod == i[b].sod && i[a].frac == i[b].frac) REQUIRE(eq && !lt, "same instant not equal");
      CommonTime c(t[a]), e; e = t[a]; REQUIRE(c == t[a] && e == t[a] && c.getTimeSystem() == ts, "copy");
      CommonTime moved = t[a] + (t[b] - t[a]); REQ_NEAR((double)(secs(moved) - secs(i[b])), 0, 2e-10 + ad * 6e-16, "a+(b-a)");
   }
   g.nontrivial(!(t[0] == t[1]) && !(t[1] == t[2]) && !(t[0] == t[2]) && std::fabs(t[0] - t[1]) < 86400);
}

PROP(mixed_systems, 60000, 1000000, "two different systems")
{
   Inst a = genInst(g), b = g.flag() ? a : genInst(g); TimeSystem s = g.pick(gp::systems()), u = g.pick(gp::systems());
   CommonTime x = make(a, s), y = make(b, u);
   bool ok = s == u || s == TimeSystem::Any || u == TimeSystem::Any;
   g << StringUtils::asString(s) << " " << StringUtils::asString(u);
   auto refuses = [&](const char* what, std::function<void()> f) { bool th = false; try { f(); } catch (InvalidRequest&) { th = true; } REQUIRE(th == !ok, what << (th ? " refused" : " answered")); };
   volatile bool r; volatile double d;
   refuses("-", [&] { d = x - y; }); refuses("<", [&] { r = x < y; }); refuses(">=", [&] { r = x >= y; });
   if (!(x == y)) { refuses("<=", [&] { r = x <= y; }); refuses(">", [&] { r = x > y; }); }
   if (!ok) REQUIRE(!(x == y) && x != y, "times in different systems are equal");
   CommonTime z(x); z.setTimeSystem(u); REQUIRE(z.getTimeSystem() == u, ""); REQ_NEAR((double)(secs(z) - secs(x)), 0, 0, "setTimeSystem moved the instant"); REQ_NEAR(z - y, (double)(secs(z) - secs(y)), 1e-10 + 4e-16 * std::fabs((double)(secs(z) - secs(y))), "");
   g.nontrivial(s != u);
}

PROP(set_forms, 120000, 3000000, "value out of range or on a boundary")
{
   long day = g.flag() ? genDay(g, 0, 3442447) : g.pick<long>({-1, 0, 3442448, 3442449, -1000, 4000000}); long sod = g.flag() ? genSod(g) : g.pick<long>({-1, 0, 86399, 86400, 86401, -86400});
   double f = g.flag() ? genFrac(g) : g.pick({-1e-9, 0.0, 1.0, 0.9999999999, 1.5, -0.5}); TimeSystem ts = g.pick(gp::systems());
   CommonTime keep = make({2451545, 10, 0.25}, TimeSystem::GPS), t(keep);
   bool okd = day >= 0 && day <= 3442448, oks = sod >= 0 && sod < 86400, okf = f >= 0 && f < 1;
   g << day << " " << sod << " " << f;
   bool th = false;
   switch (g.below(4))
   {
      case 0: try { t.set(day, sod, f, ts); } catch (InvalidParameter&) { th = true; } REQUIRE(th == !(okd && oks && okf), "refused " << th);
         if (!th) { fields(t); REQ_NEAR((double)(secs(t) - ((F128)day * 86400 + sod + (F128)f)), 0, 3e-16, ""); } break;
      case 1: { double s = sod + f; bool ok = s >= 0 && s < 86400; if (s < 0 && s > -1) return; try { t.set(day, s, ts); } catch (InvalidParameter&) { th = true; } REQUIRE(th == !(okd && ok), "refused " << th);
         if (!th) { fields(t); REQ_NEAR((double)(secs(t) - ((F128)day * 86400 + (F128)s)), 0, 3e-16, ""); } break; }
      case 2: { double x = g.flag() ? day + g.unit() : day; if (x <= -1 || x >= 3442449) { try { t.set(x, ts); } catch (InvalidParameter&) { th = true; } REQUIRE(th, "out of range day accepted"); break; } if (x < 0) return; t.set(x, ts); fields(t); REQ_NEAR((double)(secs(t) - (F128)x * 86400), 0, 1e-10, ""); break; }
      default: { long ms = g.flag() ? g.range(0, 86399999) : g.pick<long>({-1, 0, 86399999, 86400000}); double fm = g.pick({0.0, 0.0005, 0.000999999, 0.001, -1e-9, 0.01, 1e-12}); bool ok = okd && ms >= 0 && ms < 86400000 && fm >= 0 && fm < 0.001;
         try { t.setInternal(day, ms, fm, ts); } catch (InvalidParameter&) { th = true; } REQUIRE(th == !ok, "setInternal refused " << th);
         if (!th) { long d2, m2; double f2; TimeSystem s2; t.getInternal(d2, m2, f2, s2); REQUIRE(d2 == day && m2 == ms && f2 == fm && s2 == ts, "setInternal/getInternal"); } }
   }
   if (th) REQUIRE(t == keep && t.getTimeSystem() == TimeSystem::GPS, "a refused set changed the time to " << gp::show(t)); else REQUIRE(t.getTimeSystem() == ts, "");
   g.nontrivial(!(okd && oks && okf) || f == 0 || sod == 0 || sod == 86399);
}

PROP(text_form, 60000, 500000, "fraction of a millisecond")
{
   Inst i = genInst(g); CommonTime t = make(i, g.pick(gp::systems())); long d, ms; double f; t.getInternal(d, ms, f);
   std::string s = t.asString(); std::ostringstream o; o << t; REQ_EQ(s, o.str(), "");
   std::istringstream is(s); long d2, m2; double f2; std::string sys; is >> d2 >> m2 >> f2 >> sys; g << s;
   REQUIRE(d2 == d && m2 == ms && std::fabs(f2 - f) < 2e-15 && sys == StringUtils::asString(t.getTimeSystem()), s);
   g.nontrivial(f > 0);
}

static bool overflows(CommonTime t, int how, long days)
{
   try { switch (how) { case 0: t.addDays(days); break; case 1: t.addSeconds(days * 86400L); break; case 2: t.addSeconds(days * 86400.0); break; default: t.addMilliseconds(days * 86400000L); } }
   catch (InvalidRequest&) { return true; }
   return false;
}
PROP(range_limits, 20000, 200000, "result beyond the representable range")
{
   bool up = g.flag(); long k = g.range(1, 1000), over = g.rangeO(-5, 2000, 1); if (over == 0) over = 1; int how = g.below(4);
   CommonTime t = make({up ? CommonTime::END_LIMIT_JDAY - k : k, 0, 0}, TimeSystem::GPS);
   long move = up ? k + over : -(k + over); g << gp::show(t) << " move days " << move << " how " << how;
   bool th = overflows(t, how, move);
   if (over > 0) REQUIRE_SIG("overflow-not-refused", th, "addition that leaves the representable range was not refused"); else REQUIRE(!th, "addition within the range refused");
   g.nontrivial(over > 0);
}
KNOWN("overflow-not-refused") { if (!overflows(make({CommonTime::END_LIMIT_JDAY - 1, 0, 0}, TimeSystem::GPS), 0, 1000)) pbt::fail("END_OF_TIME - 1 day, addDays(1000) returns a time beyond the representable range", "overflow-not-refused"); }
PBT_MAIN
