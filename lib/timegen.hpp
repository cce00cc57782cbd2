#pragma once
#include "gp.hpp"
namespace tg
{
using namespace gpstk;
struct Inst { long jd, sod; double frac; };   // frac in [0,1)
   // a day number with weight on the days where calendars and counters turn over
inline long genDay(pbt::G& g, long lo, long hi)
{
   long d;
   switch (g.below(8))
   {
      case 0: d = g.pick<long>({0, 1, 1721057, 2299159, 2299160, 2299161, 2299162, 2400000, 2400001, 2400002, 2440587, 2440588, 2440589, 2444244, 2444245, 2444246, 2451412, 2451413, 2451414, 2453736, 2453737, 2453738, 2451545, 2465442, 2465443, 2465444, 3442446, 3442447}); break;
      case 1: { // year boundaries and ends of February
         long y = g.range(-4712, 4712); if (g.flag()) y = g.range(15, 47) * 100; if (y == 0) y = 1;
         d = (long)std::floor(365.2425 * (y + 4712)) + (g.flag() ? 0 : 59) + g.range(-20, 20); break; }
      case 2: { // week rollovers of each constellation
         long base = g.pick<long>({2444245, 2451413, 2453737}); long n = g.pick<long>({1024, 4096, 8192, 1, 256, 512});
         d = base + 7 * n * g.range(0, 12) + g.range(-8, 8); break; }
      case 3: case 4: d = g.range(2440588, 2465442); break;   // 1970..2038
      case 5: d = g.range(2444245, 2480000); break;
      default: d = g.range(0, 3442447);
   }
   if (d < lo || d > hi) d = lo + (((d - lo) % (hi - lo + 1)) + (hi - lo + 1)) % (hi - lo + 1);
   return d;
}
inline long genSod(pbt::G& g)
{
   switch (g.below(6))
   {
      case 0: return g.pick<long>({0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 86340, 86398, 86399});
      case 1: return g.range(0, 23) * 3600;
      case 2: return 86399 - g.range(0, 5);
      default: return g.range(0, 86399);
   }
}
   // fractions a double near 86400 can still tell apart
inline double genFrac(pbt::G& g)
{
   switch (g.below(7))
   {
      case 0: return 0;
      case 1: return g.range(0, 999) / 1000.0;
      case 2: return g.range(0, 999999) / 1e6;
      case 3: return g.range(0, 999999999L) / 1e9;
      case 4: return 0.5;
      case 5: return g.pick({0.999, 0.9999, 0.999999, 0.999999999, 1e-3, 1e-6, 1e-9, 0.25, 0.0015});
      default: return g.below(1000000000) / 1e9 * 0.9999999;
   }
}
inline Inst genInst(pbt::G& g, long lo = 0, long hi = 3442447) { Inst i; i.jd = genDay(g, lo, hi); i.sod = genSod(g); i.frac = genFrac(g); return i; }
inline CommonTime make(const Inst& i, TimeSystem ts) { CommonTime t; t.set(i.jd, i.sod, i.frac, ts); return t; }
   // exact difference in seconds (long double), from the public representation
inline long double diff(const CommonTime& a, const CommonTime& b)
{
   long da, db, sa, sb; double fa, fb; a.get(da, sa, fa); b.get(db, sb, fb);
   return (long double)(da - db) * 86400.0L + (sa - sb) + ((long double)fa - fb);
}
typedef __float128 F128;   // seconds since day 0, exact
inline F128 secs(const Inst& i) { return (F128)i.jd * 86400 + i.sod + (F128)i.frac; }
inline F128 secs(const CommonTime& a) { long d, s; double f; a.get(d, s, f); return (F128)d * 86400 + s + (F128)f; }
inline std::string str(const Inst& i) { return pbt::strf("day %ld sod %ld frac %.17g", i.jd, i.sod, i.frac); }
}
