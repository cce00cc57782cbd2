// T05: GPS week and Z-count arithmetic against integer arithmetic; week rollover helpers.
#include "timegen.hpp"
#include "GPSZcount.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "TimeCorrection.hpp"
using namespace gpstk; using namespace tg; using pbt::G;
typedef __int128 I;
static const long ZW = 403200, MAXW = (3442448 - 2444245) / 7;

static long genAmount(G& g)
{
   long v;
   switch (g.below(7))
   {
      case 0: v = g.pick<long>({0, 1, 2, 39, 40, 2400, 57600, ZW - 1, ZW, ZW + 1, 2 * ZW, 1024 * ZW, 65536 * ZW, 65535 * ZW, 32768 * ZW, 32767 * ZW}); break;
      case 1: v = g.range(0, 10); break;
      case 2: v = g.range(0, 2 * ZW); break;
      case 3: v = (long)g.range(0, 40000) * ZW + g.range(-3, 3); break;
      case 4: v = g.range(0, 70000) * ZW + g.range(0, ZW - 1); break;
      case 5: v = (long)g.range(0, 1L << 40); break;
      default: v = g.range(0, 5) * ZW + g.range(0, ZW - 1);
   }
   return g.flag() ? v : -v;
}
static long genZ(G& g) { switch (g.below(4)) { case 0: return g.pick<long>({0, 1, ZW - 1, ZW - 2, 57600, 57599}); case 1: return g.range(0, 20); default: return g.range(0, ZW - 1); } }
template <class Z> static bool refused(std::function<void()> f) { try { f(); } catch (Z&) { return true; } return false; }

PROP(zcount_history, 400000, 3000000, "a carry across a week, or a refusal followed by a further step")
{
   long w = g.flag() ? g.range(0, 32767) : g.pick<long>({0, 1, 1023, 1024, 32767, 32766}), z = genZ(g);
   GPSZcount t((short)w, z); I m = (I)w * ZW + z; const I TOP = (I)32768 * ZW;
   int n = g.range(1, 14);
   for (int k = 0; k < n; ++k)
   {
      long a = genAmount(g); int op = g.below(9); I want = m; bool ok = true; std::string what;
      try
      {
         switch (op)
         {
            case 0: want = m + a; t.addZcounts(a); break;
            case 1: want = m + a; t += a; break;
            case 2: want = m - a; t -= a; break;
            case 3: { want = m + a; GPSZcount u = t + a; REQUIRE((I)t.getWeek() * ZW + t.getZcount() == m, "operator+ changed its operand"); t = u; break; }
            case 4: { want = m - a; GPSZcount u = t - a; t = u; break; }
            case 5: { want = m + 1; a = 1; GPSZcount u = t++; REQUIRE((I)u.getWeek() * ZW + u.getZcount() == m, "x++ must return the old value"); break; }
            case 6: { want = m - 1; a = -1; GPSZcount u = t--; REQUIRE((I)u.getWeek() * ZW + u.getZcount() == m, "x-- must return the old value"); break; }
            case 7: { want = m + 1; a = 1; ++t; break; }
            default: { a = g.rangeO(-32768, 32767, 0); want = m + (I)a * ZW; t.addWeeks((short)a); }
         }
      }
      catch (InvalidRequest& e) { ok = false; }
      g << " op" << op << "(" << a << ")" << (ok ? "" : "!");
      bool should = want >= 0 && want < TOP;
      REQUIRE(ok == should, "step " << k << " op " << op << " amount " << a << " from " << (long)m << (should ? " must be accepted" : " must be refused"));
      if (ok) { if (want / ZW != m / ZW) g.nontrivial(); m = want; } else if (k + 1 < n) g.nontrivial();
      REQUIRE((I)t.getWeek() * ZW + t.getZcount() == m && t.getZcount() >= 0 && t.getZcount() < ZW, "is " << t.getWeek() << "w" << t.getZcount() << " expected " << (long)(m / ZW) << "w" << (long)(m % ZW));
      REQUIRE(t.getTotalZcounts() == (double)m, "");
      REQUIRE((std::string)t == std::to_string((long)(m / ZW)) + "w" + std::to_string((long)(m % ZW)) + "z", "");
   }
   g << " start " << w << "w" << z;
}
PROP(zcount_relations, 300000, 2000000, "different weeks")
{
   long w = g.range(0, 32767), z = genZ(g), w2 = g.flag() ? w : g.range(0, 32767), z2 = g.flag() ? z : genZ(g);
   GPSZcount a((short)w, z), b((short)w2, z2); long A = w * ZW + z, B = w2 * ZW + z2; g.nontrivial(w != w2);
   g << w << "w" << z << " " << w2 << "w" << z2;
   REQUIRE((a < b) == (A < B) && (a > b) == (A > B) && (a == b) == (A == B) && (a != b) == (A != B) && (a <= b) == (A <= B) && (a >= b) == (A >= B), "comparison");
   REQUIRE(a - b == (double)(A - B), "difference"); long r = g.range(1, 500000); REQUIRE(a % r == z % r, "");
   REQUIRE(a.getFullZcount() == (((w & 1023) << 19) | z), "");
   GPSZcount c(a.getFullZcount() | ((long)g.below(8) << 29)); REQUIRE(c.getWeek() == (w & 1023) && c.getZcount() == z, "full Z-count");
   c.setFullZcount(b.getFullZcount()); REQUIRE(c.getWeek() == (w2 & 1023) && c.getZcount() == z2, "");
      // refusals leave a valid object
   long bad = g.flag() ? -1 - (long)g.below(1000000) : ZW + (long)g.below(1000000);
   REQUIRE(refused<InvalidParameter>([&] { a.setZcount(bad); }) && refused<InvalidParameter>([&] { GPSZcount q((short)w, bad); }), "Z-count " << bad); REQUIRE(a.getZcount() == z && a.getWeek() == w, "");
   short bw = (short)(-1 - (long)g.below(32767)); REQUIRE(refused<InvalidParameter>([&] { a.setWeek(bw); }), ""); REQUIRE(a.getWeek() == w, "");
   long zz = ZW + (long)g.below((1 << 19) - ZW); REQUIRE(refused<InvalidParameter>([&] { GPSZcount q((w & 1023) << 19 | zz); }), "full Z-count with invalid Z-count");
      // time blocks
   long blk = g.pick<long>({40, 2400, 57600, ZW, 2 * ZW, 1, 7, ZW - 1, ZW + 1}); if (g.flag()) blk = g.range(1, 3 * ZW); long off = g.flag() ? 0 : g.range(0, g.flag() ? blk : 2 * blk);
   auto fl = [](long x, long y) { return x >= 0 ? x / y : -((-x + y - 1) / y); };
   bool want = blk < ZW ? (w == w2 && fl(z - off, blk) == fl(z2 - off, blk)) : fl(A - off, blk) == fl(B - off, blk);
   g << " block " << blk << " offset " << off;
   REQUIRE(a.inSameTimeBlock(b, blk, off) == want, "inSameTimeBlock expected " << want);
   if (w < 100000) { GPSWeekZcount p(w, z), q(w2, z2); REQUIRE(p.inSameTimeBlock(q, blk, off) == want, "GPSWeekZcount::inSameTimeBlock expected " << want); }
}
PROP(week_zcount_history, 400000, 3000000, "a carry across a week, or a refusal followed by a further step")
{
   long w = g.pick<long>({0, 1, 1023, 1024, 32767, 32768, 65535, MAXW - 1, MAXW}); if (g.flag()) w = g.range(0, MAXW); long z = genZ(g);
   TimeSystem ts = g.pick({TimeSystem::GPS, TimeSystem::Any, TimeSystem::Unknown});
   GPSWeekZcount t(w, z, ts); I m = (I)w * ZW + z; const I TOP = (I)(MAXW + 1) * ZW;
   int n = g.range(1, 14);
   for (int k = 0; k < n; ++k)
   {
      long a = genAmount(g); int op = g.below(9); I want = m; bool ok = true;
      try
      {
         switch (op)
         {
            case 0: want = m + a; t.addZcounts(a); break;
            case 1: want = m + a; t += a; break;
            case 2: want = m - a; t -= a; break;
            case 3: { want = m + a; GPSWeekZcount u = t + a; REQUIRE((I)t.week * ZW + t.zcount == m, ""); t = u; break; }
            case 4: { want = m - a; GPSWeekZcount u = t - a; t = u; break; }
            case 5: { want = m + 1; a = 1; GPSWeekZcount u = t++; REQUIRE((I)u.week * ZW + u.zcount == m, "x++"); break; }
            case 6: { want = m - 1; a = -1; GPSWeekZcount u = t--; REQUIRE((I)u.week * ZW + u.zcount == m, "x--"); break; }
            case 7: { want = m - 1; a = -1; --t; break; }
            default: { long wk = (long)(m / ZW); a = g.rangeO(-32768, std::min(32767L, MAXW - wk), 0); want = m + (I)a * ZW; t.addWeeks((short)a); }
         }
      }
      catch (InvalidRequest& e) { ok = false; }
      g << " op" << op << "(" << a << ")" << (ok ? "" : "!");
      bool should = want >= 0 && want < TOP;
      REQUIRE(ok == should, "step " << k << " op " << op << " amount " << a << " from " << (long)m << (should ? " must be accepted" : " must be refused"));
      if (ok) { if (want / ZW != m / ZW) g.nontrivial(); m = want; } else if (k + 1 < n) g.nontrivial();
      REQUIRE((I)t.week * ZW + t.zcount == m && t.zcount < (unsigned)ZW && t.isValid(), "is " << t.week << "w" << t.zcount << " expected " << (long)(m / ZW) << "w" << (long)(m % ZW));
      REQUIRE(t.getTotalZcounts() == (unsigned long)m && t.getTimeSystem() == ts, "");
   }
   g << " start " << w << "w" << z;
   long w2 = g.flag() ? w : g.range(0, MAXW), z2 = genZ(g); GPSWeekZcount u(w2, z2, ts); I M = (I)w2 * ZW + z2;
   REQUIRE((I)(t - u) == m - M && (t < u) == (m < M) && (t == u) == (m == M) && (t > u) == (m > M) && (t <= u) == (m <= M) && (t >= u) == (m >= M) && (t != u) == (m != M), "comparison with " << w2 << "w" << z2);
      // the instant
   if (m / ZW >= MAXW) return;      // the last week lies partly beyond the last day
   CommonTime c = t; long d, s; double f; c.get(d, s, f); REQUIRE(d == 2444245 + (long)(m / ZW) * 7 + (long)(m % ZW) / 57600, "day"); long zod = (long)(m % ZW) % 57600; REQ_NEAR(s + f, zod * 1.5, 1e-12, "");
   GPSWeekZcount back(c); REQUIRE(back == t && back.getTimeSystem() == ts, "back from CommonTime"); REQUIRE(t.getDayOfWeek() == (unsigned)((long)(m % ZW) / 57600), "");
}
PROP(packed_forms, 300000, 2000000, "a week above 1023")
{
   long w = g.flag() ? g.range(0, 8191) : g.range(0, MAXW), z = genZ(g); GPSWeekZcount t(w, z); g << w << "w" << z; g.nontrivial(w > 1023);
   REQUIRE(t.getWeek10() == (unsigned)(w % 1024) && t.getEpoch() == (unsigned)(w / 1024), "");
   unsigned z29 = t.getZcount29(); REQUIRE(z29 == (unsigned)((w % 1024) * 524288 + z), "29-bit form");
   if (w < 8192) { unsigned z32 = t.getZcount32(); REQUIRE(z32 == (unsigned)(w * 524288 + z), "32-bit form"); GPSWeekZcount u(g.range(0, 5000), genZ(g)); u.setZcount32(z32); REQUIRE(u == t, "32-bit form read back"); }
   long w2 = g.range(0, MAXW); GPSWeekZcount u(w2, genZ(g)); u.setZcount29(z29); REQUIRE(u.week == w2 / 1024 * 1024 + w % 1024 && (long)u.zcount == z, "29-bit form keeps the epoch");
   unsigned e = g.below(100), k = g.below(1024); GPSWeekZcount v(w, z);
   v.setEpoch(e); REQUIRE(v.week == (long)e * 1024 + w % 1024, "setEpoch"); v.setWeek10(k); REQUIRE(v.week == (long)(e * 1024 + k), "setWeek10"); v.setEpochWeek10(k % 60, e); REQUIRE(v.week == (long)((k % 60) * 1024 + e), "setEpochWeek10");
   unsigned a, b; t.getEpochWeek10(a, b); REQUIRE(a == (unsigned)w / 1024 && b == (unsigned)w % 1024, "");
   REQUIRE(!GPSWeekZcount(MAXW + 1, z).isValid() && !GPSWeekZcount(-1, z).isValid() && !GPSWeekZcount(w, ZW).isValid() && t.isValid(), "isValid");
   bool threw = false; CommonTime early = make(Inst{(long)g.range(0, 2444244), 5, 0}, TimeSystem::GPS); try { GPSWeekZcount q(early); } catch (InvalidRequest&) { threw = true; } REQUIRE(threw, "a time before the GPS epoch must be refused");
}
template <class W> static void modular(G& g, int nbits, long epochMJD, const char* name)
{
   long roll = 1L << nbits, top = (3442448 - 2400001 - epochMJD) / 7;
   long w = g.flag() ? g.range(0, top) : std::min(top, roll * (long)g.range(0, top / roll) + g.pick<long>({0, 1, 2, roll - 1, roll / 2, roll / 2 + 1, roll - 2}));
   double sow = g.num(0, 604800);
   W t((unsigned)w, sow); g << name << " week " << w;
   REQUIRE(t.Nbits() == nbits && t.bitmask() == roll - 1 && t.rollover() == roll && t.MJDEpoch() == epochMJD, "constants"); REQUIRE(t.MAXWEEK() == top, "MAXWEEK " << t.MAXWEEK() << " expected " << top);
   REQUIRE(t.getModWeek() == (unsigned)(w % roll) && t.getEpoch() == (unsigned)(w / roll) && t.getWeek() == (unsigned)w, "");
   unsigned a, b; t.getEpochModWeek(a, b); REQUIRE(a == (unsigned)(w / roll) && b == (unsigned)(w % roll), "");
   W v(t); v.setEpoch(3); REQUIRE(v.week == 3 * roll + w % roll, "setEpoch"); v.setModWeek((unsigned)(w / 7) % roll); REQUIRE(v.week == 3 * roll + (w / 7) % roll, "setModWeek"); v.setEpochModWeek(w / roll, w % roll); REQUIRE(v.week == w && v.sow == sow, "setEpochModWeek");
      // any day of the week names a year which must lead from the truncated week back to the full one
   long day = epochMJD + 2400001 + 7 * w + g.range(0, 6); if (day > 3442447) day = 3442447; gp::YMD c = gp::calendar()[day];
   if (c.y >= gp::calendar()[epochMJD + 2400001].y + (epochMJD == 44244 ? 1 : 0) && c.y < 4700)
   {
      long ep0 = g.range(0, top / roll); W u((unsigned)(ep0 * roll + w % roll), sow); u.adjustToYear(c.y);
      REQUIRE(u.week == w, "truncated week " << w % roll << " in year " << c.y << " became " << u.week << " expected " << w);
      if (w >= roll) g.nontrivial();
   }
}
PROP(modular_weeks, 400000, 3000000, "a full week beyond the first rollover, recovered from its year")
{
   switch (g.below(5))
   {
      case 0: modular<GPSWeekSecond>(g, 10, 44244, "GPS"); break;
      case 1: modular<GALWeekSecond>(g, 12, 51412, "GAL"); break;
      case 2: modular<BDSWeekSecond>(g, 13, 53736, "BDS"); break;
      case 3: modular<QZSWeekSecond>(g, 16, 44244, "QZS"); break;
      default: modular<IRNWeekSecond>(g, 10, 51412, "IRN");
   }
}
PROP(rollover_adjustment, 300000, 2000000, "the adjusted week differs from the given one")
{
   long ref = g.range(1, MAXW), w; 
   switch (g.below(3)) { case 0: w = g.range(0, 1023); break; case 1: w = ref + g.rangeO(-3, 3, 0) * 1024 + g.pick<long>({0, 1, -1, 511, 512, 513, -511, -512, -513}); break; default: w = g.rangeO(-3000, MAXW, 0); }
   g << "week " << w << " reference " << ref; long r0 = ref, got = timeAdjustWeekRollover(w, ref);
   REQUIRE(ref == r0, "a given reference must be kept"); REQUIRE((got - w) % 1024 == 0, "residue changed: " << got); REQUIRE(std::labs(got - ref) <= 512, "week " << got << " is not within half an epoch of " << ref);
   if (std::labs(w - ref) <= 512) REQUIRE(got == w, "a week within half an epoch is kept"); if (got != w) g.nontrivial();
   long zero = 0; long q = timeAdjustWeekRollover(w, zero); REQUIRE(zero > 2000 && (q - w) % 1024 == 0 && std::labs(q - zero) <= 512, "reference from the system clock");
}
PBT_MAIN
