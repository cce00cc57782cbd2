// T03: printTime -> scanTime / mixedScanTime / TimeTag::scanf round trips over a grammar of formats.
#include "timegen.hpp"
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "JulianDate.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
using namespace gpstk; using namespace tg; using pbt::G; using std::string;
static const char* MON[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};

// field values computed from the instant alone; us = microseconds of the second (0 when the format cannot carry them)
struct Val { bool isInt, isStr; unsigned long u; long double f; string s; };
static Val field(char id, const Inst& i, long us, TimeSystem ts)
{
   const gp::YMD& c = gp::calendar()[i.jd];
   auto I = [](long v) { return Val{true, false, (unsigned long)v, 0, ""}; };
   auto F = [](long double v) { return Val{false, false, 0, v, ""}; };
   auto S = [](string v) { return Val{false, true, 0, 0, v}; };
   long double fs = us / 1e6L, sod = i.sod + fs; long gd = i.jd - 2444245, ed = i.jd - 2451413, bd = i.jd - 2453737, ud = i.jd - 2440588;
   long z = (long)(((gd % 7) * 86400 + i.sod) * 1000000L + us) / 1500000;
   switch (id)
   {
      case 'Y': return I(c.y); case 'y': return I(c.y % 100); case 'm': return I(c.m); case 'b': return S(string(MON[c.m - 1], 3)); case 'B': return S(MON[c.m - 1]); case 'd': return I(c.d);
      case 'H': return I(i.sod / 3600); case 'M': return I(i.sod % 3600 / 60); case 'S': return I(i.sod % 60); case 'f': return F(i.sod % 60 + fs); case 'j': return I(c.doy); case 's': return F(sod);
      case 'E': return I(gd / 7 / 1024); case 'F': return I(gd / 7); case 'G': return I(gd / 7 % 1024); case 'w': return I(gd % 7); case 'g': return F((gd % 7) * 86400 + sod);
      case 'z': case 'Z': return I(z); case 'c': return I((gd / 7 % 1024) << 19 | z); case 'C': return I((gd / 7) << 19 | z);
      case 'T': return I(ed / 7 / 4096); case 'L': return I(ed / 7); case 'l': return I(ed / 7 % 4096);
      case 'X': return I(ed / 7 / 1024); case 'O': return I(ed / 7); case 'o': return I(ed / 7 % 1024);
      case 'R': return I(bd / 7 / 8192); case 'D': return I(bd / 7); case 'e': return I(bd / 7 % 8192);
      case 'V': return I(gd / 7 / 65536); case 'h': return I(gd / 7); case 'i': return I(gd / 7 % 65536);
      case 'Q': return F(i.jd - 2400001 + sod / 86400); case 'J': return F(i.jd - 0.5L + sod / 86400);
      case 'U': case 'W': case 'K': return I(ud * 86400 + i.sod); case 'u': return I(us); case 'N': return I(us * 1000); case 'P': return S(StringUtils::asString(ts));
   }
   return I(0);
}
static int natural(char id)   // digits that hold every value used here
{
   switch (id) { case 'Y': case 'F': case 'L': case 'O': case 'D': case 'h': case 'G': case 'l': case 'o': case 'e': case 'i': return 4; case 'y': case 'm': case 'd': case 'H': case 'M': case 'S': return 2; case 'j': return 3; case 'w': return 1; case 'E': case 'T': case 'X': case 'R': case 'V': return 2;
      case 'z': case 'Z': case 'u': return 6; case 'c': return 9; case 'C': return 10; case 'U': case 'W': case 'K': return 10; case 'N': return 9; }
   return 0;
}
struct Fam { const char* name; std::vector<string> alts; };   // every string lists the ids of one complete format
static string genIds(G& g, int fam, bool mixed, bool& sub, double& unit)
{
   sub = true; unit = 0; string y = g.oneIn(4) ? "y" : "Y";
   auto tod = [&]() -> string { switch (g.below(4)) { case 0: return "s"; case 1: return "HMf"; case 2: sub = false; return "HMS"; default: return "HMf"; } };
   switch (fam)
   {
      case 0: { string m = g.pick<string>({"m", "b", "B"}); return y + m + "d" + (g.oneIn(8) ? (unit = 86400, sub = false, string()) : tod()); }
      case 1: return y + "j" + (g.oneIn(8) ? (unit = 86400, sub = false, string()) : tod());
      case 2: case 3: case 4: case 5: case 6:
      {
         static const char* full[] = {"F", "L", "D", "h", "O"}; static const char* split[] = {"EG", "Tl", "Re", "Vi", "Xo"};
         string w = mixed || g.flag() ? full[fam - 2] : split[fam - 2];
         switch (g.below(6)) { case 0: return w + "ws"; case 1: return w + "wHMf"; case 2: sub = false; return w + "wHMS"; case 3: unit = 86400; sub = false; return w + "w"; case 4: return w + "wg"; default: return w + "g"; }
      }
      case 7: sub = false; unit = 1.5; if (mixed) return g.pick<string>({"C", "FZ", "Fz", "wFZ"}); return g.pick<string>({"C", "FZ", "Fz", "Fc", "Ec", "EGZ", "EGz", "FwZ", "Cw"});
      case 8: return "Q"; case 9: return "J";
      case 10: return g.flag() ? "Uu" : (sub = false, "U"); case 11: return g.flag() ? "WN" : (sub = false, "W"); default: sub = false; return "K";
   }
}
static const char* famName[] = {"civil", "ordinal", "gps-week", "gal-week", "bds-week", "qzs-week", "irn-week", "zcount", "mjd", "jd", "unix", "posix", "ansi"};

static void roundTrip(G& g, bool mixed)
{
   int fam = g.below(13); bool sub; double unit; string ids = genIds(g, fam, mixed, sub, unit);
   long lo, hi;
   if (fam == 0 || fam == 1) { bool two = ids.find('y') != string::npos; lo = two ? 2440223 : 2086303 + 1000 * 365 - 1000 * 365; hi = two ? 2476747 : 3442447; if (!two) lo = 1721424; /* 1 Jan 1 */ }
   else if (fam == 2 || fam == 5 || fam == 7) { lo = 2444245; hi = 2501000; }
   else if (fam == 3 || fam == 6) { lo = 2451413; hi = 2509000; }
   else if (fam == 4) { lo = 2453737; hi = 2511000; }
   else if (fam >= 10) { lo = 2440588; hi = 2465442; } else { lo = fam == 8 ? 2400001 : 1; hi = 3442447; }   // a negative MJD cannot be told from a '-' separator
   if (fam == 10 && !mixed && g.oneIn(4)) hi = 2500000;
   if (mixed) { if (lo < 2086303) lo = 2086303; }   // four digit years only
   Inst i = genInst(g, lo, hi);
   int p = sub ? g.range(0, 6) : 0; long us = 0;
   if (sub) { long k = 1; for (int j = 0; j < 6 - p; j++) k *= 10; us = g.range(0, 1000000 / k - 1) * k; if (p > 0 && g.oneIn(4)) us = 1000000 - k; }
   if (unit == 86400) { i.sod = 0; us = 0; }
   if (unit == 1.5) { long h = (i.sod * 2) / 3; i.sod = h * 3 / 2; us = (h & 1) ? 500000 : 0; }
   i.frac = us / 1e6; 
   TimeSystem ts = g.pick(gp::systems()); 
   CommonTime t = make(i, ts);
   // format
   std::vector<char> v(ids.begin(), ids.end()); if (!mixed || fam == 0 || fam == 1) { if (g.flag()) v.push_back('P'); }
   bool hasP = v.size() != ids.size(); if (g.flag()) g.shuffle(v);
   string fmt, want; bool packed = g.oneIn(3); bool anyWidth = false;
   static const std::vector<string> lits{"", "at ", "<", "day:", "[[ ", "t=T"}; string pre = g.pick(lits); fmt += pre; want += pre;
   for (size_t k = 0; k < v.size(); k++)
   {
      char id = v[k]; Val x = field(id, i, us, ts); bool last = k + 1 == v.size(); char b[128]; string spec;
      bool nodelim = packed && !last && !x.isStr;
      bool width = nodelim || g.oneIn(3);
      if (x.isStr) { spec = string("%") + id; snprintf(b, sizeof b, "%s", x.s.c_str()); }
      else if (x.isInt) { int w = natural(id); if (width) { anyWidth = true; bool zero = g.flag(); w += g.below(2) * g.below(3); if (id == 'y') { w = 2; zero = true; } spec = pbt::strf("%%%s%d%c", zero ? "0" : "", w, id); snprintf(b, sizeof b, zero ? "%0*lu" : "%*lu", w, x.u); } else { spec = string("%") + id; snprintf(b, sizeof b, "%lu", x.u); } }
      else
      {
         int prec = (id == 'Q' || id == 'J') ? g.range(9, 12) : g.range(p, 7); int w = (id == 'f' ? 3 : id == 's' ? 6 : id == 'g' ? 7 : 9) + prec;
         if (width) { anyWidth = true; bool zero = g.flag(); spec = pbt::strf("%%%s%d.%d%c", zero ? "0" : "", w, prec, id); snprintf(b, sizeof b, zero ? "%0*.*Lf" : "%*.*Lf", w, prec, x.f); }
         else if (id != 'Q' && id != 'J' && g.flag()) { spec = string("%") + id; snprintf(b, sizeof b, "%Lf", x.f); }
         else { spec = pbt::strf("%%.%d%c", prec, id); snprintf(b, sizeof b, "%.*Lf", prec, x.f); }
         if (id == 'Q' || id == 'J') { string o = printTime(t, spec); if (o.size() == strlen(b) && fabsl(strtold(o.c_str(), 0) - x.f) <= 0.6L * powl(10, -prec)) strcpy(b, o.c_str()); }   // either neighbour of a tie
      }
      fmt += spec; want += b;
      if (!last && !nodelim) { string d(1, g.pick(std::vector<char>{' ', '/', ':', ',', ';', '_', '|', '-', '='})); fmt += d; want += d; }
   }
   if (v.back() != 'P' && g.oneIn(4)) { fmt += " end"; want += " end"; }
   g << famName[fam] << " fmt " << pbt::q(fmt) << " text " << pbt::q(want) << " " << str(i) << " " << StringUtils::asString(ts);
   g.label(famName[fam]);
   string got = printTime(t, fmt);
   REQUIRE(got == want, "printTime(" << pbt::q(fmt) << ") gave " << pbt::q(got) << " expected " << pbt::q(want));
   CommonTime back(mixed ? CommonTime() : (g.flag() ? CommonTime() : make({2451545, 777, 0.5}, TimeSystem::GPS)));
   if (mixed) mixedScanTime(back, got, fmt); else scanTime(back, got, fmt);
   double tol = fam == 8 || fam == 9 ? 6e-5 : 1e-9;
   double d = (double)(secs(back) - secs(i));
   REQUIRE(std::fabs(d) <= tol, (mixed ? "mixedScanTime(" : "scanTime(") << pbt::q(got) << ", " << pbt::q(fmt) << ") is off by " << pbt::d2s(d) << " s: " << gp::show(back));
   if (hasP) REQUIRE(back.getTimeSystem() == ts, "time system " << StringUtils::asString(back.getTimeSystem()) << " from " << pbt::q(got) << " with " << pbt::q(fmt));
   if (!mixed && !hasP && (fam == 0 || fam == 1)) {}
   g.nontrivial(v.size() >= 3 && (i.sod != 0 || us != 0 || anyWidth));
}
PROP(scan_what_was_printed, 200000, 3000000, "format of at least three fields and a time that is not midnight or a field with a width") { roundTrip(g, false); }
PROP(mixed_scan_what_was_printed, 120000, 2000000, "format of at least three fields and a time that is not midnight or a field with a width") { roundTrip(g, true); }

// each tag prints with its own default format and scans it back, through the class and through scanTime(TimeTag&)
template <class T> void own(G& g, const CommonTime& t, double tol, const char* name)
{
   T a(t); string s = a.asString(); std::ostringstream o; o << a; REQ_EQ(o.str(), s, ""); REQ_EQ(printAs<T>(t, a.getDefaultFormat()), s, "");
   g << name << " " << s; g.label(name);
   T b, c; b.scanf(s, b.getDefaultFormat()); scanTime(c, s, c.getDefaultFormat());
   REQUIRE(b.getTimeSystem() == t.getTimeSystem() && c.getTimeSystem() == t.getTimeSystem(), name << " lost the time system reading " << pbt::q(s));
   REQ_NEAR((double)(secs(b.convertToCommonTime()) - secs(t)), 0, tol, name << " scanf " << pbt::q(s)); REQ_NEAR((double)(secs(c.convertToCommonTime()) - secs(t)), 0, tol, name << " scanTime " << pbt::q(s));
   REQ_EQ(b.asString(), s, ""); REQUIRE(willPrintAs<T>(a.getDefaultFormat()), "");
}
PROP(own_format, 60000, 1500000, "instant not at midnight")
{
   Inst i = genInst(g, 2453737, 2465441); i.frac = 0; TimeSystem ts = g.pick(gp::systems()); int k = g.below(12); bool micro = k != 0 && k != 6 && k != 7; if (micro) i.frac = g.range(0, 999999) / 1e6;
   if (k == 7) { i.sod = i.sod / 3 * 3; }
   CommonTime t = make(i, ts);
   switch (k)
   {
      case 0: own<CivilTime>(g, t, 1e-9, "CivilTime"); break; case 1: own<YDSTime>(g, t, 1e-9, "YDSTime"); break; case 2: own<MJD>(g, t, 6e-5, "MJD"); break; case 3: own<JulianDate>(g, t, 0.1, "JulianDate"); break;
      case 4: own<UnixTime>(g, t, 1e-9, "UnixTime"); break; case 5: own<PosixTime>(g, t, 1e-9, "PosixTime"); break; case 6: own<ANSITime>(g, t, 1e-9, "ANSITime"); break; case 7: own<GPSWeekZcount>(g, t, 1e-9, "GPSWeekZcount"); break;
      case 8: own<GPSWeekSecond>(g, t, 1e-9, "GPSWeekSecond"); break; case 9: own<GALWeekSecond>(g, t, 1e-9, "GALWeekSecond"); break; case 10: if (g.flag()) own<BDSWeekSecond>(g, t, 1e-9, "BDSWeekSecond"); else own<IRNWeekSecond>(g, t, 1e-9, "IRNWeekSecond"); break;
      default: own<QZSWeekSecond>(g, t, 1e-9, "QZSWeekSecond");
   }
   g.nontrivial(i.sod != 0);
}
PBT_MAIN
