// F03: SP3 (a, b, c, d), RINEX met, SEM and Yuma files: the text is the one of the format documents, and reading gives back what was written.
#include "gp.hpp"
#include "CivilTime.hpp"
#include "GPSWeekSecond.hpp"
#include "SP3Stream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "RinexMetStream.hpp"
#include "RinexMetHeader.hpp"
#include "RinexMetData.hpp"
#include "SEMStream.hpp"
#include "SEMHeader.hpp"
#include "SEMData.hpp"
#include "YumaStream.hpp"
#include "YumaHeader.hpp"
#include "YumaData.hpp"
#include "AlmOrbit.hpp"
#include "OrbAlmGen.hpp"
#include "GNSSconstants.hpp"
#include <unistd.h>
using namespace gpstk; using pbt::G; using pbt::q; using pbt::strf; using std::string; using std::vector; using std::map; using std::set; using std::pair;

static string rj(string s, int w) { return s.size() >= (size_t)w ? s : string(w - s.size(), ' ') + s; }
static string lj(string s, int w) { return s.size() >= (size_t)w ? s : s + string(w - s.size(), ' '); }
static string strip(string s) { size_t a = s.find_first_not_of(' '); return a == string::npos ? "" : s.substr(a, s.find_last_not_of(' ') - a + 1); }
static vector<string> lines(const string& s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static const char* const alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_+.-";
static const char* const printable = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -_/.,:()#+*";
static string word(G& g, int lo, int hi) { string s = g.str(alnum, lo, hi); return s; }
static string phrase(G& g, int hi) { return strip(g.str(printable, 0, g.flag(0.2) ? hi : std::min(hi, 14))); }
   // days from 6 Jan 1980 to a civil date
static long dayNo(int y, int m, int d) { long n = 0; for (int k = 1980; k < y; ++k) n += gp::leap(k, true) ? 366 : 365; for (int k = 1; k < m; ++k) n += gp::mdays(y, k, true); return n + d - 6; }
struct Ep { int y, mo, d, h, mi; long long s8; CommonTime t(TimeSystem ts) const { return CivilTime(y, mo, d, h, mi, s8 / 1e8, ts).convertToCommonTime(); } string txt() const { return strf("%4d %2d %2d %2d %2d %2lld.%08lld", y, mo, d, h, mi, s8 / 100000000, s8 % 100000000); } };
static Ep genEp(G& g)
{
   Ep e; e.y = g.range(1980, 2099); e.mo = g.range(1, 12); e.d = g.range(1, gp::mdays(e.y, e.mo, true)); if (e.y == 1980 && e.mo == 1 && e.d < 6) e.d = 6; e.h = g.range(0, 23); e.mi = g.flag(0.5) ? g.range(0, 3) * 15 : g.range(0, 59);
   e.s8 = g.flag(0.5) ? 0 : g.flag(0.5) ? g.range(0, 59) * 100000000LL : g.flag(0.5) ? g.range(0, 5999) * 1000000LL : (long long)g.range(0, 5999) * 1000000LL + g.range(0, 999999); if (g.flag(0.1)) { e.h = 23; e.mi = 59; e.s8 = 5999999999LL - g.range(0, 10000); } return e;
}
static double secDiff(const CommonTime& a, const CommonTime& b) { CommonTime x(a), y(b); x.setTimeSystem(TimeSystem::Any); y.setTimeSystem(TimeSystem::Any); return x - y; }

// ---------------------------------------------------------------- SP3
struct PV { char type; SatID sat; long long v[4]; int sig[4]; bool fl[4]; bool corr, ev; unsigned sd[4]; int co[6]; Ep ep; };
struct Epoch { Ep ep; vector<PV> r; };
struct Sp3 { char ver; SP3Header h; Ep t0; vector<Epoch> e; string dataUsed, coord, orbit, agency; long long intv8; long basePV7, baseClk9; };
static string satTxt(const SatID& s, char ver) { if (ver == 'a') return strf("%3d", s.id); char c = s.system == SatelliteSystem::GPS ? 'G' : s.system == SatelliteSystem::Glonass ? 'R' : s.system == SatelliteSystem::Galileo ? 'E' : s.system == SatelliteSystem::LEO ? 'L' : s.system == SatelliteSystem::QZSS ? 'J' : 'C'; return strf("%c%02d", c, c == 'J' ? s.id - 192 : s.id); }
static SatID genSat(G& g, char ver) { if (ver == 'a') return SatID(g.range(1, 32), SatelliteSystem::GPS); switch (g.weighted({4, 2, 2, 1, 2, 1})) { case 0: return SatID(g.range(1, 32), SatelliteSystem::GPS); case 1: return SatID(g.range(1, 27), SatelliteSystem::Glonass); case 2: return SatID(g.range(1, 36), SatelliteSystem::Galileo); case 3: return SatID(g.range(1, 99), SatelliteSystem::LEO); case 4: return SatID(g.range(1, 63), SatelliteSystem::BeiDou); default: return SatID(g.range(193, 201), SatelliteSystem::QZSS); } }
static long long coord(G& g, int big) { switch (g.range(0, 5)) { case 0: return 0; case 1: return g.range(-50, 50); case 2: return 999999999999LL; default: { long long lim = 1; int n = g.range(3, big); for (int i = 0; i < n; ++i) lim *= 10; long long x = (long long)(g.bits64() % (unsigned long long)lim); return g.flag() ? x : -x; } } }
static Sp3 genSp3(G& g)
{
   Sp3 f; f.ver = "abcd"[g.below(4)]; SP3Header& h = f.h; h.version = f.ver == 'a' ? SP3Header::SP3a : f.ver == 'b' ? SP3Header::SP3b : f.ver == 'c' ? SP3Header::SP3c : SP3Header::SP3d;
   h.containsVelocity = g.flag(); h.allowSP3aEvents = f.ver == 'a' && g.flag(); f.t0 = genEp(g); h.time = f.t0.t(TimeSystem::Any); f.intv8 = g.flag(0.7) ? g.pick({900LL, 300LL, 30LL, 1LL, 86400LL}) * 100000000LL : (long long)(g.bits64() % 9999999999999ULL); h.epochInterval = f.intv8 / 1e8; h.numberOfEpochs = g.flag(0.8) ? g.range(0, 999) : g.range(0, 9999999);
   f.dataUsed = word(g, 1, 5); f.coord = word(g, 1, 5); f.orbit = word(g, 1, 3); f.agency = word(g, 1, 4); h.dataUsed = f.dataUsed; h.coordSystem = f.coord; h.orbitType = f.orbit; h.agency = f.agency;
   h.system = SP3SatID(1, f.ver == 'a' ? SatelliteSystem::GPS : g.pick({SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo, SatelliteSystem::LEO, SatelliteSystem::Mixed}));
   if (f.ver != 'a') h.timeSystem = f.ver == 'b' ? g.pick({TimeSystem::GPS, TimeSystem::UTC}) : g.pick({TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::TAI, TimeSystem::UTC, TimeSystem::QZS});
   f.basePV7 = g.range(0, 99) * 10000000L + g.range(0, 9999999); f.baseClk9 = g.range(0, 99) * 1000000000L + g.range(0, 999999999); if (f.ver >= 'c') { h.basePV = f.basePV7 / 1e7; h.baseClk = f.baseClk9 / 1e9; }
   int ns = g.flag(0.1) ? g.range(0, 2) : g.flag(0.5) ? g.range(1, 20) : f.ver == 'd' ? g.range(60, 140) : g.range(15, 85); if (g.flag(0.2)) ns = g.pick({17, 18, 34, 51, 85, f.ver == 'd' ? 86 : 16, f.ver == 'd' ? 102 : 33}); for (int i = 0; i < ns; ++i) h.satList[SP3SatID(genSat(g, f.ver))] = g.range(0, 99);
   int nc = g.flag(0.6) ? 4 : g.range(0, 7); for (int i = 0; i < nc; ++i) { string c = g.flag(0.1) ? string() : g.flag(0.1) ? g.str(alnum, f.ver == 'd' ? 77 : 57, f.ver == 'd' ? 77 : 57) : phrase(g, f.ver == 'd' ? 77 : 57); h.comments.push_back(c); }
   int ne = g.range(0, 4); for (int i = 0; i < ne; ++i)
   {
      Epoch e; e.ep = genEp(g); int n = g.range(1, 5); for (int k = 0; k < n; ++k)
      {
         PV p; p.type = 'P'; p.sat = genSat(g, f.ver); p.ep = e.ep;
         for (int rep = 0; rep < (h.containsVelocity ? 2 : 1); ++rep)
         {
            p.type = rep ? 'V' : 'P'; for (auto& v : p.v) { v = coord(g, 13); if (v < -999999999999LL) v = -999999999999LL; } for (int j = 0; j < 4; ++j) p.sig[j] = g.range(g.flag(0.2) ? -1 : 0, j == 3 ? 999 : 99); for (auto& b : p.fl) b = rep ? false : g.flag(); p.ev = f.ver == 'a' && h.allowSP3aEvents && !rep && g.flag(); p.corr = f.ver >= 'c' && g.flag(0.4);
            for (int j = 0; j < 4; ++j) p.sd[j] = g.flag(0.2) ? (j == 3 ? 9999999 : 9999) : g.range(0, j == 3 ? 9999999 : 9999); for (auto& c : p.co) c = g.flag(0.2) ? g.pick({99999999, -9999999, 0}) : g.range(-9999999, 9999999); e.r.push_back(p);
         }
      }
      f.e.push_back(e);
   }
   return f;
}
static SP3Data toData(const PV& p, const Sp3& f)
{
   SP3Data d; d.RecType = p.type; d.sat = p.sat; d.time = p.ep.t(f.h.timeSystem); for (int j = 0; j < 3; ++j) d.x[j] = p.v[j] / 1e6; d.clk = p.v[3] / 1e6; for (int j = 0; j < 4; ++j) { d.sig[j] = p.sig[j]; d.sdev[j] = p.sd[j]; } d.clockEventFlag = p.fl[0]; d.clockPredFlag = p.fl[1]; d.orbitManeuverFlag = p.fl[2]; d.orbitPredFlag = p.fl[3]; d.correlationFlag = p.corr; d.eventFlag = p.ev; for (int j = 0; j < 6; ++j) d.correlation[j] = p.co[j]; return d;
}
static string writeSp3(const string& fn, const Sp3& f)
{
   try
   {
      SP3Stream out(fn.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); SP3Header h(f.h); out << h;
      for (auto& e : f.e) { SP3Data d; d.RecType = '*'; d.time = e.ep.t(f.h.timeSystem); out << d; for (auto& p : e.r) { SP3Data x = toData(p, f); out << x; } }
   } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static string fix6(long long v) { return rj(strf("%s%lld.%06lld", v < 0 ? "-" : "", std::llabs(v) / 1000000, std::llabs(v) % 1000000), 14); }
   // the text by the columns of the SP3 documents
static vector<string> sp3Text(const Sp3& f)
{
   vector<string> o; const SP3Header& h = f.h; bool cd = f.ver >= 'c';
   o.push_back(strf("#%c%c", f.ver, h.containsVelocity ? 'V' : 'P') + f.t0.txt() + strf(" %7d ", h.numberOfEpochs) + rj(f.dataUsed, 5) + " " + rj(f.coord, 5) + " " + rj(f.orbit, 3) + " " + rj(f.agency, 4));
   long dn = dayNo(f.t0.y, f.t0.mo, f.t0.d); long long sod8 = (f.t0.h * 3600LL + f.t0.mi * 60LL) * 100000000LL + f.t0.s8, sow8 = (dn % 7) * 8640000000000LL + sod8;
   o.push_back("## " + strf("%4ld ", dn / 7) + rj(strf("%lld.%08lld", sow8 / 100000000, sow8 % 100000000), 15) + " " + rj(strf("%lld.%08lld", f.intv8 / 100000000, f.intv8 % 100000000), 14) + strf(" %5ld ", dn + 44244) + strf("%.13f", sod8 / 8640000000000.0));
   vector<pair<string, int>> sv; for (auto& s : h.satList) sv.push_back({satTxt(s.first, f.ver), s.second}); size_t nl = f.ver == 'd' ? std::max<size_t>(5, (sv.size() + 16) / 17) : 5;
   for (int pass = 0; pass < 2; ++pass) for (size_t l = 0; l < nl; ++l) { string s = pass ? "++       " : l ? "+        " : strf("+  %3zu   ", sv.size()); for (size_t k = 17 * l; k < 17 * l + 17; ++k) s += k < sv.size() ? (pass ? strf("%3d", sv[k].second) : rj(sv[k].first, 3)) : "  0"; o.push_back(s); }
   static const map<int, string> tsn{{(int)TimeSystem::GPS, "GPS"}, {(int)TimeSystem::GLO, "GLO"}, {(int)TimeSystem::GAL, "GAL"}, {(int)TimeSystem::TAI, "TAI"}, {(int)TimeSystem::UTC, "UTC"}, {(int)TimeSystem::QZS, "QZS"}}; char sc = h.system.system == SatelliteSystem::GPS ? 'G' : h.system.system == SatelliteSystem::Glonass ? 'R' : h.system.system == SatelliteSystem::Galileo ? 'E' : h.system.system == SatelliteSystem::LEO ? 'L' : 'M';
   o.push_back(f.ver == 'a' ? "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc" : strf("%%c %c  cc ", sc) + tsn.at((int)h.timeSystem) + " ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"); o.push_back("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
   o.push_back("%f " + (cd ? rj(strf("%ld.%07ld", f.basePV7 / 10000000, f.basePV7 % 10000000), 10) : string(" 0.0000000")) + " " + (cd ? rj(strf("%ld.%09ld", f.baseClk9 / 1000000000, f.baseClk9 % 1000000000), 12) : string(" 0.000000000")) + "  0.00000000000  0.000000000000000"); o.push_back("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000"); for (int i = 0; i < 2; ++i) o.push_back("%i    0    0    0    0      0      0      0      0         0");
   int cw = f.ver == 'd' ? 77 : 57; for (size_t i = 0; i < std::max<size_t>(4, h.comments.size()); ++i) o.push_back("/* " + (i < h.comments.size() ? lj(h.comments[i], cw) : string(cw, 'C')));
   for (auto& e : f.e)
   {
      o.push_back("*  " + e.ep.txt()); for (auto& p : e.r)
      {
         string l = string(1, p.type) + satTxt(p.sat, f.ver); for (auto v : p.v) l += fix6(v); if (p.ev) l += string(14, ' ') + "E";
         if (cd) { l += strf("%3d%3d%3d%4d", p.sig[0], p.sig[1], p.sig[2], p.sig[3]); if (p.type == 'P') l += string(" ") + (p.fl[0] ? "E" : " ") + (p.fl[1] ? "P" : " ") + "  " + (p.fl[2] ? "M" : " ") + (p.fl[3] ? "P" : " "); }
         o.push_back(l); if (p.corr) { string c = strf("E%c  ", p.type) + strf("%4u %4u %4u %7u", p.sd[0], p.sd[1], p.sd[2], p.sd[3]); for (int x : p.co) c += strf(" %8d", x); o.push_back(c); }
      }
   }
   o.push_back("EOF"); return o;
}
static string rtrim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static string readSp3(const string& fn, SP3Header& h, vector<SP3Data>& d, bool reuse, vector<string>* warn = 0)
{
   try { SP3Stream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> h; SP3Data r; try { while (in >> r) { d.push_back(r); if (!reuse) r = SP3Data(); } } catch (EndOfFile&) { } if (!in.eof()) return "stopped before the end of the file"; if (warn) *warn = in.warnings; } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
   // without exceptions: the usual reading loop
static bool readSp3Quiet(const string& fn, SP3Header& h, vector<SP3Data>& d) { SP3Stream in(fn.c_str(), std::ios::in); in >> h; if (!in) return false; SP3Data r; while (in >> r) d.push_back(r); return in.eof(); }
static void checkSp3(const Sp3& f, const SP3Header& h, const vector<SP3Data>& d, const string& w)
{
   bool cd = f.ver >= 'c'; REQUIRE(h.version == f.h.version, w << ": version " << h.versionString()); REQUIRE(h.containsVelocity == f.h.containsVelocity, w << ": velocity flag"); REQUIRE(std::fabs(secDiff(h.time, f.h.time)) < 6e-9, w << ": first epoch " << h.time << " for " << f.h.time); REQUIRE(std::fabs(h.epochInterval - f.h.epochInterval) < 6e-9, w << ": interval " << h.epochInterval); REQUIRE(h.numberOfEpochs == f.h.numberOfEpochs, w << ": number of epochs " << h.numberOfEpochs);
   REQUIRE(strip(h.dataUsed) == f.dataUsed && strip(h.coordSystem) == f.coord && strip(h.orbitType) == f.orbit && strip(h.agency) == f.agency, w << ": words " << q(h.dataUsed) << q(h.coordSystem) << q(h.orbitType) << q(h.agency));
   REQUIRE(h.satList == f.h.satList, w << ": " << h.satList.size() << " satellites for " << f.h.satList.size()); if (f.ver != 'a') { REQUIRE(h.timeSystem == f.h.timeSystem, w << ": time system " << h.timeSystemString()); REQUIRE(h.system.system == f.h.system.system, w << ": file system " << h.system.systemString()); } if (cd) { REQUIRE(h.basePV == f.h.basePV && h.baseClk == f.h.baseClk, w << ": bases " << h.basePV << " " << h.baseClk); }
   vector<string> c = f.h.comments; while (c.size() < 4) c.push_back(string(f.ver == 'd' ? 77 : 57, 'C')); REQUIRE(h.comments.size() == c.size(), w << ": " << h.comments.size() << " comments for " << c.size()); for (size_t i = 0; i < c.size(); ++i) REQUIRE(rtrim(h.comments[i]) == rtrim(c[i]), w << ": comment " << q(h.comments[i]) << " for " << q(c[i]));
   size_t k = 0; for (auto& e : f.e) { REQUIRE(k < d.size(), w << ": only " << d.size() << " records were read"); { const SP3Data& r = d[k++]; REQUIRE(r.RecType == '*' && r.sat == SatID() && std::fabs(secDiff(r.time, e.ep.t(TimeSystem::Any))) < 6e-9 && r.time.getTimeSystem() == f.h.timeSystem && !r.correlationFlag, w << ": epoch record " << k << " of type " << r.RecType << " at " << r.time << " for " << e.ep.txt()); } for (auto& p : e.r)
   {
      REQUIRE(k < d.size(), w << ": only " << d.size() << " records were read"); const SP3Data& r = d[k++]; string at = w + strf(": record %zu", k);
      REQUIRE(r.RecType == p.type, at << " of type " << r.RecType); REQUIRE(r.sat == p.sat, at << " of " << r.sat << " for " << p.sat); REQUIRE(std::fabs(secDiff(r.time, p.ep.t(TimeSystem::Any))) < 6e-9, at << " at " << r.time << " for " << p.ep.txt()); REQUIRE(r.time.getTimeSystem() == f.h.timeSystem, at << ": time system");
      for (int j = 0; j < 3; ++j) REQUIRE(r.x[j] == p.v[j] / 1e6, at << ": component " << j << " is " << pbt::d2s(r.x[j]) << " for " << p.v[j]); REQUIRE(r.clk == p.v[3] / 1e6, at << ": clock " << pbt::d2s(r.clk) << " for " << p.v[3]); if (f.ver == 'a' && p.type == 'P') REQUIRE(r.eventFlag == p.ev, at << ": event flag");
      if (cd) { for (int j = 0; j < 4; ++j) REQUIRE(r.sig[j] == p.sig[j], at << ": sigma " << j << " is " << r.sig[j] << " for " << p.sig[j]); if (p.type == 'P') REQUIRE(r.clockEventFlag == p.fl[0] && r.clockPredFlag == p.fl[1] && r.orbitManeuverFlag == p.fl[2] && r.orbitPredFlag == p.fl[3], at << ": flags"); 
         REQUIRE(r.correlationFlag == p.corr, at << ": correlation flag"); for (int j = 0; j < 4; ++j) REQUIRE(r.sdev[j] == (p.corr ? p.sd[j] : 0u), at << ": deviation " << j << " is " << r.sdev[j]); for (int j = 0; j < 6; ++j) REQUIRE(r.correlation[j] == (p.corr ? p.co[j] : 0), at << ": correlation " << j << " is " << r.correlation[j]); }
   } }
   REQUIRE(k == d.size(), w << ": " << d.size() - k << " more records than written");
}
PROP(sp3, 12500, 480000, "at least two epochs and three satellites")
{
   Sp3 f = genSp3(g); size_t nr = 0; for (auto& e : f.e) nr += e.r.size(); if (f.e.size() >= 2 && f.h.satList.size() >= 3) g.nontrivial(); g.label(strf("version %c", f.ver)); g << "SP3" << f.ver << " " << f.h.satList.size() << " satellites " << f.e.size() << " epochs " << nr << " records\n";
   string fn = pbt::scratch() + "/a.sp3"; string w = writeSp3(fn, f); REQUIRE(w.empty(), "writing: " << w); string s = pbt::slurp(fn); vector<string> got = lines(s), want = sp3Text(f);
   for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) { REQUIRE(i < got.size(), "the file ends before line " << q(want[i])); REQUIRE(i < want.size(), "extra line " << q(got[i])); if (i == 1 && got[1].size() == want[1].size() && got[1].size() == 60 && got[1].substr(0, 45) == want[1].substr(0, 45) && std::fabs(strtod(got[1].substr(45).c_str(), 0) - strtod(want[1].substr(45).c_str(), 0)) < 2e-13) continue; REQUIRE(rtrim(got[i]) == rtrim(want[i]), "line " << i + 1 << " is\n" << q(got[i]) << " for\n" << q(want[i])); }
   SP3Header h; vector<SP3Data> d; vector<string> warn; if (g.flag(0.3)) { Sp3 o = genSp3(g); string fo = pbt::scratch() + "/o.sp3"; if (writeSp3(fo, o).empty()) { vector<SP3Data> t; readSp3(fo, h, t, false); } }
   bool reuse = g.flag(); w = readSp3(fn, h, d, reuse, &warn); REQUIRE(w.empty(), "reading: " << w); REQUIRE(warn.empty(), "a warning about a good file: " << warn[0]); checkSp3(f, h, d, "read"); vector<SP3Data> dq; SP3Header hq; REQUIRE(readSp3Quiet(fn, hq, dq), "the reading loop without exceptions fails"); checkSp3(f, hq, dq, "read without exceptions");
      // writing what was read gives the same file
   string fn2 = pbt::scratch() + "/b.sp3"; { SP3Stream out(fn2.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); h.allowSP3aEvents = f.h.allowSP3aEvents; out << h; size_t k = 0; (void)k; for (auto& x : d) out << x; } string s2 = pbt::slurp(fn2); REQUIRE(s2 == s, "writing what was read gives another file");
      // the end of file line may be missing, with or without the last newline
   if (nr) { string cut = s.substr(0, s.size() - 4); if (g.flag()) cut.pop_back(); pbt::spit(fn2, cut); SP3Header h3; vector<SP3Data> d3; w = readSp3(fn2, h3, d3, reuse); REQUIRE(w.empty(), "reading without EOF line: " << w); checkSp3(f, h3, d3, "without EOF line"); }
   if (g.flag(0.3)) { string t; for (auto& l : got) t += (l[0] == 'P' || l[0] == 'V' || l[0] == '*' ? rtrim(l) : l) + (g.flag() ? "   " : "") + (g.flag() ? "\r\n" : "\n"); pbt::spit(fn2, t); SP3Header h3; vector<SP3Data> d3; w = readSp3(fn2, h3, d3, reuse); REQUIRE(w.empty(), "reading with other line ends: " << w); }
}
PROP(sp3Refusals, 7500, 240000, "a file with at least one record")
{
   Sp3 f = genSp3(g); size_t nr = 0; for (auto& e : f.e) nr += e.r.size(); string fn = pbt::scratch() + "/a.sp3"; int what = g.below(9); g.label(strf("defect %d", what)); g << "SP3" << f.ver << " defect " << what << "\n"; string w;
   if (what == 0)      // not representable content
   {
      if (f.ver == 'a') { g.assume(nr > 0); f.e[0].r[0].sat = SatID(g.range(1, 20), g.pick({SatelliteSystem::Glonass, SatelliteSystem::Galileo})); } else f.h.timeSystem = f.ver == 'b' ? g.pick({TimeSystem::GLO, TimeSystem::TAI, TimeSystem::BDT, TimeSystem::Any}) : g.pick({TimeSystem::BDT, TimeSystem::Any, TimeSystem::Unknown, TimeSystem::TT});
      g.nontrivial(); REQUIRE(!writeSp3(fn, f).empty(), "content the version cannot hold was written"); return;
   }
   REQUIRE(writeSp3(fn, f).empty(), "writing"); vector<string> l = lines(pbt::slurp(fn)); size_t nh = l.size() - 1; while (nh > 0 && l[nh - 1].substr(0, 2) != "/*") --nh; bool need = what >= 5; if (need) g.assume(nr > 0); g.nontrivial();
   auto dataLine = [&](char c) { vector<size_t> v; for (size_t i = nh; i < l.size(); ++i) if (l[i][0] == c) v.push_back(i); return v[g.below(v.size())]; }; size_t before = 0; int wantBefore = -1; (void)before;
   switch (what)
   {
      case 1: l[0][1] = g.pick({'e', 'A', '1', ' '}); break;
      case 2: l[g.below(2)][0] = g.pick({' ', '$', '+'}); break;
      case 3: l[2 + g.below(5)][0] = g.pick({'*', 'P', '#'}); break;
      case 4: { size_t i = 7; while (l[i].substr(0, 2) != "++") ++i; i += g.below(5); l[i][1] = g.pick({' ', '-', '0'}); break; }
      case 5: { size_t i = dataLine('P'); l[i] = l[i].substr(0, g.range(3, f.ver >= 'c' ? 58 : 58)); break; }
      case 6: { size_t i = dataLine('P'); l[i][0] = g.pick({'Q', 'p', '0', ' '}); break; }
      case 7: { size_t i = dataLine('*'); l.insert(l.begin() + i, l[i]); break; }
      default: l.push_back(l[dataLine('P')]);
   }
   string t; for (auto& x : l) t += x + "\n"; pbt::spit(fn, t); SP3Header h; vector<SP3Data> d; w = readSp3(fn, h, d, g.flag()); REQUIRE(!w.empty(), "a defective file was read: defect " << what << " " << d.size() << " records");
   SP3Header h2; vector<SP3Data> d2; REQUIRE(!readSp3Quiet(fn, h2, d2) || what == 8, "a defective file was read to its end without a failure"); REQUIRE(d2.size() <= nr + f.e.size(), "more records than there are: " << d2.size() << " for " << nr); (void)wantBefore;
}

// ---------------------------------------------------------------- RINEX met
static const char* const mets[] = {"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"};
struct MetRec { Ep ep; map<int, long> v; };
struct Met { RinexMetHeader h; vector<MetRec> r; vector<int> obs; };
static Met genMet(G& g)
{
   Met f; RinexMetHeader& h = f.h; h.version = g.pick({2.0, 2.1, 2.11, 3.0, 3.01, 3.02}); h.fileType = g.pick<string>({"METEOROLOGICAL DATA", "M", "MET"}); h.fileProgram = phrase(g, 20); h.fileAgency = phrase(g, 20); h.markerName = phrase(g, 60); h.valid = RinexMetHeader::validVersion | RinexMetHeader::validRunBy | RinexMetHeader::validMarkerName | RinexMetHeader::validObsType | RinexMetHeader::validSensorType | RinexMetHeader::validSensorPos | RinexMetHeader::validEoH;
   if (g.flag()) { h.markerNumber = phrase(g, 20); h.valid |= RinexMetHeader::validMarkerNumber; } if (g.flag()) { int n = g.range(0, 4); for (int i = 0; i < n; ++i) h.commentList.push_back(phrase(g, 60)); h.valid |= RinexMetHeader::validComment; }
   vector<int> all{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; g.shuffle(all); int n = g.flag(0.4) ? g.range(8, 10) : g.range(1, 10); for (int i = 0; i < n; ++i) f.obs.push_back(all[i]); if (std::find(f.obs.begin(), f.obs.end(), 0) == f.obs.end()) f.obs[g.below(n)] = 0;
   for (int o : f.obs) h.obsTypeList.push_back(RinexMetHeader::RinexMetType(o)); vector<int> so = f.obs; g.shuffle(so);
   for (int o : so) { RinexMetHeader::sensorType t; t.model = phrase(g, 20); t.type = phrase(g, 20); t.accuracy = g.range(-9999, 99999) / 10.0; t.obsType = RinexMetHeader::RinexMetType(o); h.sensorTypeList.push_back(t); }
   for (int o : so) if (o == 0 || g.flag(0.3)) { RinexMetHeader::sensorPosType t; for (int k = 0; k < 3; ++k) t.position[k] = g.range(-999999999, 2000000000) / (g.flag() ? 1e2 : 1e4); t.height = g.range(-99999999, 99999999) / 1e4; t.obsType = RinexMetHeader::RinexMetType(o); h.sensorPosList.push_back(t); }
   int nr = g.range(0, 6); for (int i = 0; i < nr; ++i) { MetRec r; r.ep = genEp(g); r.ep.s8 = g.range(0, 59) * 100000000LL; if (h.version < 3.015 && r.ep.y > 2079) r.ep.y = 2079, r.ep.d = std::min(r.ep.d, 28); for (int o : f.obs) r.v[o] = g.flag(0.1) ? g.pick({-99999L, 999999L, 0L}) : g.range(-9999, 20000); f.r.push_back(r); }
   return f;
}
static string writeMet(const string& fn, const RinexMetHeader& h, const vector<RinexMetData>& d) { try { RinexMetStream out(fn.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); out << h; for (auto& r : d) out << r; } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return ""; }
static string readMet(const string& fn, RinexMetHeader& h, vector<RinexMetData>& d) { try { RinexMetStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> h; RinexMetData r; try { while (in >> r) d.push_back(r); } catch (EndOfFile&) { } if (!in.eof()) return "stopped before the end of the file"; } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return ""; }
static bool quietMet(const string& fn, vector<RinexMetData>& d) { RinexMetStream in(fn.c_str(), std::ios::in); RinexMetHeader h; in >> h; if (!in) return false; RinexMetData r; while (in >> r) d.push_back(r); return in.eof(); }
static vector<RinexMetData> metData(const Met& f) { vector<RinexMetData> v; for (auto& r : f.r) { RinexMetData d; d.time = r.ep.t(TimeSystem::Any); for (auto& x : r.v) d.data[RinexMetHeader::RinexMetType(x.first)] = x.second / 10.0; v.push_back(d); } return v; }
static string fix1(long v) { return rj(strf("%s%ld.%ld", v < 0 ? "-" : "", std::labs(v) / 10, std::labs(v) % 10), 7); }
PROP(met, 15000, 480000, "at least two records")
{
   Met f = genMet(g); if (f.r.size() >= 2) g.nontrivial(); g.label(f.obs.size() > 8 ? "continuation line" : "one line"); g << "met " << f.h.version << " " << f.obs.size() << " types " << f.r.size() << " records\n"; string fn = pbt::scratch() + "/a.met"; vector<RinexMetData> src = metData(f); string w = writeMet(fn, f.h, src); REQUIRE(w.empty(), "writing: " << w);
   string s = pbt::slurp(fn); vector<string> l = lines(s); size_t e = 0; while (e < l.size() && (l[e].size() < 73 || l[e].substr(60, 13) != "END OF HEADER")) ++e; REQUIRE(e < l.size(), "no END OF HEADER"); size_t k = e + 1;
   { vector<string> want; bool v302 = f.h.version > 3.015; for (auto& r : f.r) { string t = " " + (v302 ? strf("%04d", r.ep.y) : strf("%02d", r.ep.y % 100)) + strf(" %2d %2d %2d %2d %2lld", r.ep.mo, r.ep.d, r.ep.h, r.ep.mi, r.ep.s8 / 100000000); for (size_t i = 0; i < f.obs.size(); ++i) { if (i == 8) { want.push_back(t); t = "    "; } t += fix1(r.v.at(f.obs[i])); } want.push_back(t); } 
      for (auto& t : want) { REQUIRE(k < l.size(), "the file ends before " << q(t)); REQUIRE(rtrim(l[k]) == rtrim(t), "line " << q(l[k]) << " for " << q(t)); ++k; } REQUIRE(k == l.size(), "extra lines"); }
   { map<string, vector<string>> lab; for (size_t i = 0; i <= e; ++i) { REQUIRE(l[i].size() >= 60 && l[i].size() <= 80, "header line of " << l[i].size() << " columns " << q(l[i])); lab[strip(l[i].substr(60))].push_back(l[i].substr(0, 60)); } string ob; for (size_t i = 0; i < lab["# / TYPES OF OBSERV"].size(); ++i) ob += lab["# / TYPES OF OBSERV"][i].substr(6); string wo; for (int o : f.obs) wo += strf("    %s", mets[o]); REQUIRE(rtrim(ob) == wo, "observation types " << q(ob)); REQUIRE(lab["SENSOR MOD/TYPE/ACC"].size() == f.h.sensorTypeList.size(), "sensor lines");
      for (size_t i = 0; i < f.h.sensorTypeList.size(); ++i) { auto& t = f.h.sensorTypeList[i]; string x = lj(t.model, 20) + lj(t.type, 20) + "      " + strf("%7.1f", t.accuracy) + "    " + mets[t.obsType] + " "; REQUIRE(lab["SENSOR MOD/TYPE/ACC"][i] == x, "sensor line " << q(lab["SENSOR MOD/TYPE/ACC"][i]) << " for " << q(x)); } }
   RinexMetHeader h; vector<RinexMetData> d; w = readMet(fn, h, d); REQUIRE(w.empty(), "reading: " << w); vector<RinexMetData> dq; REQUIRE(quietMet(fn, dq) && dq.size() == f.r.size(), "the reading loop without exceptions gives " << dq.size() << " records");
   REQUIRE(std::fabs(h.version - f.h.version) < 1e-6, "version " << h.version); REQUIRE(h.valid == f.h.valid || ((f.h.valid & RinexMetHeader::validComment) && f.h.commentList.empty()), "valid bits " << h.valid << " for " << f.h.valid); REQ_EQ(h.fileType, f.h.fileType, "file type"); REQ_EQ(h.fileProgram, f.h.fileProgram, "program"); REQ_EQ(h.fileAgency, f.h.fileAgency, "agency"); REQ_EQ(h.markerName, f.h.markerName, "marker"); if (f.h.valid & RinexMetHeader::validMarkerNumber) REQ_EQ(h.markerNumber, f.h.markerNumber, "marker number"); REQUIRE(h.commentList == f.h.commentList, "comments");
   REQUIRE(h.obsTypeList == f.h.obsTypeList, "observation types"); REQUIRE(h.sensorTypeList.size() == f.h.sensorTypeList.size(), "number of sensors"); for (size_t i = 0; i < h.sensorTypeList.size(); ++i) REQUIRE(h.sensorTypeList[i] == f.h.sensorTypeList[i], "sensor " << i); REQUIRE(h.sensorPosList.size() == f.h.sensorPosList.size(), "number of positions");
   for (size_t i = 0; i < h.sensorPosList.size(); ++i) { auto &a = h.sensorPosList[i], &b = f.h.sensorPosList[i]; REQUIRE(a.obsType == b.obsType && std::fabs(a.height - b.height) < 6e-5, "position " << i); for (int k = 0; k < 3; ++k) REQUIRE(std::fabs(a.position[k] - b.position[k]) < 6e-5, "position " << i << " component " << k << " " << a.position[k] << " for " << b.position[k]); }
   auto same = [&](const vector<RinexMetData>& d, const string& w) { REQUIRE(d.size() == f.r.size(), w << ": " << d.size() << " records for " << f.r.size()); for (size_t i = 0; i < d.size(); ++i) { REQUIRE(std::fabs(secDiff(d[i].time, src[i].time)) < 1e-9, w << ": time of record " << i << " " << d[i].time << " for " << src[i].time); REQUIRE(d[i].data == src[i].data, w << ": values of record " << i); } };
   same(d, "read"); same(dq, "read without exceptions"); vector<string> diff, ex{"PGM / RUN BY / DATE"}; REQUIRE(h.compare(f.h, diff, ex), "compare finds a difference in " << diff[0]); REQUIRE(diff.empty(), "differences of equal headers");
      // the same after writing what was read; without the last newline
   string fn2 = pbt::scratch() + "/b.met"; w = writeMet(fn2, h, d); REQUIRE(w.empty(), "writing again: " << w); string s2 = pbt::slurp(fn2); auto undate = [](string s) { size_t i = s.find("PGM / RUN BY / DATE"); if (i != string::npos && i >= 20) s.replace(i - 20, 20, 20, ' '); return s; }; REQUIRE(undate(s2) == undate(s), "writing what was read gives another file");
   if (f.r.size()) { pbt::spit(fn2, s.substr(0, s.size() - 1)); RinexMetHeader h3; vector<RinexMetData> d3; w = readMet(fn2, h3, d3); REQUIRE(w.empty(), "without the last newline: " << w); same(d3, "without the last newline"); }
      // refusals
   if (f.obs.size() > 8 && f.r.size()) { string t; for (size_t i = 0; i + 1 < l.size(); ++i) t += l[i] + "\n"; pbt::spit(fn2, t); RinexMetHeader h3; vector<RinexMetData> d3; w = readMet(fn2, h3, d3); REQUIRE(!w.empty() && d3.size() == f.r.size() - 1, "a record without its continuation line was read"); }
   if (f.r.size()) { vector<RinexMetData> b = src; b[0].data.erase(RinexMetHeader::RinexMetType(f.obs[g.below(f.obs.size())])); REQUIRE(!writeMet(fn2, f.h, b).empty(), "a record without a value was written"); size_t i = e + 1; string t = s; vector<string> lb = l; lb[i][g.pick({0, 3, 6, 9, 12}) + (f.h.version > 3.015 && true ? 0 : 0)] = 'X'; t.clear(); for (auto& x : lb) t += x + "\n"; pbt::spit(fn2, t); RinexMetHeader h3; vector<RinexMetData> d3; if (f.h.version < 3.015) { w = readMet(fn2, h3, d3); REQUIRE(!w.empty(), "an epoch line without its blanks was read"); } }
   { RinexMetHeader b = f.h; b.valid &= ~(unsigned long)g.pick<unsigned long>({RinexMetHeader::validVersion, RinexMetHeader::validRunBy, RinexMetHeader::validMarkerName, RinexMetHeader::validObsType, RinexMetHeader::validSensorType, RinexMetHeader::validSensorPos, RinexMetHeader::validEoH}); if (b.valid != f.h.valid) REQUIRE(!writeMet(fn2, b, src).empty(), "an incomplete header was written"); }
   { size_t drop = g.below(e + 1); string lb = strip(l[drop].substr(60)); if (lb != "COMMENT" && lb != "MARKER NUMBER" && !(lb == "SENSOR POS XYZ/H" && l[drop].substr(57, 2) != "PR") && !(lb == "# / TYPES OF OBSERV" && f.obs.size() > 9)) { string t; for (size_t i = 0; i < l.size(); ++i) if (i != drop) t += l[i] + "\n"; pbt::spit(fn2, t); RinexMetHeader h3; vector<RinexMetData> d3; w = readMet(fn2, h3, d3); REQUIRE(!w.empty(), "a header without " << lb << " was read"); } }
}
PROP(metCompare, 20000, 800000, "headers differ in one field")
{
   Met f = genMet(g); RinexMetHeader a = f.h, b = f.h; string want; a.date = b.date = "now"; switch (g.below(10)) { case 0: b.version += 0.5; want = "RINEX VERSION / TYPE"; break; case 1: b.fileProgram += "x"; want = "PGM / RUN BY / DATE"; break; case 2: b.fileAgency += "x"; want = "PGM / RUN BY / DATE"; break; case 3: b.commentList.push_back("another"); want = "COMMENT"; break; case 4: b.markerName += "x"; want = "MARKER NAME"; break; case 5: b.markerNumber += "x"; want = "MARKER NUMBER"; break; case 6: if (b.obsTypeList.size() > 1) { b.obsTypeList.pop_back(); want = "# / TYPES OF OBSERV"; } break; case 7: b.sensorTypeList[g.below(b.sensorTypeList.size())].model += "x"; want = "SENSOR MOD/TYPE/ACC"; break; case 8: b.sensorPosList[g.below(b.sensorPosList.size())].height += 1; want = "SENSOR POS XYZ/H"; break; default: break; }
   g.shuffle(b.commentList); g.shuffle(b.sensorTypeList); g.shuffle(b.sensorPosList); g.shuffle(b.obsTypeList); if (!want.empty()) g.nontrivial(); g << "differs in " << want << "\n"; vector<string> none, d; bool eqv = a.compare(b, d, none); REQ_EQ(eqv, want.empty(), "compare"); REQUIRE(want.empty() ? d.empty() : d.size() == 1 && d[0] == want, "differences");
   vector<string> one{want.empty() ? string("COMMENT") : want}; d.clear(); REQUIRE(a.compare(b, d, one), "excluded line is compared"); d.clear(); REQ_EQ(b.compare(a, d, one, true), want.empty(), "compare of one line only"); vector<string> other{want == "COMMENT" ? string("MARKER NAME") : string("COMMENT")}; d.clear(); REQUIRE(b.compare(a, d, other, true), "compare of another line only");
}

// ---------------------------------------------------------------- almanacs
struct Alm { int prn, svn, ura, health, conf; double ecc, di, od, ah, O0, w, m0, af0, af1; long toa; int week; };
static double sig(G& g, int digits, int elo, int ehi, bool pos = false) { if (g.flag(0.05)) return 0; long m = 1; for (int i = 1; i < digits; ++i) m *= 10; long k = m + g.range(0, 9 * m - 1); double v = strtod(strf("%lde%d", k, (int)g.range(elo, ehi) - digits + 1).c_str(), 0); return !pos && g.flag() ? -v : v; }
static double angle(G& g) { return g.flag(0.1) ? g.pick({0.0, 1.0, -1.0, 0.5, -0.5}) : g.real(-1, 1); }      // semicircles
static Alm genAlm(G& g) { Alm a; a.prn = g.range(1, 32); a.svn = g.range(0, 99); a.ura = g.range(0, 15); a.health = g.flag() ? 0 : g.range(0, 255); a.conf = g.range(0, 15); a.ecc = g.flag(0.1) ? 0 : g.real(0, 0.03); if (g.flag(0.05)) a.ecc = g.real(0, 0.4); a.di = g.real(-0.05, 0.05); a.od = g.real(-4e-9, 1e-9); a.ah = g.real(5000, 6500); a.O0 = angle(g); a.w = angle(g); a.m0 = angle(g); a.af0 = g.real(-9e-4, 9e-4); a.af1 = g.flag(0.3) ? 0 : g.real(-4e-9, 4e-9); a.toa = g.range(0, 147) * 4096; a.week = g.range(1, 4000); return a; }
struct P3 { double x, y, z; };
   // IS-GPS-200 almanac algorithm, in long double; position, in metres
static void almRef(const Alm& a, double diRad, double odRad, double O0, double w, double m0, double dt, long double* x, long double& clk)
{
   typedef long double L; const L mu = 3.986005e14L, we = 7.2921151467e-5L, pi = 3.14159265358979323846264338327950288L; L A = (L)a.ah * a.ah, n = sqrtl(mu / (A * A * A)), M = m0 + n * (L)dt; M = fmodl(M, 2 * pi); L E = M; for (int i = 0; i < 60; ++i) E = E - (E - a.ecc * sinl(E) - M) / (1 - a.ecc * cosl(E)); L nu = atan2l(sqrtl(1 - (L)a.ecc * a.ecc) * sinl(E), cosl(E) - a.ecc), u = nu + w, r = A * (1 - a.ecc * cosl(E)), inc = 0.3L * pi + diRad, Om = O0 + ((L)odRad - we) * dt - we * a.toa; 
   x[0] = r * (cosl(u) * cosl(Om) - sinl(u) * cosl(inc) * sinl(Om)); x[1] = r * (cosl(u) * sinl(Om) + sinl(u) * cosl(inc) * cosl(Om)); x[2] = r * sinl(u) * sinl(inc); clk = a.af0 + (L)a.af1 * dt;
}
   // both orbit classes against the algorithm; the angles are those of the record, in radians
static void checkOrbit(G& g, const Alm& a, const AlmOrbit& o, const OrbAlmGen& p, double di, double od, double O0, double w, double m0, double ecc, double ah, double af0, double af1, int week, long toa)
{
   CommonTime t0 = GPSWeekSecond(week, toa, TimeSystem::GPS).convertToCommonTime(); REQUIRE(o.getPRN() == a.prn && o.getPRNID() == a.prn && o.getecc() == ecc && o.geti_offset() == di && o.getOMEGAdot() == od && o.getAhalf() == ah && o.getOMEGA0() == O0 && o.getw() == w && o.getM0() == m0 && o.getAF0() == af0 && o.getAF1() == af1 && o.getToaSOW() == toa && o.getToaWeek() == week && o.getSVHealth() == a.health, "AlmOrbit has other elements"); REQUIRE(std::fabs(o.getToaTime() - t0) < 1e-9, "time of applicability " << o.getToaTime());
   REQUIRE(p.AHalf == ah && std::fabs(p.A - ah * ah) < 1e-8 && p.af1 == af1 && p.af0 == af0 && p.OMEGA0 == O0 && p.ecc == ecc && p.deltai == di && std::fabs(p.i0 - (di + 0.3 * PI)) < 1e-12 && p.OMEGAdot == od && p.w == w && p.M0 == m0 && (long)p.toa == toa && p.health == a.health, "OrbAlmGen has other elements: i0 " << p.i0 << " for " << di + 0.3 * PI);
   REQUIRE(p.subjectSV == SatID(a.prn, SatelliteSystem::GPS) && std::fabs(p.ctToe - t0) < 1e-9 && p.dataLoaded() && p.isHealthy() == (a.health == 0), "OrbAlmGen: satellite, time or health"); REQUIRE(std::fabs((p.beginValid - p.ctToe) + 70 * 3600) < 1e-6 && std::fabs((p.endValid - p.beginValid) - 144 * 3600) < 1e-6, "OrbAlmGen: interval of validity"); REQUIRE(!p.isValid(p.beginValid - 1) && p.isValid(p.ctToe) && !p.isValid(p.endValid + 1), "OrbAlmGen::isValid");
   Alm b = a; b.ecc = ecc; b.ah = ah; b.af0 = af0; b.af1 = af1; b.toa = toa; OrbAlmGen* cl = p.clone(); REQUIRE(cl->isSameData(&p) && p.isSameData(cl), "a clone is not the same data"); 
   for (int k = 0; k < 4; ++k)
   {
      double dt = k == 0 ? 0 : g.flag(0.2) ? g.real(-5e6, 5e6) : g.real(-300000, 300000); CommonTime t = t0 + dt; dt = t - t0; long double x[3], xa[3], xb[3], c, d; almRef(b, di, od, O0, w, m0, dt, x, c); almRef(b, di, od, O0, w, m0, dt + 1, xa, d); almRef(b, di, od, O0, w, m0, dt - 1, xb, d); 
      Xvt s = o.svXvt(t), s2 = p.svXvt(t); for (int i = 0; i < 3; ++i) { REQ_NEAR(s.x[i], (double)x[i], 2e-3, "AlmOrbit position " << i << " at " << dt); REQ_NEAR(s2.x[i], (double)x[i], 2e-3, "OrbAlmGen position " << i << " at " << dt); double v = (double)(xa[i] - xb[i]) / 2; REQ_NEAR(s.v[i], v, 2e-3, "AlmOrbit velocity " << i << " at " << dt); REQ_NEAR(s2.v[i], v, 2e-3, "OrbAlmGen velocity " << i << " at " << dt); }
      REQ_NEAR(s.clkbias, (double)c, 1e-14, "AlmOrbit clock"); REQ_NEAR(s2.clkbias, (double)c, 1e-14, "OrbAlmGen clock"); REQ_NEAR(p.svClockBias(t), (double)c, 1e-14, "clock bias"); REQ_NEAR(p.svClockBiasM(t), (double)c * 299792458.0, 1e-5, "clock bias in metres"); REQ_NEAR(p.svClockDrift(t), af1, 1e-20, "clock drift"); REQ_NEAR(s2.clkdrift, af1, 1e-20, "clock drift"); 
      long double rv = 0; for (int i = 0; i < 3; ++i) { long double vi = (xa[i] - xb[i]) / 2; (void)vi; } { typedef long double L; const L mu = 3.986005e14L; L A = (L)ah * ah, n = sqrtl(mu / (A * A * A)), M = fmodl(m0 + n * (L)dt, 2 * 3.14159265358979323846264338327950288L), E = M; for (int i = 0; i < 60; ++i) E -= (E - ecc * sinl(E) - M) / (1 - ecc * cosl(E)); rv = -4.442807633e-10L * ecc * ah * sinl(E); } REQ_NEAR(p.svRelativity(t), (double)rv, 1e-13, "relativity"); REQ_NEAR(s2.relcorr, (double)rv, 1e-13, "relativity"); REQUIRE((s.health == Xvt::Healthy) == (a.health == 0) && (s2.health == Xvt::Healthy) == (a.health == 0), "health");
   }
   OrbAlmGen x = p; int f = g.below(12); switch (f) { case 0: x.AHalf += 1; break; case 1: x.af1 += 1e-9; break; case 2: x.af0 += 1e-9; break; case 3: x.OMEGA0 += 1e-9; break; case 4: x.ecc += 1e-9; break; case 5: x.deltai += 1e-9; break; case 6: x.OMEGAdot += 1e-12; break; case 7: x.w += 1e-9; break; case 8: x.M0 += 1e-9; break; case 9: x.health ^= 1; break; case 10: x.subjectSV.id += 1; break; default: x.ctToe += 1; } REQUIRE(!x.isSameData(&p) && !p.isSameData(&x), "isSameData does not see difference " << f); REQUIRE(!p.listDifferences(&x).empty() && p.listDifferences(cl).empty(), "listDifferences at " << f); delete cl;
}
static int fullWeek(int w10, int near) { if (near <= 0) return w10; int k = w10 % 1024; int best = k; for (int c = k; c < 8192; c += 1024) if (std::abs(c - near) < std::abs(best - near)) best = c; return best; }
PROP(sem, 10000, 320000, "at least two records")
{
   int n = g.range(0, 5); vector<Alm> a; for (int i = 0; i < n; ++i) a.push_back(genAlm(g)); SEMHeader h; h.numRecords = g.flag(0.8) ? n : g.range(0, 99); h.Title = g.str("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-+ ", 1, 24); h.Title = strip(h.Title); if (h.Title.empty()) h.Title = "CURRENT.ALM"; int nearw = g.flag(0.4) ? 0 : g.range(513, 4500); h.week = nearw ? g.flag() ? g.range(0, 1023) : std::max(0L, nearw + g.range(-511, 511)) : g.range(0, 1023); h.Toa = g.range(0, 147) * 4096; if (n >= 2) g.nontrivial(); g << "SEM " << n << " records, week " << h.week << " near " << nearw << "\n";
   if (nearw && std::abs(std::abs(fullWeek(h.week, nearw) - nearw)) == 512) { g.label("tie"); h.week = (h.week + 1) % 1024; }
   string fn = pbt::scratch() + "/a.al3"; vector<SEMData> src; { SEMStream out(fn.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); out << h; for (auto& x : a) { SEMData d; d.PRN = x.prn; d.SVNnum = x.svn; d.URAnum = x.ura; d.ecc = x.ecc; d.i_offset = x.di * PI; d.OMEGAdot = x.od * PI; d.Ahalf = x.ah; d.OMEGA0 = x.O0 * PI; d.w = x.w * PI; d.M0 = x.m0 * PI; d.AF0 = x.af0; d.AF1 = x.af1; d.SV_health = x.health; d.satConfig = x.conf; out << d; src.push_back(d); } }
   vector<string> l = lines(pbt::slurp(fn)); REQUIRE(l.size() == 2 + 9 * a.size(), l.size() << " lines for " << n << " records"); REQUIRE(rtrim(l[0]) == rtrim(lj(std::to_string(h.numRecords), 2) + " " + h.Title), "first line " << q(l[0])); REQUIRE(strip(l[1]) == strf("%d %ld", h.week, h.Toa), "second line " << q(l[1]));
   auto num = [&](const string& s, size_t i) { vector<double> v; std::istringstream is(s); string t; while (is >> t) v.push_back(strtod(t.c_str(), 0)); REQUIRE(v.size() == 3, "line " << q(s) << " has not three numbers"); return v[i]; };
   for (int i = 0; i < n; ++i)
   {
      const string* r = &l[2 + 9 * i]; const Alm& x = a[i]; REQUIRE(strip(r[0]).empty(), "no blank line before the record"); REQUIRE(strip(r[1]) == std::to_string(x.prn) && strip(r[2]) == std::to_string(x.svn) && strip(r[3]) == std::to_string(x.ura) && strip(r[7]) == std::to_string(x.health) && strip(r[8]) == std::to_string(x.conf), "integers of record " << i); double v[9] = {x.ecc, x.di, x.od, x.ah, x.O0, x.w, x.m0, x.af0, x.af1}; for (int k = 0; k < 9; ++k) REQUIRE(std::fabs(num(r[4 + k / 3], k % 3) - v[k]) <= 2e-13 * std::fabs(v[k]), "number " << k << " of record " << i << " in " << q(r[4 + k / 3]) << " for " << pbt::d2s(v[k]));
   }
   SEMHeader::nearFullWeek = nearw; SEMHeader rh; vector<SEMData> d; string w; try { SEMStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> rh; SEMData r; try { while (in >> r) d.push_back(r); } catch (EndOfFile&) { } REQUIRE(in.eof(), "stopped before the end"); } catch (Exception& e) { SEMHeader::nearFullWeek = 0; pbt::fail("reading: " + gp::what(e)); } SEMHeader::nearFullWeek = 0;
   int fw = fullWeek(h.week, nearw); REQ_EQ(rh.numRecords, h.numRecords, "number of records"); REQUIRE(strip(rh.Title) == h.Title, "title " << q(rh.Title)); REQ_EQ((int)rh.week, fw, "week (near " << nearw << ", file " << h.week << ")"); REQ_EQ(rh.Toa, h.Toa, "time of applicability"); REQUIRE((int)d.size() == n, d.size() << " records for " << n);
   for (int i = 0; i < n; ++i)
   {
      const Alm& x = a[i]; const SEMData& r = d[i]; REQUIRE(r.PRN == x.prn && r.SVNnum == x.svn && r.URAnum == x.ura && r.SV_health == x.health && r.satConfig == x.conf && r.week == fw && r.Toa == h.Toa, "integers of record " << i); auto c = [&](double got, double want, const char* nm) { REQUIRE(std::fabs(got - want) <= 2e-13 * std::fabs(want), nm << " of record " << i << " is " << pbt::d2s(got) << " for " << pbt::d2s(want)); }; c(r.ecc, x.ecc, "ecc"); c(r.i_offset, x.di * PI, "i_offset"); c(r.OMEGAdot, x.od * PI, "OMEGAdot"); c(r.Ahalf, x.ah, "Ahalf"); c(r.OMEGA0, x.O0 * PI, "OMEGA0"); c(r.w, x.w * PI, "w"); c(r.M0, x.m0 * PI, "M0"); c(r.AF0, x.af0, "AF0"); c(r.AF1, x.af1, "AF1"); REQ_NEAR(r.i_total, r.i_offset + 0.3 * PI, 1e-12, "i_total"); 
      checkOrbit(g, x, AlmOrbit(r), OrbAlmGen(r), r.i_offset, r.OMEGAdot, r.OMEGA0, r.w, r.M0, r.ecc, r.Ahalf, r.AF0, r.AF1, fw, h.Toa);
   }
      // the last record cut short is refused
   if (n) { size_t keep = 2 + 9 * (n - 1) + g.range(2, 8); string t; for (size_t i = 0; i < keep; ++i) t += l[i] + "\n"; pbt::spit(fn, t); SEMStream in(fn.c_str(), std::ios::in); SEMHeader h2; in >> h2; int k = 0; SEMData r; while (in >> r) ++k; REQ_EQ(k, n - 1, "records of a file cut within the last one"); }
}
PROP(yuma, 10000, 320000, "at least two records")
{
   int n = g.range(0, 5); vector<Alm> a; int nearw = g.flag(0.4) ? 0 : g.range(513, 4500); for (int i = 0; i < n; ++i) { Alm x = genAlm(g); x.ecc = sig(g, 11, -5, -2, true); x.di = sig(g, 11, -3, -2); x.od = sig(g, 11, -10, -8); x.ah = g.range(5000000000L, 6500000000L) / 1e6; x.O0 = sig(g, 11, -3, 0); x.w = g.range(-3141592653L, 3141592653L) / 1e9; x.m0 = sig(g, 11, -3, 0); x.af0 = sig(g, 11, -7, -4); x.af1 = sig(g, 11, -12, -9); x.week = nearw ? g.flag() ? g.range(0, 1023) : std::max(0L, nearw + g.range(-511, 511)) : g.range(0, 1023); if (nearw && std::abs(fullWeek(x.week, nearw) - nearw) == 512) x.week = (x.week + 1) % 1024; a.push_back(x); } if (n >= 2) g.nontrivial(); g << "Yuma " << n << " records near " << nearw << "\n";
   string fn = pbt::scratch() + "/a.alm"; { YumaStream out(fn.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); for (auto& x : a) { YumaData d; d.PRN = x.prn; d.week = x.week; d.SV_health = x.health; d.ecc = x.ecc; d.Toa = x.toa; d.i_total = x.di + 0.95; d.i_offset = 0; d.OMEGAdot = x.od; d.Ahalf = x.ah; d.OMEGA0 = x.O0; d.w = x.w; d.M0 = x.m0; d.AF0 = x.af0; d.AF1 = x.af1; d.xmit_time = 0; out << d; } }
   string s = pbt::slurp(fn); vector<string> l = lines(s); REQUIRE(l.size() == 15 * a.size(), l.size() << " lines for " << n << " records"); static const char* const lab[] = {"ID:", "Health:", "Eccentricity:", "Time of Applicability(s):", "Orbital Inclination(rad):", "Rate of Right Ascen(r/s):", "SQRT(A)  (m 1/2):", "Right Ascen at Week(rad):", "Argument of Perigee(rad):", "Mean Anom(rad):", "Af0(s):", "Af1(s/s):", "week:"};
   for (int i = 0; i < n; ++i) { const Alm& x = a[i]; double v[] = {(double)x.prn, (double)x.health, x.ecc, (double)x.toa, x.di + 0.95, x.od, x.ah, x.O0, x.w, x.m0, x.af0, x.af1, (double)x.week}; double tol[] = {0, 0, 1e-10, 0, 1e-10, 1e-10, 1e-12, 1e-10, 0, 1e-10, 1e-10, 1e-10, 0}; REQUIRE(l[15 * i] == strf("******** Week%5d almanac for PRN-%02d ********", x.week % 1024, x.prn), "first line " << q(l[15 * i])); for (int k = 0; k < 13; ++k) { const string& t = l[15 * i + 1 + k]; REQUIRE(t.compare(0, strlen(lab[k]), lab[k]) == 0, "label of line " << q(t)); double got = strtod(t.substr(strlen(lab[k])).c_str(), 0); REQUIRE(std::fabs(got - v[k]) <= tol[k] * std::fabs(v[k]) + (k == 8 ? 1e-15 : 0), "line " << q(t) << " for " << pbt::d2s(v[k])); } }
      // other spellings of the same file: CENTER_TAB gaps, text before the records
   if (g.flag(0.3)) { string t; if (g.flag()) t += "some text\n\n"; for (auto& x : l) t += x + (g.flag(0.2) ? " " : "") + (g.flag() ? "\r\n" : "\n"); pbt::spit(fn, t); }
   YumaData::nearFullWeek = nearw; vector<YumaData> d; try { YumaStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); YumaData r; try { while (in >> r) d.push_back(r); } catch (EndOfFile&) { } } catch (Exception& e) { YumaData::nearFullWeek = 0; pbt::fail("reading: " + gp::what(e)); } YumaData::nearFullWeek = 0; REQUIRE((int)d.size() == n, d.size() << " records for " << n);
   for (int i = 0; i < n; ++i)
   {
      const Alm& x = a[i]; const YumaData& r = d[i]; int fw = fullWeek(x.week, nearw); REQUIRE(r.PRN == x.prn && r.SV_health == x.health && r.Toa == x.toa, "integers of record " << i); REQ_EQ((int)r.week, fw, "week (near " << nearw << ", file " << x.week << ")"); auto c = [&](double got, double want, double tol, const char* nm) { REQUIRE(std::fabs(got - want) <= tol, nm << " of record " << i << " is " << pbt::d2s(got) << " for " << pbt::d2s(want)); };
      auto rel = [](double v) { return 1e-14 * std::fabs(v); }; c(r.ecc, x.ecc, rel(x.ecc), "ecc"); c(r.i_total, x.di + 0.95, 6e-11 + 1e-15, "i_total"); c(r.i_offset, r.i_total - 0.3 * PI, 1e-14, "i_offset"); c(r.OMEGAdot, x.od, rel(x.od), "OMEGAdot"); c(r.Ahalf, x.ah, rel(x.ah), "Ahalf"); c(r.OMEGA0, x.O0, rel(x.O0), "OMEGA0"); c(r.w, x.w, rel(x.w), "w"); c(r.M0, x.m0, rel(x.m0), "M0"); c(r.AF0, x.af0, rel(x.af0), "AF0"); c(r.AF1, x.af1, rel(x.af1), "AF1"); Alm y = x; 
      checkOrbit(g, y, AlmOrbit(r), OrbAlmGen(r), r.i_offset, r.OMEGAdot, r.OMEGA0, r.w, r.M0, r.ecc, r.Ahalf, r.AF0, r.AF1, fw, x.toa);
   }
   if (n) { int i = 15 * (n - 1) + g.range(1, 13); vector<string> b = l; string& t = b[i]; if (g.flag()) t = "Xyzzy:" + t; else { size_t c = t.find(':'); t[c] = ' '; } string o; for (auto& x : b) o += x + "\n"; pbt::spit(fn, o); YumaStream in(fn.c_str(), std::ios::in); int k = 0; YumaData r; while (in >> r) ++k; REQ_EQ(k, n - 1, "records of a file with a defective line " << q(b[i])); }
}
PBT_MAIN
