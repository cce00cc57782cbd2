// F02: RINEX 2 and 3 navigation files.
// A file is generated as text in the columns of the RINEX documents together with the content it states.
#include "gp.hpp"
#include "CivilTime.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GloEphemeris.hpp"
using namespace gpstk; using pbt::G; using pbt::q; using pbt::strf; using std::string; using std::vector; using std::map; using std::pair;

static string rj(string s, int w) { return s.size() >= (size_t)w ? s : string(w - s.size(), ' ') + s; }
static string lj(string s, int w) { return s.size() >= (size_t)w ? s : s + string(w - s.size(), ' '); }
static string rtrim(string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back(); return s; }
static string H(const string& body, const string& label) { return lj(body, 60) + label; }
static const char* const printable = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -_/.,:()#+*";
static string word(G& g, int w) { string s = g.str(printable, 0, g.flag(0.2) ? w : std::min(w, 12)); size_t a = s.find_first_not_of(' '); if (a == string::npos) return ""; return s.substr(a, s.find_last_not_of(' ') - a + 1); }
// a number of nd digits and its field text (one of the spellings in use)
struct Num { double v; string txt; };
static Num number(G& g, int nd, int w, int elo, int ehi, bool pos = false)
{
   if (g.flag(0.08)) return {0.0, rj(g.pick<string>({".0D+00", "0.0D+00", "0.000D+00", ".0000D+00"}), w)};
   string dg; dg += char('1' + g.range(0, 8)); int n = g.flag(0.7) ? nd : g.range(1, nd); while ((int)dg.size() < n) dg += char('0' + g.range(0, 9)); while ((int)dg.size() < nd) dg += '0'; if (g.flag(0.03)) dg = string(nd, '9');
   int e = g.range(elo, ehi); bool neg = !pos && g.flag(0.4); char D = g.pick<char>({'D', 'D', 'D', 'E'}); string body;
   switch (g.range(0, 2)) { case 0: body = strf(".%s%c%+03d", dg.c_str(), D, e + 1); break; case 1: body = strf("0.%s%c%+03d", dg.c_str(), D, e + 1); break; default: body = strf("%c.%s%c%+03d", dg[0], dg.substr(1).c_str(), D, e); }
   if (neg) body = "-" + body; if ((int)body.size() > w) { body = strf("%s.%s%c%+03d", neg ? "-" : "", dg.c_str(), D, e + 1); }
   return {strtod(strf("%s%c.%se%d", neg ? "-" : "", dg[0], dg.substr(1).c_str(), e).c_str(), 0), rj(body, w)};
}
static Num integer(G& g, long v, int w = 19)
{
   if (!v) return {0.0, rj(g.pick<string>({".000000000000D+00", "0.000000000000D+00", "0.0D+00"}), w)};
   string dg = std::to_string(std::labs(v)); int e = dg.size() - 1; while (dg.size() < 12) dg += '0'; 
   return {double(v), rj(g.flag() ? strf("%s.%sD%+03d", v < 0 ? "-" : "", dg.c_str(), e + 1) : strf("%s%c.%sD%+03d", v < 0 ? "-" : "", dg[0], dg.substr(1).c_str(), e), w)};
}
// fields by name
static const vector<pair<const char*, RNDouble Rinex3NavData::*>> names{
   {"af0", &Rinex3NavData::af0}, {"af1", &Rinex3NavData::af1}, {"af2", &Rinex3NavData::af2}, {"Tgd", &Rinex3NavData::Tgd}, {"Tgd2", &Rinex3NavData::Tgd2}, {"Cuc", &Rinex3NavData::Cuc}, {"Cus", &Rinex3NavData::Cus}, {"Crc", &Rinex3NavData::Crc}, {"Crs", &Rinex3NavData::Crs},
   {"Cic", &Rinex3NavData::Cic}, {"Cis", &Rinex3NavData::Cis}, {"Toe", &Rinex3NavData::Toe}, {"M0", &Rinex3NavData::M0}, {"dn", &Rinex3NavData::dn}, {"ecc", &Rinex3NavData::ecc}, {"Ahalf", &Rinex3NavData::Ahalf}, {"OMEGA0", &Rinex3NavData::OMEGA0}, {"i0", &Rinex3NavData::i0},
   {"w", &Rinex3NavData::w}, {"OMEGAdot", &Rinex3NavData::OMEGAdot}, {"idot", &Rinex3NavData::idot}, {"fitint", &Rinex3NavData::fitint}, {"accuracy", &Rinex3NavData::accuracy}, {"IODC", &Rinex3NavData::IODC}, {"IODE", &Rinex3NavData::IODE}, {"IODnav", &Rinex3NavData::IODnav},
   {"TauN", &Rinex3NavData::TauN}, {"GammaN", &Rinex3NavData::GammaN}, {"ageOfInfo", &Rinex3NavData::ageOfInfo}, {"accCode", &Rinex3NavData::accCode}, {"IODN", &Rinex3NavData::IODN}, {"px", &Rinex3NavData::px}, {"py", &Rinex3NavData::py}, {"pz", &Rinex3NavData::pz},
   {"vx", &Rinex3NavData::vx}, {"vy", &Rinex3NavData::vy}, {"vz", &Rinex3NavData::vz}, {"ax", &Rinex3NavData::ax}, {"ay", &Rinex3NavData::ay}, {"az", &Rinex3NavData::az}};
struct Rec { char sys; int prn; CommonTime t; double toc; map<string, double> f; long wk, xmit, mf; bool unknownXmit; vector<string> text; };
struct TC { string type; double a0, a1; long sow, wk; string prov; int id; int y, mo, d; };
struct File { double ver; char fs; string pgm, by, date; vector<string> comments; map<string, vector<double>> iono; map<string, TC> tc; bool leap; long lp[4]; vector<string> head; vector<Rec> rec; };
static TimeSystem tsOf(char s) { return s == 'R' ? TimeSystem::GLO : s == 'E' ? TimeSystem::GAL : s == 'C' ? TimeSystem::BDT : s == 'J' ? TimeSystem::QZS : TimeSystem::GPS; }

static Rec genRec(G& g, const File& f, char sys, bool toeIsToc = false)
{
   Rec r; r.sys = sys; bool v2 = f.ver < 3; r.prn = g.range(sys == 'S' ? 20 : 1, sys == 'G' ? 32 : sys == 'R' ? 27 : sys == 'E' ? 36 : sys == 'C' ? 63 : sys == 'J' ? 9 : 99); r.wk = r.xmit = r.mf = 0; r.unknownXmit = false;
   int y = g.range(sys == 'C' ? 2007 : sys == 'E' ? 2000 : 1981, 2079), mo = g.range(1, 12), d = g.range(1, gp::mdays(y, mo, true)), h = g.range(0, 23), mi = g.flag(0.6) ? 0 : g.range(0, 59); int tenth = g.flag(0.5) ? 0 : v2 ? g.range(0, 599) : g.range(0, 59) * 10; if (g.flag(0.1)) { mo = 12; d = 31; }
   bool odd60 = g.flag(0.05); if (odd60 && v2 && y == 2079) y = 2078; if (odd60) { d = std::min(d, gp::mdays(y, mo, true)); mi = 59; tenth = 600; }
   r.t = CivilTime(y, mo, d, h, mi, 0.0, tsOf(sys)).convertToCommonTime(); r.t += tenth / 10.0; CivilTime c0(y, mo, d, 0, 0, 0.0, TimeSystem::Any); long jd = long(std::floor(c0.convertToCommonTime().getDays() + 0.6)); long day = jd - 2444245;      // days from 6 Jan 1980 (JD 2444244.5)
   r.toc = (day % 7) * 86400 + h * 3600 + mi * 60 + tenth / 10.0; long wkToc = day / 7; if (sys == 'C') wkToc -= 1356; if (r.toc >= 604800) { r.toc -= 604800; ++wkToc; }
   string ep = v2 ? strf("%2d ", r.prn) + strf("%02d ", y % 100) + strf(g.flag() ? "%02d %02d %02d %02d" : "%2d %2d %2d %2d", mo, d, h, mi) + strf("%5.1f", tenth / 10.0) : strf("%c%02d %04d %02d %02d %02d %02d %02d", sys, r.prn, y, mo, d, h, mi, tenth / 10);
   auto N = [&](const char* n, int lo, int hi, bool pos = false) { Num x = number(g, 12, 19, lo, hi, pos); r.f[n] = x.v; return x.txt; };
   auto I = [&](const char* n, long v) { Num x = integer(g, v); r.f[n] = x.v; return x.txt; };
   string ind(v2 ? 3 : 4, ' '); auto spare = [&]() { return g.flag() ? integer(g, 0).txt : string(19, ' '); };
   if (sys == 'R' || sys == 'S')
   {
      long fileMf = v2 && sys == 'R' ? g.range(0, 86399) : g.range(0, 604799); if (v2 && sys == 'R') r.mf = fileMf + (long(r.toc) / 86400) * 86400; else r.mf = fileMf; long hl = g.range(0, sys == 'R' ? 4 : 255);
      r.text.push_back(ep + N("TauN", -9, -3) + N("GammaN", -13, -8) + integer(g, fileMf).txt); r.f["health"] = hl;
      for (int k = 0; k < 3; ++k) { string c(1, "xyz"[k]); string l = ind + N(("p" + c).c_str(), 0, 4) + N(("v" + c).c_str(), -6, 0) + N(("a" + c).c_str(), -12, -6); 
         if (k == 0) l += integer(g, hl).txt; else if (k == 1) { if (sys == 'R') { long fn = g.range(-7, 12); r.f["freqNum"] = fn; l += integer(g, fn).txt; } else l += N("accCode", 0, 3, true); } else l += sys == 'R' ? I("ageOfInfo", g.range(0, 31)) : I("IODN", g.range(0, 255)); r.text.push_back(l); }
      return r;
   }
   long toe = toeIsToc ? long(r.toc) : g.flag(0.3) && tenth % 10 == 0 ? long(r.toc) : g.flag(0.3) ? g.pick({0L, 7200L, 604784L, 597600L, 302400L}) : g.range(0, 37799) * 16; 
   r.text.push_back(ep + N("af0", -9, -3) + N("af1", -14, -9) + N("af2", -20, -15));
   r.text.push_back(ind + I(sys == 'E' ? "IODnav" : "IODE", g.range(0, sys == 'E' ? 1023 : 255)) + N("Crs", -3, 3) + N("dn", -10, -7) + N("M0", -3, 0));
   r.text.push_back(ind + N("Cuc", -9, -4) + N("ecc", -5, -1, true) + N("Cus", -9, -4) + N("Ahalf", 3, 3, true)); if (r.f["Ahalf"] == 0) { Num x = integer(g, 5153); r.f["Ahalf"] = 5153; r.text.back().replace(ind.size() + 57, 19, x.txt); }
   r.text.push_back(ind + I("Toe", toe) + N("Cic", -10, -6) + N("OMEGA0", -3, 0) + N("Cis", -10, -6));
   r.text.push_back(ind + N("i0", -1, 0, true) + N("Crc", -1, 3) + N("w", -3, 0) + N("OMEGAdot", -10, -8));
      // week of Toe: within half a week of the clock time; transmission within two days before, seldom after
   long wk = wkToc; if (toe - r.toc > 302400) --wk; else if (toe - r.toc < -302400) ++wk; if (wk < 0) wk = 0;
   long xmit = toe - g.pick({7200L, 7200L, 7200L, 14400L, 0L, 3600L, 30L, 86400L}) + (g.flag(0.3) ? g.range(-300, 300) * (g.flag() ? 30 : 1) : 0); if (g.flag(0.05)) xmit = toe + g.range(0, 7200);
   bool negated = xmit < 0 && g.flag(); long fileX = xmit; if (xmit < 0 && !negated) fileX = xmit + 604800; if (xmit >= 604800 && g.flag()) fileX = xmit - 604800; if (wk == 0 && xmit < 0) { xmit = fileX = toe; }
   if (g.flag(0.04)) { r.unknownXmit = true; fileX = 999900000; xmit = fileX; }
   r.wk = wk; r.xmit = xmit; r.f["fileX"] = fileX;
   long hl = g.range(0, sys == 'E' ? 511 : sys == 'C' ? 1 : 63); r.f["health"] = hl;
   if (sys == 'G' || sys == 'J') { long cf = g.range(0, 3), lp = g.range(0, 1); r.f["codeflgs"] = cf; r.f["L2Pdata"] = lp; r.text.push_back(ind + N("idot", -12, -9) + integer(g, cf).txt + integer(g, wk).txt + integer(g, lp).txt); }
   else if (sys == 'E') { long ds = g.pick({513L, 516L, 517L, 258L, 0L, 1L, 5L}); r.f["datasources"] = ds; r.text.push_back(ind + N("idot", -12, -9) + integer(g, ds).txt + integer(g, wk).txt + (g.flag() ? spare() : "")); }
   else r.text.push_back(ind + N("idot", -12, -9) + spare() + integer(g, wk).txt + spare());
   string acc; if (g.flag(0.7)) { static const int cm[] = {200, 280, 400, 570, 800, 1130, 1600, 3200, 312, 107}; int v = g.pick({200, 280, 400, 570, 800, 1130, 1600, 3200, 312, 107}); (void)cm; r.f["accuracy"] = v / 100.0; acc = strf("  .%012ldD+02", long(v) * 100000000L); if (acc.size() != 19) acc = rj(acc, 19); } else acc = I("accuracy", g.pick({2L, 3L, 4L, 6L, 64L, 4096L, -1L}));
   r.text.push_back(ind + acc + integer(g, hl).txt + N("Tgd", -10, -7) + (sys == 'G' || sys == 'J' ? I("IODC", g.range(0, 1023)) : N("Tgd2", -10, -7)));
   string l7 = ind + integer(g, fileX).txt; if (sys == 'G' || sys == 'J') { if (f.ver > 2.05 && g.flag(0.1)) r.f["fitint"] = 0; else if (f.ver > 2.05) l7 += I("fitint", g.flag(0.8) ? 4 : g.pick({0L, 6L, 1L})); } else if (sys == 'C') l7 += I("IODC", g.range(0, 31)); if (g.flag(0.3)) l7 += (sys == 'E' ? spare() : string()) + string(19, ' ');
   r.text.push_back(l7); return r;
}
static File genFile(G& g, int kind)   // 3: version 3; 2: version 2; 20: version 2 of GPS
{
   File f; f.ver = kind == 3 ? g.pick({3.0, 3.01, 3.02, 3.03, 3.04}) : g.pick({2.0, 2.1, 2.11}); string systems = kind == 3 ? "GRECJS" : "GRS"; f.fs = kind == 20 ? 'G' : kind == 2 ? systems[g.below(3)] : g.flag(0.4) ? 'M' : systems[g.below(6)];
   f.pgm = word(g, 20); f.by = word(g, 20); f.date = word(g, 20); int nc = g.below(5); for (int i = 0; i < nc; ++i) f.comments.push_back(word(g, 60));
   vector<string>& o = f.head; vector<string> body; body.push_back(H(lj(f.pgm, 20) + lj(f.by, 20) + f.date, "PGM / RUN BY / DATE")); string d4 = "          "; 
   bool leap = g.flag(); f.leap = leap; f.lp[0] = g.range(0, 40); for (int i = 1; i < 4; ++i) f.lp[i] = 0; 
   vector<vector<string>> blocks; if (nc) { vector<string> b; for (auto& c : f.comments) b.push_back(H(c, "COMMENT")); blocks.push_back(b); }
   auto iono = [&](const string& t) { vector<double> p; string l; for (int i = 0; i < 4; ++i) { Num x = t == "GAL" && i == 3 && g.flag(0.9) ? Num{0.0, "   .0000D+00"} : number(g, 4, 12, -9, 7); if (t == "GAL" && i == 3) x = Num{0.0, "   .0000D+00"}; p.push_back(x.v); l += x.txt; } f.iono[t] = p; return l; };
   auto wkof = [&]() { return g.range(0, 3000); };
   if (f.ver > 3 - 1e-9)
   {
      int k = g.below(4); if (k & 1) { blocks.push_back({H("GPSA " + iono("GPSA"), "IONOSPHERIC CORR")}); blocks.push_back({H("GPSB " + iono("GPSB"), "IONOSPHERIC CORR")}); } if (k & 2) blocks.push_back({H("GAL  " + iono("GAL"), "IONOSPHERIC CORR")});
      for (string t : {"GPUT", "GAUT", "SBUT", "GLUT", "GPGA", "GAGP", "GLGP", "QZGP", "QZUT", "BDUT", "IRUT"}) if (g.flag(0.15))
      {
         TC c; c.type = t; Num a0 = number(g, 10, 17, -12, -3), a1 = number(g, 9, 16, -16, -9); c.a0 = a0.v; c.a1 = a1.v; c.sow = g.flag(0.2) ? 0 : g.range(0, 604799); c.wk = wkof(); c.prov = t == "SBUT" ? g.pick<string>({"EGNOS", "WAAS", "MSAS", "GAGAN", "S36"}) : ""; c.id = g.range(0, 7);
         string key = t == "GAGP" ? "GPGA" : t; if (f.tc.count(key)) continue;     // GAGP is another name of GPGA
         c.type = key; f.tc[key] = c; blocks.push_back({H(t + " " + a0.txt + a1.txt + rj(std::to_string(c.sow), 7) + rj(std::to_string(c.wk), 5) + " " + rj(c.prov, 5) + " " + rj(std::to_string(c.id), 2) + " ", "TIME SYSTEM CORR")});
      }
      if (leap) { bool full = g.flag(); if (full) { f.lp[1] = g.range(0, 40); f.lp[2] = g.range(0, 3000); f.lp[3] = g.range(1, 7); } string l; for (int i = 0; i < (full ? 4 : 1); ++i) l += rj(std::to_string(f.lp[i]), 6); blocks.push_back({H(l, "LEAP SECONDS")}); }
   }
   else
   {
      if (f.fs == 'G' && g.flag()) { blocks.push_back({H("  " + iono("GPSA"), "ION ALPHA")}); blocks.push_back({H("  " + iono("GPSB"), "ION BETA")}); }
      if (g.flag())
      {
         TC c; c.type = f.fs == 'G' ? "GPUT" : f.fs == 'R' ? "GLUT" : "SBUT"; Num a0 = number(g, 12, 19, -12, -3), a1 = number(g, 12, 19, -16, -9); c.a0 = a0.v; c.a1 = a1.v; c.sow = g.range(0, 604799); c.wk = wkof(); c.id = 0;
         if (f.fs == 'G') blocks.push_back({H("   " + a0.txt + a1.txt + rj(std::to_string(c.sow), 9) + rj(std::to_string(c.wk), 9), "DELTA-UTC: A0,A1,T,W")});
         else if (f.fs == 'R') { c.y = g.range(1990, 2079); c.mo = g.range(1, 12); c.d = g.range(1, gp::mdays(c.y, c.mo, true)); c.a0 = -a0.v; c.a1 = 0; blocks.push_back({H(strf("%6d%6d%6d   ", c.y, c.mo, c.d) + a0.txt, "CORR TO SYSTEM TIME")}); }
         else { c.prov = g.pick<string>({"EGNOS", " WAAS", " MSAS", "GAGAN"}); c.id = g.range(0, 7); blocks.push_back({H(a0.txt + a1.txt + rj(std::to_string(c.sow), 7) + rj(std::to_string(c.wk), 5) + " " + c.prov + " " + rj(std::to_string(c.id), 2), "D-UTC A0,A1,T,W,S,U")}); }
         f.tc[c.type] = c;
      }
      if (leap) blocks.push_back({H(rj(std::to_string(f.lp[0]), 6), "LEAP SECONDS")});
   }
   g.shuffle(blocks); for (auto& b : blocks) for (auto& l : b) body.push_back(l);
   string ty = f.ver > 2.9 ? g.pick<string>({"N: GNSS NAV DATA", "NAVIGATION DATA", "N"}) : f.fs == 'G' ? g.pick<string>({"N: GPS NAV DATA", "NAVIGATION DATA"}) : f.fs == 'R' ? g.pick<string>({"G: GLONASS NAV DATA", "GLONASS NAV DATA"}) : "H: GEO NAV MSG DATA";
   o.push_back(H(rj(strf("%.2f", f.ver), 9) + string(11, ' ') + lj(ty, 20) + (f.ver > 2.9 ? f.fs == 'M' ? g.pick<string>({"M: MIXED", "MIXED", "M"}) : string(1, f.fs) + g.pick<string>({": system", "", ": (XXX)"}) : ""), "RINEX VERSION / TYPE"));
   for (auto& l : body) o.push_back(l); o.push_back(H("", "END OF HEADER"));
   int n = g.range(0, 6); for (int i = 0; i < n; ++i) f.rec.push_back(genRec(g, f, f.fs == 'M' ? "GRECJS"[g.below(6)] : f.fs));
   if (g.flag(0.05)) for (auto& l : o) l = rtrim(l);
   return f;
}
static string text(const File& f) { string s; for (auto& l : f.head) s += l + "\n"; for (auto& r : f.rec) for (auto& l : r.text) s += l + "\n"; return s; }
static string read3(const string& fn, Rinex3NavHeader& h, vector<Rinex3NavData>& d)
{
   try { Rinex3NavStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> h; Rinex3NavData r; while (in.peek() != EOF) { in >> r; d.push_back(r); } } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static string write3(const string& fn, const Rinex3NavHeader& h, const vector<Rinex3NavData>& d)
{
   try { Rinex3NavStream out(fn.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); out << h; for (auto& r : d) out << r; } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static bool eq(double a, double b) { return std::fabs(a - b) <= 6e-13 * std::fabs(b) + 1e-300; }
static bool eq4(double a, double b, double t) { return std::fabs(a - b) <= t * std::fabs(b) + 1e-300; }
static void checkHead(const File& f, const Rinex3NavHeader& h, const string& w, bool dated)
{
   REQUIRE(std::fabs(h.version - f.ver) < 1e-6, w << ": version " << h.version << " for " << f.ver);
   char ft = f.ver > 2.9 || f.fs == 'G' ? 'N' : f.fs == 'R' ? 'G' : 'H'; REQUIRE(!h.fileType.empty() && h.fileType[0] == ft, w << ": file type " << q(h.fileType) << " of a file of type " << ft);
   REQUIRE(!h.fileSys.empty() && h.fileSys[0] == f.fs, w << ": file system " << q(h.fileSys) << " for " << f.fs);
   REQUIRE(h.fileProgram == f.pgm && h.fileAgency == f.by && (!dated || h.date == f.date), w << ": run by " << q(h.fileProgram) << q(h.fileAgency) << q(h.date)); REQUIRE(h.commentList == f.comments, w << ": comments " << h.commentList.size() << " for " << f.comments.size());
   REQUIRE(h.mapIonoCorr.size() == f.iono.size(), w << ": " << h.mapIonoCorr.size() << " ionospheric records for " << f.iono.size());
   for (auto& i : f.iono) { auto it = h.mapIonoCorr.find(i.first); REQUIRE(it != h.mapIonoCorr.end(), w << ": no " << i.first << " record"); for (int k = 0; k < 4; ++k) REQUIRE(eq4(it->second.param[k], i.second[k], 1e-5), w << ": " << i.first << " parameter " << k << " is " << double(it->second.param[k]) << " for " << i.second[k]); }
   REQUIRE(h.mapTimeCorr.size() == f.tc.size(), w << ": " << h.mapTimeCorr.size() << " time corrections for " << f.tc.size());
   for (auto& i : f.tc)
   {
      auto it = h.mapTimeCorr.find(i.first); REQUIRE(it != h.mapTimeCorr.end(), w << ": no " << i.first << " record"); const TimeSystemCorrection& t = it->second; const TC& c = i.second; REQUIRE(eq4(t.A0, c.a0, 1e-11) && eq4(t.A1, c.a1, 1e-11), w << ": " << i.first << " coefficients " << t.A0 << "," << t.A1 << " for " << c.a0 << "," << c.a1);
      if (f.ver < 2.9 && f.fs == 'R') REQUIRE(t.refYr == c.y && t.refMon == c.mo && t.refDay == c.d, w << ": GLUT date " << t.refYr << "/" << t.refMon << "/" << t.refDay << " for " << c.y << "/" << c.mo << "/" << c.d);
      else REQUIRE(t.refSOW == c.sow && t.refWeek == c.wk, w << ": " << i.first << " reference " << t.refWeek << "," << t.refSOW << " for " << c.wk << "," << c.sow);
      if (f.ver > 2.9) REQUIRE(t.geoUTCid == c.id, w << ": UTC id " << t.geoUTCid << " for " << c.id); if (i.first == "SBUT") { string p = t.geoProvider, e = c.prov; p.erase(0, p.find_first_not_of(' ')); e.erase(0, e.find_first_not_of(' ')); REQUIRE(rtrim(p) == e && t.geoUTCid == c.id, w << ": provider " << q(t.geoProvider) << t.geoUTCid); }
   }
   REQUIRE(!!(h.valid & Rinex3NavHeader::validLeapSeconds) == f.leap, w << ": leap second record"); if (f.leap) { REQUIRE(h.leapSeconds == f.lp[0], w << ": leap seconds " << h.leapSeconds); if (f.ver > 2.9) REQUIRE(h.leapDelta == f.lp[1] && h.leapWeek == f.lp[2] && h.leapDay == f.lp[3], w << ": leap second change"); }
}
static void checkRec(const Rec& r, const Rinex3NavData& d, const string& w)
{
   REQUIRE(d.satSys == string(1, r.sys) && d.PRNID == r.prn && d.sat.id == r.prn + (r.sys == 'S' ? 100 : r.sys == 'J' ? 192 : 0) && d.sat.systemChar() == r.sys, w << ": satellite " << d.satSys << d.PRNID << " / " << d.sat << " for " << r.sys << r.prn);
   REQUIRE(d.time.getTimeSystem() == r.t.getTimeSystem() && std::fabs(d.time - r.t) < 1e-6, w << ": epoch " << d.time << " for " << r.t); if (r.toc >= 0) REQUIRE(std::fabs(d.Toc - r.toc) < 1e-6, w << ": Toc " << d.Toc << " for " << r.toc);
   for (auto& n : names) { auto it = r.f.find(n.first); if (it != r.f.end()) REQUIRE(eq(d.*(n.second), it->second), w << ": " << n.first << " is " << strf("%.17g for %.17g", double(d.*(n.second)), it->second)); }
   auto I = [&](const char* n, long v) { auto it = r.f.find(n); if (it != r.f.end()) REQUIRE(v == long(it->second), w << ": " << n << " is " << v << " for " << it->second); };
   I("health", d.health); I("freqNum", d.freqNum); I("codeflgs", d.codeflgs); I("L2Pdata", d.L2Pdata); I("datasources", d.datasources);
   if (r.sys == 'R' || r.sys == 'S') { REQUIRE(d.MFtime == r.mf, w << ": frame time " << d.MFtime << " for " << r.mf); return; }
   if (r.unknownXmit) { REQUIRE(d.xmitTime == 999900000 && d.weeknum == r.wk, w << ": unknown transmission time read as " << d.weeknum << "," << d.xmitTime << " (week of Toe " << r.wk << ")"); return; }
   REQUIRE(d.weeknum * 604800L + d.xmitTime == r.wk * 604800L + r.xmit, w << ": transmission " << d.weeknum << "," << d.xmitTime << " for " << r.wk << "," << r.xmit);
}
static void nav3(G& g, const File& f)
{
   string dir = pbt::scratch(), a = dir + "/a", b = dir + "/b", c = dir + "/c"; pbt::spit(a, text(f)); Rinex3NavHeader h; vector<Rinex3NavData> d; string e = read3(a, h, d); g << text(f); if (f.rec.size() > 2) g.nontrivial();
   g.label(strf("v%.2f %c", f.ver, f.fs)); REQUIRE(e.empty(), "reading a valid file: " << e); checkHead(f, h, "read", true); REQ_EQ(d.size(), f.rec.size(), "records"); for (size_t i = 0; i < d.size(); ++i) checkRec(f.rec[i], d[i], strf("record %zu", i));
   e = write3(b, h, d); REQUIRE(e.empty(), "writing what was read: " << e); Rinex3NavHeader h2; vector<Rinex3NavData> d2; string tb = pbt::slurp(b); e = read3(b, h2, d2); REQUIRE(e.empty(), "reading the rewritten file: " << e << "\n" << tb);
   { std::istringstream is(tb); string l; while (getline(is, l)) REQUIRE(l.size() <= 80 && !l.empty(), "written line of " << l.size() << " columns: " << q(l)); }
   checkHead(f, h2, "rewritten", false); REQ_EQ(d2.size(), f.rec.size(), "records rewritten"); for (size_t i = 0; i < d2.size(); ++i) checkRec(f.rec[i], d2[i], strf("rewritten record %zu", i));
   write3(c, h2, d2); auto strip = [](string s) { std::istringstream is(s); string l, o; while (getline(is, l)) if (l.find("PGM / RUN BY") == string::npos) o += l + "\n"; return o; }; string tc = pbt::slurp(c); REQUIRE(strip(tb) == strip(tc), "second writing differs:\n" << tb << "----\n" << tc);
 
}
PROP(rinex3, 15000, 40000, "a file with at least 3 records") { File f = genFile(g, 3); nav3(g, f); }
PROP(rinex2, 15000, 40000, "a file with at least 3 records") { File f = genFile(g, 2); nav3(g, f); }
PROP(reusedHeader, 6000, 10000, "both files have corrections")
{
   File f1 = genFile(g, g.flag() ? 3 : 2), f2 = genFile(g, g.flag() ? 3 : 2); string dir = pbt::scratch(); pbt::spit(dir + "/a", text(f1)); pbt::spit(dir + "/b", text(f2)); if (f1.iono.size() + f1.tc.size() && f2.iono.size() + f2.tc.size()) g.nontrivial(); g << text(f1) << "====\n" << text(f2);
   Rinex3NavHeader h; vector<Rinex3NavData> d; REQUIRE(read3(dir + "/a", h, d).empty(), "first"); REQUIRE(read3(dir + "/b", h, d).empty(), "second"); checkHead(f2, h, "header object used before", true);
}
// RINEX 2 GPS classes
PROP(rinex2gps, 15000, 30000, "a file with at least 3 records")
{
   File f = genFile(g, 20); string dir = pbt::scratch(), a = dir + "/a", b = dir + "/b"; pbt::spit(a, text(f)); g << text(f); if (f.rec.size() > 2) g.nontrivial();
   auto rd = [&](const string& fn, RinexNavHeader& h, vector<RinexNavData>& d) -> string { try { RinexNavStream in(fn.c_str(), std::ios::in); in.exceptions(std::ios::failbit); in >> h; RinexNavData r; while (in.peek() != EOF) { in >> r; d.push_back(r); } } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return ""; };
   auto chk = [&](const RinexNavHeader& h, const vector<RinexNavData>& d, const string& w)
   {
      REQUIRE(std::fabs(h.version - f.ver) < 1e-9 && h.fileProgram == f.pgm && h.fileAgency == f.by && h.commentList == f.comments, w << ": header");
      REQUIRE(!!(h.valid & RinexNavHeader::ionAlphaValid) == !!f.iono.count("GPSA") && !!(h.valid & RinexNavHeader::ionBetaValid) == !!f.iono.count("GPSB") && !!(h.valid & RinexNavHeader::deltaUTCValid) == !f.tc.empty() && !!(h.valid & RinexNavHeader::leapSecondsValid) == f.leap, w << ": records present");
      for (int k = 0; k < 4; ++k) { if (f.iono.count("GPSA")) REQUIRE(eq4(h.ionAlpha[k], f.iono.at("GPSA")[k], 1e-5), w << ": alpha " << k); if (f.iono.count("GPSB")) REQUIRE(eq4(h.ionBeta[k], f.iono.at("GPSB")[k], 1e-5), w << ": beta " << k); }
      if (!f.tc.empty()) { const TC& c = f.tc.at("GPUT"); REQUIRE(eq(h.A0, c.a0) && eq(h.A1, c.a1) && h.UTCRefTime == c.sow && h.UTCRefWeek == c.wk, w << ": UTC " << double(h.A0) << " " << double(h.A1)); } if (f.leap) REQ_EQ(h.leapSeconds, f.lp[0], w);
      REQ_EQ(d.size(), f.rec.size(), w + ": records");
      for (size_t i = 0; i < d.size(); ++i)
      {
         const Rec& r = f.rec[i]; const RinexNavData& x = d[i]; string v = w + strf(": record %zu", i); REQUIRE(x.PRNID == r.prn && x.time.getTimeSystem() == TimeSystem::GPS && std::fabs(x.time - r.t) < 1e-6, v << ": satellite and epoch " << x.PRNID << " " << x.time);
         map<string, double> m{{"af0", x.af0}, {"af1", x.af1}, {"af2", x.af2}, {"IODE", x.IODE}, {"Crs", x.Crs}, {"dn", x.dn}, {"M0", x.M0}, {"Cuc", x.Cuc}, {"ecc", x.ecc}, {"Cus", x.Cus}, {"Ahalf", x.Ahalf}, {"Toe", x.Toe}, {"Cic", x.Cic}, {"OMEGA0", x.OMEGA0}, {"Cis", x.Cis}, {"i0", x.i0}, {"Crc", x.Crc}, {"w", x.w}, {"OMEGAdot", x.OMEGAdot}, {"idot", x.idot}, {"accuracy", x.accuracy}, {"Tgd", x.Tgd}, {"IODC", x.IODC}, {"codeflgs", double(x.codeflgs)}, {"L2Pdata", double(x.L2Pdata)}, {"health", double(x.health)}, {"fileX", double(x.sf1XmitTime)}};
         if (f.ver > 2.05) m["fitint"] = x.fitint; for (auto& k : m) REQUIRE(eq(k.second, r.f.at(k.first)), v << ": " << k.first << " is " << strf("%.17g for %.17g", k.second, r.f.at(k.first))); REQ_EQ(long(x.toeWeek), r.wk, v + ": week"); REQUIRE(std::fabs(x.getTocWS().sow - r.toc) < 1e-6, v << ": Toc");
         if (!r.unknownXmit) { GPSWeekSecond ws = x.getXmitWS(); long tot = r.wk * 604800L + r.xmit; REQUIRE(ws.week * 604800L + long(ws.sow) == tot - tot % 30, v << ": transmission " << ws.week << "," << ws.sow << " for " << r.wk << "," << r.xmit); }
      }
   };
   RinexNavHeader h, h2; vector<RinexNavData> d, d2; string e = rd(a, h, d); REQUIRE(e.empty(), "reading a valid file: " << e); chk(h, d, "read");
   { RinexNavStream out(b.c_str(), std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); out << h; for (auto& r : d) out << r; } e = rd(b, h2, d2); REQUIRE(e.empty(), "reading the rewritten file: " << e); chk(h2, d2, "rewritten");
   Rinex3NavHeader h3; vector<Rinex3NavData> d3; e = read3(b, h3, d3); REQUIRE(e.empty(), "the rewritten file as RINEX 3: " << e); checkHead(f, h3, "RINEX 3 classes", false);
   for (size_t i = 0; i < d3.size(); ++i)
   {
      checkRec(f.rec[i], d3[i], strf("RINEX 3 classes: record %zu", i)); if (f.rec[i].unknownXmit || f.rec[i].xmit % 30) continue; Rinex3NavData c(d[i]); Rec r = f.rec[i]; if (f.ver < 2.05) r.f["fitint"] = d[i].fitint; checkRec(r, c, strf("Rinex3NavData(RinexNavData) %zu", i));
   }
}
// conversions to and from ephemerides, for records whose clock time is the ephemeris time
PROP(ephemerides, 20000, 200000, "a system with Keplerian elements")
{
   char s = "GECJR"[g.below(5)]; File f; f.ver = 3.04; f.fs = s; Rec r; int tries = 0; do r = genRec(g, f, s, true); while (s != 'R' && (r.unknownXmit || r.f["Toe"] != r.toc || r.wk < 2) && ++tries < 60); if (s != 'R' && tries >= 60) { g.assume(false); return; } if (s != 'R') g.nontrivial(); g.label(string(1, s));
   string dir = pbt::scratch(), a = dir + "/a"; f.head = {H("     3.04           N: GNSS NAV DATA    " + string(1, s), "RINEX VERSION / TYPE"), H("a", "PGM / RUN BY / DATE"), H("", "END OF HEADER")}; f.rec = {r}; pbt::spit(a, text(f)); g << text(f); Rinex3NavHeader h; vector<Rinex3NavData> v; string e = read3(a, h, v); REQUIRE(e.empty(), e); REQ_EQ(v.size(), size_t(1), "records"); const Rinex3NavData& d = v[0];
   auto orb = [&](const OrbitEph& o, int id, SatelliteSystem sy)
   {
      REQUIRE(o.dataLoadedFlag, "ephemeris not loaded"); REQUIRE(o.satID.id == id && o.satID.system == sy, "satellite " << o.satID); REQUIRE(std::fabs(o.ctToe.getDays() - r.t.getDays()) < 1e-9 && o.ctToe.getTimeSystem() == r.t.getTimeSystem(), "Toe " << o.ctToe << " for " << r.t); REQUIRE(o.ctToc.getTimeSystem() == r.t.getTimeSystem() && std::fabs(o.ctToc - r.t) < 1e-6, "Toc " << o.ctToc << " for " << r.t);
      REQUIRE(o.af0 == double(d.af0) && o.af1 == double(d.af1) && o.af2 == double(d.af2) && o.M0 == double(d.M0) && o.dn == double(d.dn) && o.ecc == double(d.ecc) && o.OMEGA0 == double(d.OMEGA0) && o.i0 == double(d.i0) && o.w == double(d.w) && o.OMEGAdot == double(d.OMEGAdot) && o.idot == double(d.idot) && o.Cuc == double(d.Cuc) && o.Cus == double(d.Cus) && o.Crc == double(d.Crc) && o.Crs == double(d.Crs) && o.Cic == double(d.Cic) && o.Cis == double(d.Cis), "an orbit element changed"); REQUIRE(std::fabs(o.A - d.Ahalf * d.Ahalf) < 1e-6 && o.Adot == 0 && o.dndot == 0, "semimajor axis " << o.A);
   };
   long tot = r.wk * 604800L + r.xmit; auto tx = [&](const CommonTime& t, const CommonTime& epoch0) { return std::fabs((t - epoch0) - double(tot)) < 1e-6; };
   auto back = [&](const Rinex3NavData& b, bool xm) { Rec rr = r; if (s == 'R') rr.toc = -1; map<string, double> keep; for (auto& n : rr.f) keep[n.first] = n.second; if (!xm) { long x = b.weeknum * 604800L + b.xmitTime; rr.xmit = x - rr.wk * 604800L; } if (s == 'G') { keep.erase("accuracy"); } if (s == 'E') { keep.erase("health"); } if (s == 'G' || s == 'J') keep.erase("fitint"); rr.f = keep; checkRec(rr, b, "back from the ephemeris"); };
   if (s == 'G')
   {
      GPSEphemeris o = d; orb(o, r.prn, SatelliteSystem::GPS); REQUIRE(o.IODC == int(r.f["IODC"]) && o.IODE == int(r.f["IODE"]) && o.health == int(r.f["health"]) && o.Tgd == double(d.Tgd) && o.codeflags == d.codeflgs && o.L2Pdata == d.L2Pdata, "GPS fields");
      CommonTime z = GPSWeekSecond(0, 0, TimeSystem::GPS); int half = r.f["fitint"] == 1 || r.f["fitint"] == 6 ? 3 : 2; bool even = long(r.toc) % 3600 == 0; if (even) REQUIRE(std::fabs((r.t - o.transmitTime) - half * 3600.0) < 1e-6 || r.f["fitint"] > 4, "nominal transmission time " << o.transmitTime << " for Toe " << r.t << " fit " << r.f["fitint"]); else REQUIRE(tx(o.transmitTime, z), "transmission time " << o.transmitTime);
      back(Rinex3NavData(o), !even);
   }
   else if (s == 'E') { GalEphemeris o = d; orb(o, r.prn, SatelliteSystem::Galileo); REQUIRE(o.IODnav == int(r.f["IODnav"]) && o.Tgda == double(d.Tgd) && o.Tgdb == double(d.Tgd2) && o.datasources == d.datasources && o.accuracy == double(d.accuracy), "Galileo fields"); CommonTime z = GPSWeekSecond(0, 0, TimeSystem::GAL); 
      unsigned hl = d.health, ds = d.datasources; int sh = ds & 1 ? 0 : ds & 4 ? 6 : 3; unsigned dvs = hl >> sh & 1, hs = hl >> (sh + 1) & 3; Xvt::HealthStatus want = GalEphemeris::deriveHealth(hs, dvs, d.accuracy == -1 ? 255 : 1); REQUIRE(o.health == want, "health " << int(o.health));
      REQUIRE(tx(o.transmitTime, z), "transmission time " << o.transmitTime << " for " << r.wk << "," << r.xmit); back(Rinex3NavData(o), true); }
   else if (s == 'C') { BDSEphemeris o = d; orb(o, r.prn, SatelliteSystem::BeiDou); REQUIRE(o.IODC == int(r.f["IODC"]) && o.IODE == int(r.f["IODE"]) && o.health == int(r.f["health"]) && o.Tgd13 == double(d.Tgd) && o.Tgd23 == double(d.Tgd2) && o.accuracy == double(d.accuracy), "BeiDou fields"); CommonTime z = BDSWeekSecond(0, 0, TimeSystem::BDT); REQUIRE(tx(o.transmitTime, z), "transmission time " << o.transmitTime << " for " << r.wk << "," << r.xmit); back(Rinex3NavData(o), true); }
   else if (s == 'J') { QZSEphemeris o = d; orb(o, r.prn + 192, SatelliteSystem::QZSS); REQUIRE(o.IODC == int(r.f["IODC"]) && o.IODE == int(r.f["IODE"]) && o.health == int(r.f["health"]) && o.Tgd == double(d.Tgd) && o.codeflags == d.codeflgs && o.L2Pdata == d.L2Pdata && o.accuracy == double(d.accuracy), "QZSS fields"); CommonTime z = GPSWeekSecond(0, 0, TimeSystem::QZS); REQUIRE(tx(o.transmitTime, z), "transmission time " << o.transmitTime << " for " << r.wk << "," << r.xmit); back(Rinex3NavData(o), true); }
   else { GloEphemeris o = d; REQUIRE(o.getPRNID() == r.prn && o.getSatSys() == "R" && std::fabs(o.getEpochTime() - r.t) < 1e-6, "GLONASS satellite " << o.getPRNID()); back(Rinex3NavData(o), true); }
}
PBT_MAIN
