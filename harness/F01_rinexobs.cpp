// F01: RINEX 2 and 3 observation files.
// A file is generated as text in the columns of the RINEX documents together with the content it states; reading it must
// give that content, and writing what was read must give the content again.
#include "gp.hpp"
#include "CivilTime.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "RinexObsStream.hpp"
#include "RinexObsHeader.hpp"
#include "RinexObsData.hpp"
#include "RinexObsID.hpp"
#include "RinexSatID.hpp"
using namespace gpstk; using pbt::G; using pbt::q; using pbt::strf; using std::string; using std::vector; using std::map; using std::pair;

// ------------------------------------------------------------ model
static string rj(string s, int w) { return s.size() >= (size_t)w ? s : string(w - s.size(), ' ') + s; }
static string lj(string s, int w) { return s.size() >= (size_t)w ? s : s + string(w - s.size(), ' '); }
static string rtrim(string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back(); return s; }
static string fix(long v, int dec) { long p = 1; for (int i = 0; i < dec; ++i) p *= 10; string s = strf("%ld.%0*ld", std::labs(v) / p, dec, std::labs(v) % p); return v < 0 ? "-" + s : s; }
static double dec(long v, int d) { return strtod(fix(v, d).c_str(), 0); }
static vector<string> lines(const string& t) { vector<string> v; std::istringstream is(t); string l; while (getline(is, l)) v.push_back(rtrim(l)); return v; }

struct When { int y, mo, d, h, mi; long tick; };      // tick of 1e-7 s within the minute
static CommonTime ct(const When& w, TimeSystem ts) { CommonTime c = CivilTime(w.y, w.mo, w.d, w.h, w.mi, 0.0, ts).convertToCommonTime(); c += w.tick / 1e7; return c; }
static bool same(const CommonTime& a, const CommonTime& b) { return a.getTimeSystem() == b.getTimeSystem() && std::fabs(a - b) < 6e-8; }
struct Datum { long milli; bool blank; int lli, ssi; };      // flags -1: blank
static string obsText(const Datum& d) { return (d.blank ? string(14, ' ') : rj(fix(d.milli, 3), 14)) + (d.lli < 0 ? string(" ") : strf("%d", d.lli)) + (d.ssi < 0 ? string(" ") : strf("%d", d.ssi)); }
struct Corr { string sys, name, src; };
struct Shift { string sys, code; long v5; vector<string> sats; };
struct Wave { int a, b; vector<string> sats; };
struct Aux { bool comment, marker, number, antenna, delta, interval, leap, wave, rcvoff, types; vector<string> comments; string s1, s2, s3; long hen[3]; long itv; int leaps, wf[2], rco; vector<Wave> extra; vector<string> t2; };
struct Epoch { When t; bool timed; int flag; bool clk; long clkN; vector<pair<string, vector<Datum>>> sats; vector<string> aux; Aux a; };
struct File
{
   double ver; char fileSys; TimeSystem ts; bool tsGiven;
   string pgm, by, date, name, number, type, obsr, agency, rec[3], ant[2]; vector<string> comments;
   long pos[3], hen[3], dxyz[3], pc[3], bs[3], zaz, zxyz[3], com[3]; string pcSys, pcCode; string ssu; long itv; When first, last; int rco, leap, nsv;
   bool hasNumber, hasType, hasDxyz, hasPc, hasBs, hasZa, hasZx, hasCom, hasSsu, hasItv, hasLast, hasRco, hasDcb, hasPcv, hasSf, hasPs, hasSlot, hasBias, hasLeap, hasNsv, hasPrn, hasWave;
   map<char, vector<string>> types; vector<string> t2; map<char, vector<int>> ix2;      // ix2: which RINEX 2 columns each system keeps
   vector<Corr> dcb, pcv; map<char, map<int, vector<string>>> sf; vector<Shift> ps; vector<char> psEmpty; map<string, int> slot; long bias[4]; map<string, vector<int>> prn; int wf[2]; vector<Wave> extra;
   vector<Epoch> ep; string head, body; vector<vector<string>> blocks;
};
static const char* const printable = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -_/.,:()#+*";
static string word(G& g, int w) { string s = g.str(printable, 0, g.flag(0.2) ? w : std::min(w, 12)); if (g.flag(0.1)) while ((int)s.size() < w) s += 'x'; size_t a = s.find_first_not_of(' '); if (a == string::npos) return ""; return s.substr(a, s.find_last_not_of(' ') - a + 1); }
static When when(G& g, int y0, int y1)
{
   When w; w.y = g.range(y0, y1); w.mo = g.range(1, 12); w.d = g.range(1, gp::mdays(w.y, w.mo, true)); w.h = g.range(0, 23); w.mi = g.range(0, 59);
   if (g.flag(0.1)) { w.mo = 12; w.d = 31; w.h = 23; w.mi = 59; }
   w.tick = g.flag(0.6) ? g.range(0, 59) * 10000000L : g.flag(0.3) ? 599999999L - g.range(0, 3) : g.range(0, 599999999L); return w;
}
static const vector<string>& pool(char sys, double ver)
{
   static map<pair<char, int>, vector<string>> cache; auto& v = cache[{sys, int(ver * 100 + 0.5)}]; if (!v.empty()) return v;
   for (auto& b : RinexObsID::validRinexTrackingCodes[sys]) for (char c : b.second) for (char t : {'C', 'L', 'D', 'S'})
   {
      if (!isalpha(c)) continue; string id = string(1, sys) + t + b.first + c;
      try { RinexObsID o(id, ver); if (o.asString(ver) == id.substr(1)) v.push_back(id.substr(1)); } catch (Exception&) {}
   }
   return v;
}
static string sat(G& g, char s)
{
   int hi = s == 'G' ? 32 : s == 'R' ? 27 : s == 'E' ? 36 : s == 'C' ? 63 : s == 'J' ? 9 : s == 'I' ? 14 : 99; return strf("%c%02d", s, (int)g.range(s == 'S' ? 20 : 1, hi));
}
static Datum datum(G& g)
{
   Datum d; d.blank = g.flag(0.1); d.milli = d.blank ? 0 : g.flag(0.7) ? g.range(18000000000L, 30000000000L) : g.flag() ? g.range(-99999, 99999) : g.flag() ? g.range(-999999999999L, 9999999999999L) : (long)g.pick({0, 1, -1, 500, 999, 1000});
   d.lli = g.flag(0.6) ? -1 : g.range(0, 7); d.ssi = g.flag(0.5) ? -1 : g.range(0, 9); if (d.blank && g.flag(0.8)) d.lli = d.ssi = -1; return d;
}
static string H(const string& body, const string& label) { return lj(body, 60) + label; }
static string xyz(const long* v) { return rj(fix(v[0], 4), 14) + rj(fix(v[1], 4), 14) + rj(fix(v[2], 4), 14); }
static void gen3(G& g, long* v, long lim = 999999999999L) { for (int i = 0; i < 3; ++i) v[i] = g.flag(0.2) ? 0 : g.range(-lim / 10, lim); }
static string tobs(const When& w, const string& ts) { return strf("%6d%6d%6d%6d%6d", w.y, w.mo, w.d, w.h, w.mi) + rj(fix(w.tick, 7), 13) + "     " + ts; }
static string tsName(TimeSystem t) { return t == TimeSystem::GPS ? "GPS" : t == TimeSystem::GLO ? "GLO" : t == TimeSystem::GAL ? "GAL" : t == TimeSystem::BDT ? "BDT" : t == TimeSystem::QZS ? "QZS" : t == TimeSystem::IRN ? "IRN" : "   "; }
static void typeLines(vector<string>& o, const vector<string>& t2) { string l; for (size_t i = 0; i < t2.size(); ++i) { if (i % 9 == 0) { if (i) o.push_back(H(l, "# / TYPES OF OBSERV")); l = i ? string(6, ' ') : rj(std::to_string(t2.size()), 6); } l += rj(t2[i], 6); } o.push_back(H(l, "# / TYPES OF OBSERV")); }
static void waveLines(vector<string>& o, const int* wf, const vector<Wave>& ex)
{
   o.push_back(H(strf("%6d%6d", wf[0], wf[1]), "WAVELENGTH FACT L1/2"));
   for (auto& w : ex) { string l = strf("%6d%6d%6d", w.a, w.b, (int)w.sats.size()); for (auto& s : w.sats) l += "   " + s; o.push_back(H(l, "WAVELENGTH FACT L1/2")); }
}
static void genWave(G& g, char fs, int* wf, vector<Wave>& ex)
{
   wf[0] = g.range(0, 2); wf[1] = g.range(0, 2); std::set<string> used; int n = g.below(4);
   for (int i = 0; i < n; ++i) { Wave w; w.a = g.range(0, 2); w.b = g.range(0, 2); int k = g.range(1, 7); for (int j = 0; j < k; ++j) { string s = sat(g, fs == 'M' ? 'G' : fs); if (used.insert(s).second) w.sats.push_back(s); } if (!w.sats.empty()) ex.push_back(w); }
}
   // records inside an event epoch
static void auxGen(G& g, bool v2, Epoch& e, char fs)
{
   Aux& a = e.a; a = Aux(); a.comment = g.flag(0.7); a.marker = g.flag(0.3); a.number = g.flag(0.2); a.antenna = g.flag(0.2); a.delta = g.flag(0.3); a.interval = g.flag(0.2); a.leap = g.flag(0.2); a.rcvoff = g.flag(0.2); a.wave = v2 && g.flag(0.2); a.types = v2 && g.flag(0.15);
   if (a.comment) { int n = g.range(1, g.flag(0.1) ? 30 : 4); for (int i = 0; i < n; ++i) a.comments.push_back(word(g, 60)); }
   a.s1 = word(g, 60); a.s2 = word(g, 20); a.s3 = word(g, 20); gen3(g, a.hen, 9999999); a.itv = g.range(0, 99999999); a.leaps = g.range(-20, 40); a.rco = g.range(0, 1); if (a.wave) genWave(g, fs, a.wf, a.extra);
   if (a.types) { a.t2 = {"C1", "L1", "L2", "P2", "P1", "D1", "D2", "S1", "S2", "C2", "C5", "L5"}; g.shuffle(a.t2); a.t2.resize(g.range(1, 12)); }
   vector<vector<string>> o; auto one = [&](string s) { o.push_back({s}); };
   if (a.comment) { vector<string> c; for (auto& s : a.comments) c.push_back(H(s, "COMMENT")); o.push_back(c); }
   if (a.marker) one(H(a.s1, "MARKER NAME")); if (a.number) one(H(a.s2, "MARKER NUMBER")); if (a.antenna) one(H(lj(a.s3, 20) + a.s2, "ANT # / TYPE")); if (a.delta) one(H(xyz(a.hen), "ANTENNA: DELTA H/E/N"));
   if (a.interval) one(H(rj(fix(a.itv, 3), 10), "INTERVAL")); if (a.leap) one(H(rj(std::to_string(a.leaps), 6), "LEAP SECONDS")); if (a.rcvoff) one(H(rj(std::to_string(a.rco), 6), "RCV CLOCK OFFS APPL"));
   if (a.wave) { vector<string> w; waveLines(w, a.wf, a.extra); o.push_back(w); } if (a.types) { vector<string> w; typeLines(w, a.t2); o.push_back(w); }
   g.shuffle(o); for (auto& b : o) for (auto& l : b) e.aux.push_back(l);
}
   // kind 3: RINEX 3; 2: RINEX 2
static File genFile(G& g, int kind, bool legacy = false)
{
   File f; f.ver = kind == 3 ? g.pick({3.00, 3.01, 3.02, 3.03, 3.04}) : g.pick({2.0, 2.1, 2.11, 2.11}); bool r3 = kind == 3;
   string all = r3 ? "GREC" : "GRES"; if (r3 && f.ver > 3.015) all += "J"; if (r3) all += "S"; if (r3 && f.ver > 3.025) all += "I";
   vector<char> syss; int ns = g.weighted({2, 2, 1, 1}) + 1; vector<char> av(all.begin(), all.end()); g.shuffle(av); av.resize(std::min<size_t>(ns, av.size())); syss = av; std::sort(syss.begin(), syss.end());
   f.fileSys = syss.size() == 1 && g.flag(0.7) ? syss[0] : 'M'; if (!r3 && f.fileSys == 'S') f.fileSys = 'M';
   f.pgm = word(g, 20); f.by = word(g, 20); f.date = word(g, 20); f.name = word(g, 60); f.number = word(g, 20); f.type = word(g, 20); f.obsr = word(g, 20); f.agency = word(g, 40); for (auto& x : f.rec) x = word(g, 20); for (auto& x : f.ant) x = word(g, 20);
   int nc = g.weighted({3, 3, 1}) == 2 ? g.range(5, 40) : g.below(4); for (int i = 0; i < nc; ++i) f.comments.push_back(word(g, 60));
   gen3(g, f.pos); gen3(g, f.hen, 9999999); gen3(g, f.dxyz, 9999999); gen3(g, f.pc, 9999999); gen3(g, f.bs, 9999999); gen3(g, f.zxyz, 9999999); gen3(g, f.com, 9999999); f.zaz = g.range(0, 3599999);
   f.ssu = g.pick<string>({"DBHZ", "dbHz", "V/V", ""}); f.itv = g.flag() ? g.range(1, 120) * 1000L : g.range(0, 999999999); f.rco = g.range(0, 1); f.leap = g.range(-30, 99); f.nsv = g.range(0, 9999);
   f.first = when(g, 1981, r3 ? 2079 : g.flag(0.2) ? 1999 : 2079); f.last = when(g, f.first.y, f.first.y); 
   vector<TimeSystem> tss; for (char s : r3 ? (f.ver > 3.025 ? string("GRECJI") : f.ver > 3.015 ? string("GRECJ") : string("GRE")) : string("GRE")) tss.push_back(s == 'G' ? TimeSystem::GPS : s == 'R' ? TimeSystem::GLO : s == 'E' ? TimeSystem::GAL : s == 'C' ? TimeSystem::BDT : s == 'J' ? TimeSystem::QZS : TimeSystem::IRN);
   f.ts = tss[g.below(tss.size())]; f.tsGiven = true; if (f.fileSys == 'G' && g.flag(0.3)) { f.tsGiven = false; f.ts = TimeSystem::GPS; } else if (f.fileSys == 'E' && g.flag(0.3)) { f.tsGiven = false; f.ts = TimeSystem::GAL; }
   auto fl = [&](double p) { return g.flag(p); };
   f.hasNumber = fl(.4); f.hasType = r3 && fl(.6); f.hasDxyz = r3 && fl(.25); f.hasPc = r3 && fl(.25); f.hasBs = r3 && fl(.25); f.hasZa = r3 && fl(.25); f.hasZx = r3 && fl(.25); f.hasCom = r3 && fl(.25); f.hasSsu = r3 && fl(.4); f.hasItv = fl(.5); f.hasLast = fl(.5); f.hasRco = fl(.4);
   f.hasDcb = r3 && fl(.3); f.hasPcv = r3 && fl(.3); f.hasSf = r3 && fl(.4); f.hasPs = r3 && f.ver > 3.005 && fl(.6); f.hasSlot = r3 && f.ver > 3.005 && (fl(.3)); f.hasBias = r3 && f.ver > 3.015 && fl(.3); f.hasLeap = fl(.4); f.hasNsv = fl(.4); f.hasPrn = fl(.4); f.hasWave = !r3 && (f.ver < 2.105 || fl(.5));
   if (r3 && std::count(syss.begin(), syss.end(), 'R')) { if (f.ver > 3.005) f.hasSlot = true; if (f.ver > 3.015) f.hasBias = true; }
      // observation types
   if (r3) for (char s : syss) { auto p = pool(s, f.ver); REQUIRE(!p.empty(), "no observation codes for system " << s); g.shuffle(p); int n = g.flag(0.3) ? g.pick({1, 12, 13, 14, 26, 27, 39}) : g.range(1, g.flag(0.2) ? 45 : 14); p.resize(std::min<size_t>(n, p.size())); f.types[s] = p; }
   else
   {
      vector<string> p{"L1", "L2", "C1", "C2", "P1", "P2", "D1", "D2", "S1", "S2", "C5", "L5", "D5", "S5", "C6", "L6", "D6", "S6", "C7", "L7", "D7", "S7", "C8", "L8", "D8", "S8"}; if (g.flag(0.2)) { p.push_back("T1"); p.push_back("T2"); }
      g.shuffle(p); int n = g.flag(0.3) ? g.pick({1, 5, 9, 10, 18, 19, 20, 26, 28}) : g.range(1, 12); p.resize(std::min<size_t>(n, p.size())); f.t2 = p;
      bool P2 = std::count(p.begin(), p.end(), "P2");
      for (char s : string("GRES"))      // the identifier each RINEX 2 type stands for
      {
         for (size_t i = 0; i < p.size(); ++i)
         {
            char t = p[i][0], b = p[i][1]; string c;
            if (t == 'T') continue; char ty = t == 'P' ? 'C' : t;
            if (s == 'G') { if (b == '1') c = t == 'P' ? "W" : "C"; else if (b == '2') c = t == 'C' ? "X" : t == 'P' ? "W" : P2 ? "W" : "X"; else if (b == '5') c = "X"; }
            else if (s == 'R') { if (b == '1' || b == '2') c = t == 'P' ? "P" : "C"; }
            else if (s == 'E') { if (t != 'P') c = b == '1' ? "B" : b == '5' ? "I" : b == '6' || b == '7' || b == '8' ? "X" : ""; }
            else { if (t != 'P') c = b == '1' ? "C" : b == '5' ? "X" : ""; }
            if (c.empty()) continue; f.types[s].push_back(string(1, ty) + b + c); f.ix2[s].push_back(i);
         }
      }
   }
   if (f.hasPc) { f.pcSys = string(1, syss[0]); f.pcCode = r3 ? f.types[syss[0]][0] : ""; }
   auto corrs = [&](vector<Corr>& v) { int n = g.range(1, 4); for (int i = 0; i < n; ++i) v.push_back({string(1, syss[g.below(syss.size())]), word(g, 17), word(g, 40)}); };
   if (f.hasDcb) corrs(f.dcb); if (f.hasPcv) corrs(f.pcv);
   if (f.hasSf) { for (char s : syss) { if (g.flag(0.3)) continue; bool any = false; for (auto& t : f.types[s]) { int k = g.weighted({3, 2, 1, 1, 1}); if (!k) continue; any = true; f.sf[s][k == 1 ? 1 : k == 2 ? 10 : k == 3 ? 100 : 1000].push_back(t); } (void)any; if (g.flag(0.2)) { f.sf[s].clear(); f.sf[s][g.pick({1, 10, 100, 1000})] = f.types[s]; } } for (auto i = f.sf.begin(); i != f.sf.end();) if (i->second.empty()) i = f.sf.erase(i); else ++i; if (f.sf.empty()) f.hasSf = false; }
   auto satList = [&](char s, int n) { std::set<string> u; for (int i = 0; i < n; ++i) u.insert(sat(g, s)); return vector<string>(u.begin(), u.end()); };
   if (f.hasPs) for (char s : syss) { bool any = false; for (auto& t : f.types[s]) if (t[0] == 'L' && g.flag()) { any = true; f.ps.push_back({string(1, s), t, g.pick({25000L, -25000L, 0L, 50000L, -50000L, 12345L, -99999L}), g.flag(0.4) ? satList(s, g.flag(0.4) ? g.pick({9, 10, 11, 20, 30}) : g.range(1, 14)) : vector<string>()}); } if (!any) f.psEmpty.push_back(s); }
   if (f.hasSlot) for (auto& s : satList('R', g.flag(0.3) ? g.pick({8, 40}) : g.range(1, 24))) f.slot[s] = g.range(-7, 6);
   for (auto& b : f.bias) b = g.flag(0.2) ? 0 : g.range(-999999, 999999);
   if (f.hasPrn) { for (char s : syss) for (auto& t : satList(s, g.range(1, 8))) { vector<int> v; size_t n = r3 ? f.types[s].size() : f.t2.size(); for (size_t i = 0; i < n; ++i) v.push_back(g.flag(0.2) ? 0 : g.range(0, 99999)); f.prn[t] = v; } }
   if (f.hasWave) genWave(g, f.fileSys, f.wf, f.extra);
   if (!r3 && f.hasPrn) for (auto i = f.types.begin(); i != f.types.end();) { if (!std::count(syss.begin(), syss.end(), i->first)) i = f.types.erase(i); else ++i; }
   if (!r3 && !f.hasPrn && f.fileSys != 'M') for (auto i = f.types.begin(); i != f.types.end();) { if (i->first != f.fileSys) i = f.types.erase(i); else ++i; }
      // header text
   vector<vector<string>> o; auto one = [&](string b, string l) { o.push_back({H(b, l)}); };
   one(lj(f.pgm, 20) + lj(f.by, 20) + f.date, "PGM / RUN BY / DATE"); { vector<string> v; for (auto& c : f.comments) v.push_back(H(c, "COMMENT")); o.push_back(v); }
   one(f.name, "MARKER NAME"); if (f.hasNumber) one(f.number, "MARKER NUMBER"); if (f.hasType) one(f.type, "MARKER TYPE"); one(lj(f.obsr, 20) + f.agency, "OBSERVER / AGENCY"); one(lj(f.rec[0], 20) + lj(f.rec[1], 20) + f.rec[2], "REC # / TYPE / VERS"); one(lj(f.ant[0], 20) + f.ant[1], "ANT # / TYPE");
   one(xyz(f.pos), "APPROX POSITION XYZ"); one(xyz(f.hen), "ANTENNA: DELTA H/E/N"); if (f.hasDxyz) one(xyz(f.dxyz), "ANTENNA: DELTA X/Y/Z"); if (f.hasPc) one(f.pcSys + " " + f.pcCode + rj(fix(f.pc[0], 4), 9) + rj(fix(f.pc[1], 4), 14) + rj(fix(f.pc[2], 4), 14), "ANTENNA: PHASECENTER");
   if (f.hasBs) one(xyz(f.bs), "ANTENNA: B.SIGHT XYZ"); if (f.hasZa) one(rj(fix(f.zaz, 4), 14), "ANTENNA: ZERODIR AZI"); if (f.hasZx) one(xyz(f.zxyz), "ANTENNA: ZERODIR XYZ"); if (f.hasCom) one(xyz(f.com), "CENTER OF MASS: XYZ"); if (f.hasSsu) one(f.ssu, "SIGNAL STRENGTH UNIT"); if (f.hasItv) one(rj(fix(f.itv, 3), 10), "INTERVAL");
   one(tobs(f.first, f.tsGiven ? tsName(f.ts) : ""), "TIME OF FIRST OBS"); if (f.hasLast) one(tobs(f.last, f.tsGiven ? tsName(f.ts) : ""), "TIME OF LAST OBS"); if (f.hasRco) one(rj(std::to_string(f.rco), 6), "RCV CLOCK OFFS APPL"); if (f.hasLeap) one(rj(std::to_string(f.leap), 6), "LEAP SECONDS"); if (f.hasNsv) one(rj(std::to_string(f.nsv), 6), "# OF SATELLITES");
   for (auto* c : {&f.dcb, &f.pcv}) { vector<string> v; for (auto& x : *c) v.push_back(H(x.sys + " " + lj(x.name, 17) + " " + x.src, c == &f.dcb ? "SYS / DCBS APPLIED" : "SYS / PCVS APPLIED")); o.push_back(v); }
   vector<string> ty;
   if (!r3) typeLines(ty, f.t2);
   else for (auto& s : f.types) { string l = strf("%c  %3d", s.first, (int)s.second.size()); for (size_t i = 0; i < s.second.size(); ++i) { if (i && i % 13 == 0) { ty.push_back(H(l, "SYS / # / OBS TYPES")); l = string(6, ' '); } l += " " + s.second[i]; } ty.push_back(H(l, "SYS / # / OBS TYPES")); }
   if (f.hasSf) { vector<string> v; for (auto& s : f.sf) { if (s.second.size() == 1 && s.second.begin()->second == f.types[s.first] && g.flag()) { v.push_back(H(strf("%c %4d  %2s", s.first, s.second.begin()->first, g.flag() ? " 0" : ""), "SYS / SCALE FACTOR")); continue; } vector<int> fs; for (auto& k : s.second) fs.push_back(k.first); g.shuffle(fs); for (int k : fs) { auto& t = s.second[k]; string l = strf("%c %4d  %2d", s.first, k, (int)t.size()); for (size_t i = 0; i < t.size(); ++i) { if (i && i % 12 == 0) { v.push_back(H(l, "SYS / SCALE FACTOR")); l = string(10, ' '); } l += " " + t[i]; } v.push_back(H(l, "SYS / SCALE FACTOR")); } } o.push_back(v); }
   if (f.hasPs) { vector<string> v; for (char s : f.psEmpty) v.push_back(H(string(1, s), "SYS / PHASE SHIFT")); for (auto& p : f.ps) { string l = p.sys + " " + p.code + " " + rj(fix(p.v5, 5), 8); if (!p.sats.empty()) { l += strf("  %02d", (int)p.sats.size()); for (size_t i = 0; i < p.sats.size(); ++i) { if (i && i % 10 == 0) { v.push_back(H(l, "SYS / PHASE SHIFT")); l = string(18, ' '); } l += " " + p.sats[i]; } } v.push_back(H(l, "SYS / PHASE SHIFT")); } o.push_back(v); }
   if (f.hasSlot) { vector<string> v; string l = rj(std::to_string(f.slot.size()), 3) + " "; size_t i = 0; for (auto& s : f.slot) { if (i && i % 8 == 0) { v.push_back(H(l, "GLONASS SLOT / FRQ #")); l = string(4, ' '); } l += s.first + strf(" %2d ", s.second); ++i; } v.push_back(H(l, "GLONASS SLOT / FRQ #")); o.push_back(v); }
   if (f.hasBias) { string l; const char* n[4] = {"C1C", "C1P", "C2C", "C2P"}; for (int i = 0; i < 4; ++i) l += string(" ") + n[i] + " " + rj(fix(f.bias[i], 3), 8); one(l, "GLONASS COD/PHS/BIS"); }
   if (f.hasWave) { vector<string> v; waveLines(v, f.wf, f.extra); o.push_back(v); }
   vector<string> pr; if (f.hasPrn) for (auto& s : f.prn) { string l = "   " + s.first; for (size_t i = 0; i < s.second.size(); ++i) { if (i && i % 9 == 0) { pr.push_back(H(l, "PRN / # OF OBS")); l = string(6, ' '); } l += rj(std::to_string(s.second[i]), 6); } pr.push_back(H(l, "PRN / # OF OBS")); }
   g.shuffle(o); { size_t half = g.below(o.size()); vector<string> L; L.push_back(H(rj(fix(long(f.ver * 100 + 0.5), 2), 9) + string(11, ' ') + lj("OBSERVATION DATA", 20) + (f.fileSys == 'M' ? "M (MIXED)" : string(1, f.fileSys)), "RINEX VERSION / TYPE")); for (auto& l : ty) L.push_back(l); for (size_t i = 0; i < o.size(); ++i) { if (i == half) for (auto& l : pr) L.push_back(l); for (auto& l : o[i]) L.push_back(l); } L.push_back(H("", "END OF HEADER")); for (auto& l : L) f.head += l + "\n"; }
      // epochs
   vector<char> usable; for (auto& s : f.types) if (std::count(syss.begin(), syss.end(), s.first) && (r3 || f.fileSys == 'M' || s.first == f.fileSys)) usable.push_back(s.first);
   if (usable.empty()) return f;
   int ne = g.range(0, 6); int century = f.first.y / 100 * 100;
   for (int i = 0; i < ne; ++i)
   {
      Epoch e; e.t = when(g, r3 ? 1981 : f.first.y, r3 ? 2079 : f.first.y); if (!r3 && f.first.y == century + 99 && g.flag()) { e.t.y = century + 100; } e.timed = true; e.clk = false; e.clkN = 0; int k = g.weighted({6, 1, 1, 2}); string& b = f.body; vector<string> blk;
      bool min60 = g.flag(0.03); string ss = min60 ? " 60.0000000" : rj(fix(e.t.tick, 7), 11); string tt = r3 ? strf("> %4d %02d %02d %02d %02d", e.t.y, e.t.mo, e.t.d, e.t.h, e.t.mi) + ss : g.flag() ? strf(" %02d %2d %2d %2d %2d", e.t.y % 100, e.t.mo, e.t.d, e.t.h, e.t.mi) + ss : strf(" %02d %02d %02d %02d %02d", e.t.y % 100, e.t.mo, e.t.d, e.t.h, e.t.mi) + ss;
      if (min60) e.t.tick = 600000000;
      if (k < 3)
      {
         e.flag = k == 0 ? 0 : k == 1 ? 1 : 6; std::set<string> ids; int n = g.flag(0.3) ? g.pick({1, 11, 12, 13, 24, 25, 36, 40}) : g.range(1, 14); for (int j = 0; j < 4 * n && (int)ids.size() < n; ++j) ids.insert(sat(g, usable[g.below(usable.size())])); vector<string> v(ids.begin(), ids.end()); g.shuffle(v);
         for (auto& s : v) { vector<Datum> d; size_t m = r3 ? f.types[s[0]].size() : f.t2.size(); for (size_t j = 0; j < m; ++j) d.push_back(datum(g)); if (g.flag(0.1)) while (g.flag(0.8)) { for (size_t j = m; j-- > 0;) if (!d[j].blank) { d[j] = {0, true, -1, -1}; break; } if (g.flag(0.3)) break; } e.sats.push_back({s, d}); }
         e.clk = g.flag(0.3); if (e.clk) { do e.clkN = r3 ? g.range(-99999999999L, 999999999999L) : g.range(-99999999, 999999999); while (e.clkN == 0); }
         if (r3) { string l = tt + strf("  %d%3d", e.flag, (int)v.size()); if (e.clk) l = lj(l, 41) + rj(fix(e.clkN, 12), 15); blk.push_back(l); for (auto& s : e.sats) { string t = s.first; for (auto& d : s.second) t += obsText(d); blk.push_back(g.flag(0.7) ? rtrim(t) : t); } }
         else
         {
            string l = tt + strf("  %d%3d", e.flag, (int)v.size()); vector<string> cont; for (size_t j = 0; j < v.size(); ++j) { if (j < 12) l += v[j]; else { if (j % 12 == 0) cont.push_back(string(32, ' ')); cont.back() += v[j]; } } if (e.clk) l = lj(l, 68) + rj(fix(e.clkN, 9), 12); blk.push_back(l); for (auto& c : cont) blk.push_back(c);
            for (auto& s : e.sats) { string t; for (size_t j = 0; j < s.second.size(); ++j) { if (j && j % 5 == 0) { blk.push_back(g.flag(0.7) ? rtrim(t) : t); t = ""; } t += obsText(s.second[j]); } blk.push_back(g.flag(0.7) ? rtrim(t) : t); }
         }
      }
      else
      {
         e.flag = g.range(2, 5); auxGen(g, !r3, e, f.fileSys); if (!legacy && e.flag < 5 && g.flag(0.3) && (r3 || !f.ep.empty())) e.timed = false; if (!r3 && e.aux.empty()) { e.a.comment = true; e.a.comments = {"x"}; e.aux = {H("x", "COMMENT")}; }
         string l = (e.timed ? tt : r3 ? ">" + string(28, ' ') : string(26, ' ')) + strf("  %d%3d", e.flag, (int)e.aux.size()); blk.push_back(l); for (auto& a : e.aux) blk.push_back(a);
         if (!e.timed && !r3) e.t = f.ep.back().t;
      }
      for (auto& l : blk) b += l + "\n"; f.blocks.push_back(blk); f.ep.push_back(e);
   }
   return f;
}
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t; }
#define F(c, what) REQUIRE(c, tag << ": " << what << "\n--- file\n" << text)
static void triple(const Triple& a, const long* b, const char* what, const string& tag, const string& text) { for (int i = 0; i < 3; ++i) F(near(a[i], dec(b[i], 4), 1e-9 + std::fabs(a[i]) * 1e-15), what << " " << pbt::d2s(a[i]) << " for " << fix(b[i], 4)); }
static void cmpAux(const Rinex3ObsHeader& h, const Aux& a, const string& tag, const string& text)
{
   typedef Rinex3ObsHeader R; auto has = [&](R::Field x) { return h.valid.isSet(x); };
   F(has(R::validComment) == a.comment && h.commentList == a.comments, "event comments"); F(has(R::validMarkerName) == a.marker && (!a.marker || h.markerName == a.s1), "event marker name"); F(has(R::validMarkerNumber) == a.number && (!a.number || h.markerNumber == a.s2), "event marker number");
   F(has(R::validAntennaType) == a.antenna && (!a.antenna || (h.antNo == a.s3 && h.antType == a.s2)), "event antenna"); F(has(R::validAntennaDeltaHEN) == a.delta, "event antenna delta"); if (a.delta) triple(h.antennaDeltaHEN, a.hen, "event antenna delta", tag, text);
   F(has(R::validInterval) == a.interval && (!a.interval || near(h.interval, dec(a.itv, 3), 1e-9)), "event interval"); F(has(R::validLeapSeconds) == a.leap && (!a.leap || h.leapSeconds == a.leaps), "event leap seconds"); F(has(R::validReceiverOffset) == a.rcvoff && (!a.rcvoff || h.receiverOffset == a.rco), "event receiver offset");
   F(has(R::validWaveFact) == a.wave, "event wavelength factors present " << has(R::validWaveFact)); if (a.wave) { F(h.wavelengthFactor[0] == a.wf[0] && h.wavelengthFactor[1] == a.wf[1] && h.extraWaveFactList.size() == a.extra.size(), "event wavelength factors"); }
   F(has(R::validNumObs) == a.types && (!a.types || h.R2ObsTypes == a.t2), "event observation types");
}
static void cmpHead(const Rinex3ObsHeader& h, const File& f, const string& tag, const string& text)
{
   typedef Rinex3ObsHeader R; bool r3 = f.ver > 2.995; auto has = [&](R::Field x) { return h.valid.isSet(x); };
   F(near(h.version, f.ver, 1e-9), "version " << h.version); F(!h.fileType.empty() && h.fileType[0] == 'O', "file type " << q(h.fileType)); F(f.fileSys == 'M' ? h.fileSysSat.system == SatelliteSystem::Mixed : RinexSatID(h.fileSysSat).systemChar() == f.fileSys, "file system " << h.fileSysSat);
#define STR(m, v) F(m == v, #m " is " << q(m) << ", file has " << q(v))
#define OPT(b, c) F(has(R::c) == (b), #c " is " << has(R::c))
   STR(h.fileProgram, f.pgm); STR(h.fileAgency, f.by); STR(h.date, f.date); STR(h.markerName, f.name); STR(h.observer, f.obsr); STR(h.agency, f.agency); STR(h.recNo, f.rec[0]); STR(h.recType, f.rec[1]); STR(h.recVers, f.rec[2]); STR(h.antNo, f.ant[0]); STR(h.antType, f.ant[1]); F(h.commentList == f.comments, "comments (" << h.commentList.size() << " for " << f.comments.size() << ")");
   OPT(f.hasNumber, validMarkerNumber); if (f.hasNumber) STR(h.markerNumber, f.number); OPT(f.hasType, validMarkerType); if (f.hasType) STR(h.markerType, f.type);
   triple(h.antennaPosition, f.pos, "position", tag, text); triple(h.antennaDeltaHEN, f.hen, "delta HEN", tag, text); OPT(f.hasDxyz, validAntennaDeltaXYZ); if (f.hasDxyz) triple(h.antennaDeltaXYZ, f.dxyz, "delta XYZ", tag, text);
   OPT(f.hasPc, validAntennaPhaseCtr); if (f.hasPc) { STR(h.antennaSatSys, f.pcSys); STR(h.antennaObsCode, f.pcCode); triple(h.antennaPhaseCtr, f.pc, "phase centre", tag, text); }
   OPT(f.hasBs, validAntennaBsightXYZ); if (f.hasBs) triple(h.antennaBsightXYZ, f.bs, "boresight", tag, text); OPT(f.hasZa, validAntennaZeroDirAzi); if (f.hasZa) F(near(h.antennaZeroDirAzi, dec(f.zaz, 4), 1e-9), "zero direction azimuth"); OPT(f.hasZx, validAntennaZeroDirXYZ); if (f.hasZx) triple(h.antennaZeroDirXYZ, f.zxyz, "zero direction", tag, text); OPT(f.hasCom, validCenterOfMass); if (f.hasCom) triple(h.centerOfMass, f.com, "centre of mass", tag, text);
   OPT(f.hasSsu, validSigStrengthUnit); if (f.hasSsu) STR(h.sigStrengthUnit, f.ssu); OPT(f.hasItv, validInterval); if (f.hasItv) F(near(h.interval, dec(f.itv, 3), 1e-9), "interval " << h.interval); OPT(f.hasRco, validReceiverOffset); if (f.hasRco) F(h.receiverOffset == f.rco, "receiver offset"); OPT(f.hasLeap, validLeapSeconds); if (f.hasLeap) F(h.leapSeconds == f.leap, "leap seconds " << h.leapSeconds); OPT(f.hasNsv, validNumSats); if (f.hasNsv) F(h.numSVs == f.nsv, "number of satellites " << h.numSVs);
   auto tm = [&](const CivilTime& c, const When& w, const char* what) { F(c.year == w.y && c.month == w.mo && c.day == w.d && c.hour == w.h && c.minute == w.mi && near(c.second, w.tick / 1e7, 6e-8), what << " " << c.asString()); if (f.tsGiven) F(c.getTimeSystem() == f.ts, what << " time system " << int(c.getTimeSystem())); }; tm(h.firstObs, f.first, "first obs"); OPT(f.hasLast, validLastTime); if (f.hasLast) tm(h.lastObs, f.last, "last obs");
   for (auto* c : {&f.dcb, &f.pcv}) { auto& v = c == &f.dcb ? h.infoDCBS : h.infoPCVS; bool ok = v.size() == c->size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = v[i].satSys == (*c)[i].sys && v[i].name == (*c)[i].name && v[i].source == (*c)[i].src; F(ok, (c == &f.dcb ? "DCBS applied" : "PCVS applied")); }
   { map<char, vector<string>> t; for (auto& s : h.mapObsTypes) for (auto& o : s.second) t[s.first[0]].push_back(o.asString(f.ver)); map<char, vector<string>> w; for (auto& s : f.types) if (!s.second.empty()) w[s.first] = s.second; F(t == w, "observation types of " << t.size() << " systems, file has " << w.size()); }
   if (!r3) { F(h.R2ObsTypes == f.t2, "RINEX 2 observation types, " << h.R2ObsTypes.size() << " for " << f.t2.size()); OPT(f.hasWave, validWaveFact); if (f.hasWave) { bool ok = h.wavelengthFactor[0] == f.wf[0] && h.wavelengthFactor[1] == f.wf[1] && h.extraWaveFactList.size() == f.extra.size(); for (size_t i = 0; ok && i < f.extra.size(); ++i) { auto& a = h.extraWaveFactList[i]; ok = a.wavelengthFactor[0] == f.extra[i].a && a.wavelengthFactor[1] == f.extra[i].b && a.satList.size() == f.extra[i].sats.size(); for (size_t j = 0; ok && j < a.satList.size(); ++j) ok = RinexSatID(a.satList[j]).toString() == f.extra[i].sats[j]; } F(ok, "wavelength factors"); } }
   if (f.hasSf) { map<char, map<string, int>> a, b; for (auto& s : h.sysSfacMap) for (auto& o : s.second) a[s.first[0]][o.first.asString(f.ver)] = o.second; for (auto& s : f.sf) for (auto& k : s.second) for (auto& t : k.second) b[s.first][t] = k.first; string da; if (a != b) for (auto& s : b) for (auto& t : s.second) if (a[s.first][t.first] != t.second) da += strf(" %c%s %d (file %d)", s.first, t.first.c_str(), a[s.first][t.first], t.second); F(a == b, "scale factors" << da); } OPT(f.hasSf, validSystemScaleFac);
   if (f.hasPs) { std::set<string> a, b; for (auto& s : h.sysPhaseShift) { if (s.second.empty()) a.insert(s.first + " none"); for (auto& o : s.second) for (auto& k : o.second) a.insert(s.first + " " + o.first.asString(f.ver) + strf(" %.5f ", k.second + 0.0) + (k.first.id == -1 ? "all" : k.first.toString())); } for (char s : f.psEmpty) b.insert(string(1, s) + " none"); for (auto& p : f.ps) { if (p.sats.empty()) b.insert(p.sys + " " + p.code + strf(" %.5f all", dec(p.v5, 5))); for (auto& k : p.sats) b.insert(p.sys + " " + p.code + strf(" %.5f ", dec(p.v5, 5)) + k); } F(a == b, "phase shifts (" << a.size() << " for " << b.size() << ")"); }
   OPT(f.hasSlot, validGlonassSlotFreqNo); if (f.hasSlot) { map<string, int> a; for (auto& s : h.glonassFreqNo) a[s.first.toString()] = s.second; F(a == f.slot, "GLONASS slots (" << a.size() << " for " << f.slot.size() << ")"); }
   OPT(f.hasBias, validGlonassCodPhsBias); if (f.hasBias) { const char* n[4] = {"C1C", "C1P", "C2C", "C2P"}; bool ok = h.glonassCodPhsBias.size() == 4; for (auto& k : h.glonassCodPhsBias) { bool hit = false; for (int i = 0; i < 4; ++i) if (k.first.asString(f.ver) == n[i]) hit = near(k.second, dec(f.bias[i], 3), 1e-9); ok = ok && hit; } F(ok, "GLONASS code phase bias"); }
   OPT(f.hasPrn, validPrnObs); if (f.hasPrn) { map<string, vector<int>> a, b; for (auto& s : h.numObsForSat) a[s.first.toString()] = s.second; b = f.prn; if (!r3) for (auto& s : b) { vector<int> k; auto it = f.ix2.find(s.first[0]); if (it != f.ix2.end()) for (int i : it->second) k.push_back(s.second[i]); s.second = k; } F(a == b, "numbers of observations"); }
}
static void cmpDatum(const RinexDatum& r, const Datum& d, const string& what, const string& tag, const string& text)
{
   F(near(r.data, dec(d.milli, 3), 1e-9 + std::fabs(r.data) * 1e-15) && r.dataBlank == d.blank, what << " value " << pbt::d2s(r.data) << (r.dataBlank ? " blank" : "") << " for " << fix(d.milli, 3) << (d.blank ? " blank" : "")); F(r.lli == std::max(d.lli, 0) && r.lliBlank == (d.lli < 0), what << " LLI " << r.lli << " for " << d.lli); F(r.ssi == std::max(d.ssi, 0) && r.ssiBlank == (d.ssi < 0), what << " SSI " << r.ssi << " for " << d.ssi);
}
static void cmpEpoch(const Rinex3ObsData& r, const File& f, size_t i, const string& tag0, const string& text)
{
   const Epoch& e = f.ep[i]; bool r3 = f.ver > 2.995; string tag = tag0 + strf(", epoch %d", (int)i); F(r.epochFlag == e.flag, "flag " << r.epochFlag);
   if (e.timed || !r3) F(same(r.time, ct(e.t, f.ts)), "time " << r.time.asString() << " for " << ct(e.t, f.ts).asString()); else F(r.time == CommonTime::BEGINNING_OF_TIME, "time " << r.time.asString() << " of an epoch without time");
   F(near(r.clockOffset, e.clk ? dec(e.clkN, r3 ? 12 : 9) : 0.0, 1e-12), "clock offset " << pbt::d2s(r.clockOffset));
   if (e.flag >= 2 && e.flag <= 5) { F(r.numSVs == (int)e.aux.size(), "number of records " << r.numSVs); F(r.obs.empty(), "observations in an event"); cmpAux(r.auxHeader, e.a, tag, text); return; }
   F(r.numSVs == (int)e.sats.size() && r.obs.size() == e.sats.size(), r.numSVs << " satellites, " << r.obs.size() << " read");
   for (auto& s : e.sats)
   {
      auto it = r.obs.find(RinexSatID(s.first)); F(it != r.obs.end(), s.first << " missing"); vector<Datum> w; if (r3) w = s.second; else { auto k = f.ix2.find(s.first[0]); if (k != f.ix2.end()) for (int j : k->second) w.push_back(s.second[j]); }
      F(it->second.size() == w.size(), s.first << " has " << it->second.size() << " values for " << w.size()); for (size_t j = 0; j < w.size(); ++j) cmpDatum(it->second[j], w[j], s.first + " #" + std::to_string(j), tag, text);
   }
}
static string readAll(const string& fn, Rinex3ObsHeader& h, vector<Rinex3ObsData>& d)
{
   try { Rinex3ObsStream in(fn, std::ios::in); in.exceptions(std::ios::failbit); in >> h; Rinex3ObsData r; while (in.peek() != EOF) { in >> r; d.push_back(r); } h = in.header; }
   catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static string writeAll(const string& fn, const Rinex3ObsHeader& h, const vector<Rinex3ObsData>& d)
{
   try { Rinex3ObsStream out(fn, std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); out << h; for (auto& r : d) out << r; } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static bool eighty(const string& t, string& bad) { bool head = true; for (auto& l : lines(t)) { if (head && (l.size() > 80 || l.size() < 60)) { bad = l; return false; } if (l.size() > 60 && l.substr(60) == "END OF HEADER") head = false; } return true; }
static void r3case(G& g, File& f)
{
   bool r3 = f.ver > 2.995; string text = f.head + f.body, fn = pbt::scratch() + "/in", fo = pbt::scratch() + "/out", tag = "read"; pbt::spit(fn, text); g << text;
   Rinex3ObsHeader h; vector<Rinex3ObsData> d; string err = readAll(fn, h, d); F(err.empty(), "valid file refused: " << err); cmpHead(h, f, tag, text); F(d.size() == f.ep.size(), d.size() << " epochs for " << f.ep.size()); for (size_t i = 0; i < d.size(); ++i) cmpEpoch(d[i], f, i, tag, text);
   h.preserveDate = h.preserveVerType = true; err = writeAll(fo, h, d); tag = "write"; F(err.empty(), err); string t2 = pbt::slurp(fo), bad; F(eighty(t2, bad), "header line of " << bad.size() << " columns: " << q(bad));
   Rinex3ObsHeader h2; vector<Rinex3ObsData> d2; err = readAll(fo, h2, d2); tag = "read back"; text += "--- written\n" + t2; F(err.empty(), err); cmpHead(h2, f, tag, text); F(d2.size() == f.ep.size(), d2.size() << " epochs for " << f.ep.size()); for (size_t i = 0; i < d2.size(); ++i) cmpEpoch(d2[i], f, i, tag, text);
   h2.preserveDate = h2.preserveVerType = true; err = writeAll(fo, h2, d2); tag = "write again"; F(err.empty(), err); F(pbt::slurp(fo) == t2, "the text changes from\n" << t2 << "\nto\n" << pbt::slurp(fo));
   if (r3)      // the data section is the text read, satellites in any order
   {
      auto L = lines(t2); size_t p = 0; while (p < L.size() && L[p].substr(std::min<size_t>(60, L[p].size())) != "END OF HEADER") ++p; ++p; tag = "written data"; for (size_t i = 0; i < f.blocks.size(); ++i) { auto b = f.blocks[i]; F(p + b.size() <= L.size(), "data section is too short"); vector<string> w(L.begin() + p, L.begin() + p + b.size()); p += b.size(); for (auto& l : b) l = rtrim(l); if (b[0].substr(18, 11) == " 60.0000000") b[0] = w[0]; std::sort(b.begin() + 1, b.end()); std::sort(w.begin() + 1, w.end()); F(b == w, "epoch " << i << " is written differently:\n" << w[0]); } F(p == L.size(), "extra lines");
   }
      // record count
   { int n = std::count(t2.begin(), t2.end(), '\n'); for (size_t i = 0; i < f.blocks.size(); ++i) n -= f.blocks[i].size(); tag = "record count"; F(h.numberHeaderRecordsToBeWritten() == n, "numberHeaderRecordsToBeWritten is " << h.numberHeaderRecordsToBeWritten() << ", " << n << " lines were written"); }
   for (size_t i = 0; i < d.size(); ++i) if (d[i].epochFlag >= 2 && d[i].epochFlag <= 5) F(d[i].auxHeader.numberHeaderRecordsToBeWritten() == d[i].numSVs, "event " << i << " has " << d[i].numSVs << " records, numberHeaderRecordsToBeWritten is " << d[i].auxHeader.numberHeaderRecordsToBeWritten());
   size_t sats = 0; for (auto& e : f.ep) sats += e.sats.size(); if (sats > 12) g.nontrivial(); g.label(r3 ? "RINEX 3" : "RINEX 2");
}
PROP(rinex3, 12000, 40000, "a file with more than 12 satellite records") { File f = genFile(g, 3); r3case(g, f); }
PROP(rinex2, 12000, 40000, "a file with more than 12 satellite records") { File f = genFile(g, 2); r3case(g, f); }

// ------------------------------------------------------------ the RINEX 2 classes
static string readOld(const string& fn, RinexObsHeader& h, vector<RinexObsData>& d)
{
   try { RinexObsStream in(fn, std::ios::in); in.exceptions(std::ios::failbit); in >> h; RinexObsData r; while (in.peek() != EOF) { in >> r; d.push_back(r); } } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static string writeOld(const string& fn, const RinexObsHeader& h, const vector<RinexObsData>& d)
{
   try { RinexObsStream out(fn, std::ios::out | std::ios::trunc); out.exceptions(std::ios::failbit); out << h; for (auto& r : d) out << r; } catch (Exception& e) { return gp::what(e); } catch (std::exception& e) { return e.what(); } return "";
}
static void cmpOldHead(const RinexObsHeader& h, const File& f, const string& tag, const string& text, bool date)
{
   typedef RinexObsHeader R; auto has = [&](unsigned long x) { return (h.valid & x) != 0; };
#undef OPT
#define OPT(b, c) F(has(R::c) == (b), #c " is " << has(R::c))
   F(near(h.version, f.ver, 1e-9), "version " << h.version); F(!h.fileType.empty() && h.fileType[0] == 'O', "file type"); F(h.system.systemChar() == f.fileSys, "file system " << h.system);
   STR(h.fileProgram, f.pgm); STR(h.fileAgency, f.by); if (date) STR(h.date, f.date); STR(h.markerName, f.name); STR(h.observer, f.obsr); STR(h.agency, f.agency); STR(h.recNo, f.rec[0]); STR(h.recType, f.rec[1]); STR(h.recVers, f.rec[2]); STR(h.antNo, f.ant[0]); STR(h.antType, f.ant[1]); F(h.commentList == f.comments, "comments (" << h.commentList.size() << " for " << f.comments.size() << ")");
   OPT(f.hasNumber, markerNumberValid); if (f.hasNumber) STR(h.markerNumber, f.number); triple(h.antennaPosition, f.pos, "position", tag, text); triple(h.antennaOffset, f.hen, "antenna offset", tag, text);
   OPT(f.hasItv, intervalValid); if (f.hasItv) F(near(h.interval, dec(f.itv, 3), 1e-9), "interval"); OPT(f.hasRco, receiverOffsetValid); if (f.hasRco) F(h.receiverOffset == f.rco, "receiver offset"); OPT(f.hasLeap, leapSecondsValid); if (f.hasLeap) F(h.leapSeconds == f.leap, "leap seconds"); OPT(f.hasNsv, numSatsValid); if (f.hasNsv) F(h.numSVs == f.nsv, "number of satellites");
   auto tm = [&](const CommonTime& c0, const When& w, const char* what) { CommonTime c(c0); c.setTimeSystem(TimeSystem::GPS); F(same(c, ct(w, TimeSystem::GPS)), what << " " << c.asString()); }; tm(h.firstObs, f.first, "first obs"); OPT(f.hasLast, lastTimeValid); if (f.hasLast) tm(h.lastObs, f.last, "last obs");
   auto sy = f.tsGiven ? (f.ts == TimeSystem::GPS ? SatelliteSystem::GPS : f.ts == TimeSystem::GLO ? SatelliteSystem::Glonass : SatelliteSystem::Galileo) : SatelliteSystem::GPS; F(h.firstSystem.system == sy, "system of first obs " << h.firstSystem);
   { vector<string> t; for (auto& o : h.obsTypeList) t.push_back(o.type); F(t == f.t2, "observation types, " << t.size() << " for " << f.t2.size()); }
   OPT(f.hasWave, waveFactValid); if (f.hasWave) { bool ok = h.wavelengthFactor[0] == f.wf[0] && h.wavelengthFactor[1] == f.wf[1] && h.extraWaveFactList.size() == f.extra.size(); for (size_t i = 0; ok && i < f.extra.size(); ++i) { auto& a = h.extraWaveFactList[i]; ok = a.wavelengthFactor[0] == f.extra[i].a && a.wavelengthFactor[1] == f.extra[i].b && a.satList.size() == f.extra[i].sats.size(); for (size_t j = 0; ok && j < a.satList.size(); ++j) ok = RinexSatID(a.satList[j]).toString() == f.extra[i].sats[j]; } F(ok, "wavelength factors"); }
   OPT(f.hasPrn, prnObsValid); if (f.hasPrn) { map<string, vector<int>> a; for (auto& s : h.numObsForSat) a[RinexSatID(s.first).toString()] = s.second; F(a == f.prn, "numbers of observations"); }
}
static void cmpOldEpoch(const RinexObsData& r, const File& f, size_t i, const string& tag0, const string& text)
{
   const Epoch& e = f.ep[i]; string tag = tag0 + strf(", epoch %d", (int)i); F(r.epochFlag == e.flag, "flag " << r.epochFlag); CommonTime t(r.time); t.setTimeSystem(TimeSystem::GPS); F(same(t, ct(e.t, TimeSystem::GPS)), "time " << r.time.asString() << " for " << ct(e.t, f.ts).asString()); F(near(r.clockOffset, e.clk ? dec(e.clkN, 9) : 0.0, 1e-12), "clock offset " << pbt::d2s(r.clockOffset));
   if (e.flag >= 2 && e.flag <= 5)
   {
      const Aux& a = e.a; const RinexObsHeader& h = r.auxHeader; typedef RinexObsHeader R; auto has = [&](unsigned long x) { return (h.valid & x) != 0; }; F(r.numSvs == (int)e.aux.size(), "number of records " << r.numSvs); F(has(R::commentValid) == a.comment && h.commentList == a.comments, "event comments"); F(has(R::markerNameValid) == a.marker && (!a.marker || h.markerName == a.s1), "event marker"); F(has(R::markerNumberValid) == a.number && (!a.number || h.markerNumber == a.s2), "event marker number"); F(has(R::antennaTypeValid) == a.antenna && (!a.antenna || (h.antNo == a.s3 && h.antType == a.s2)), "event antenna"); F(has(R::antennaOffsetValid) == a.delta, "event offset"); if (a.delta) triple(h.antennaOffset, a.hen, "event offset", tag, text); F(has(R::intervalValid) == a.interval && (!a.interval || near(h.interval, dec(a.itv, 3), 1e-9)), "event interval"); F(has(R::leapSecondsValid) == a.leap && (!a.leap || h.leapSeconds == a.leaps), "event leap seconds"); F(has(R::waveFactValid) == a.wave && (!a.wave || h.extraWaveFactList.size() == a.extra.size()), "event wavelength factors"); vector<string> t; for (auto& o : h.obsTypeList) t.push_back(o.type); F(has(R::obsTypeValid) == a.types && t == a.t2, "event types"); return;
   }
   F(r.numSvs == (int)e.sats.size() && r.obs.size() == e.sats.size(), r.numSvs << " satellites, " << r.obs.size() << " read");
   for (auto& s : e.sats) { auto it = r.obs.find(RinexSatID(s.first)); F(it != r.obs.end(), s.first << " missing"); F(it->second.size() == f.t2.size(), s.first << " has " << it->second.size() << " values for " << f.t2.size()); for (size_t j = 0; j < f.t2.size(); ++j) { auto k = it->second.find(RinexObsHeader::convertObsType(f.t2[j])); F(k != it->second.end(), f.t2[j] << " missing"); const Datum& d = s.second[j]; F(near(k->second.data, dec(d.milli, 3), 1e-9 + std::fabs(k->second.data) * 1e-15) && k->second.lli == std::max(d.lli, 0) && k->second.ssi == std::max(d.ssi, 0), s.first << " " << f.t2[j] << " " << pbt::d2s(k->second.data) << "/" << k->second.lli << "/" << k->second.ssi << " for " << obsText(d)); } }
}
   // what the recorded defect counts for the extra wavelength factor records, and what is written
static int oldWave(size_t n) { return n ? 1 + int(n - 1) / 7 : 0; }
static void countOld(const RinexObsHeader& h, int written, const string& tag, const string& text)
{
   int n = h.NumberHeaderRecordsToBeWritten(); if (n == written) return; size_t x = (h.valid & RinexObsHeader::waveFactValid) ? h.extraWaveFactList.size() : 0; int lines = 0; for (size_t i = 0; i < x; ++i) lines += (h.extraWaveFactList[i].satList.size() + 6) / 7;
   if (x && n == written - lines + oldWave(x)) pbt::fail("extra wavelength factor records are counted as " + std::to_string(oldWave(x)) + " for " + std::to_string(lines), "old-wave-count"); F(false, "NumberHeaderRecordsToBeWritten is " << n << ", " << written << " lines were written");
}
KNOWN("old-wave-count") { RinexObsHeader h; h.valid = RinexObsHeader::waveFactValid; for (int i = 1; i < 3; ++i) { ExtraWaveFact w; w.satList.push_back(SatID(i, SatelliteSystem::GPS)); h.extraWaveFactList.push_back(w); } if (h.NumberHeaderRecordsToBeWritten() == 2) pbt::fail("2 extra WAVELENGTH FACT entries are counted as 1 record, 2 are written", "old-wave-count"); }
PROP(rinex2old, 12000, 40000, "a file with more than 12 satellite records")
{
   File f = genFile(g, 2, true); string text = f.head + f.body, fn = pbt::scratch() + "/in", fo = pbt::scratch() + "/out", tag = "read"; pbt::spit(fn, text); g << text;
   RinexObsHeader h; vector<RinexObsData> d; string err = readOld(fn, h, d); F(err.empty(), "valid file refused: " << err); cmpOldHead(h, f, tag, text, true); F(d.size() == f.ep.size(), d.size() << " epochs for " << f.ep.size()); for (size_t i = 0; i < d.size(); ++i) cmpOldEpoch(d[i], f, i, tag, text);
   err = writeOld(fo, h, d); tag = "write"; F(err.empty(), err); string t2 = pbt::slurp(fo), bad; F(eighty(t2, bad), "header line of " << bad.size() << " columns: " << q(bad));
   RinexObsHeader h2; vector<RinexObsData> d2; err = readOld(fo, h2, d2); tag = "read back"; text += "--- written\n" + t2; F(err.empty(), err); cmpOldHead(h2, f, tag, text, false); F(d2.size() == f.ep.size(), d2.size() << " epochs for " << f.ep.size()); for (size_t i = 0; i < d2.size(); ++i) cmpOldEpoch(d2[i], f, i, tag, text);
   { int n = 0; for (auto& l : lines(t2)) { ++n; if (l.size() > 60 && l.substr(60) == "END OF HEADER") break; } tag = "record count"; countOld(h, n, tag, text); } for (size_t i = 0; i < d.size(); ++i) if (d[i].epochFlag >= 2 && d[i].epochFlag <= 5) countOld(d[i].auxHeader, d[i].numSvs, tag, text);
   size_t sats = 0; for (auto& e : f.ep) sats += e.sats.size(); if (sats > 12) g.nontrivial();
}
PBT_MAIN
