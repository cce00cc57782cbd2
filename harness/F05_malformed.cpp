// F05: damaged input files are refused or read, with every record an object that can be printed: no crash, no endless loop, no exception of another kind, no access outside a buffer
// flavor: asan
#include "gp.hpp"
#include "RinexObsStream.hpp"
#include "RinexObsHeader.hpp"
#include "RinexObsData.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "RinexMetStream.hpp"
#include "RinexMetHeader.hpp"
#include "RinexMetData.hpp"
#include "RinexClockStream.hpp"
#include "RinexClockHeader.hpp"
#include "RinexClockData.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "Rinex3ClockStream.hpp"
#include "Rinex3ClockHeader.hpp"
#include "Rinex3ClockData.hpp"
#include "SP3Stream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "SEMStream.hpp"
#include "SEMHeader.hpp"
#include "SEMData.hpp"
#include "YumaStream.hpp"
#include "YumaHeader.hpp"
#include "YumaData.hpp"
#include "IonexStream.hpp"
#include "IonexHeader.hpp"
#include "IonexData.hpp"
#include "AntexStream.hpp"
#include "AntexHeader.hpp"
#include "AntexData.hpp"
#include "SinexStream.hpp"
#include "SinexData.hpp"
#include "BinexStream.hpp"
#include "BinexData.hpp"
#include "SP3EphemerisStore.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "Rinex3ObsFileLoader.hpp"
#include "RinexUtilities.hpp"
#include "YumaAlmanacStore.hpp"
#include "SEMAlmanacStore.hpp"
#include "IonexStore.hpp"
#include "EOPStore.hpp"
#include "OceanLoadTides.hpp"
#include "AtmLoadTides.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector;
static const std::map<string, string>& seeds()
{
   static std::map<string, string> m;
   if (m.empty()) { const char* d = getenv("VERIF_SEEDS"); string dir = d ? d : "/verif/seeds"; for (const char* f : {"antex", "atl", "blq", "clk2", "clk3", "eop", "ionex", "met", "met10", "met3", "nav2", "nav2m", "nav3", "nav3g", "obs2", "obs211m", "obs2cont", "obs2k", "obs3", "obs3m", "obs3r", "sem", "sinex", "sinex2", "sp3a", "sp3ae", "sp3c", "sp3d", "yuma"}) { m[f] = pbt::slurp(dir + "/" + f + ".txt"); if (m[f].size() < 200) { fprintf(stderr, "no seed %s\n", f); exit(3); } } }
   return m;
}
static vector<string> lines(const string& s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
   // a field that a parser may trip over
static string junk(G& g, size_t n)
{
   static const vector<string> w{"999999999999999", "-1", "0", "-99999", "9999", "nan", "inf", "-inf", "1e400", "1D+99", "1D-400", "*********", "          ", "abcdef", "2147483648", "-2147483649", "99", "13", "60", "400", "\t\t\t", "+", ".", "-", "E", "D", "0x7f", "1 2 3 4", "G99", "G 0", "X01", "$$$$", "\xff\xfe\x80"};
   string s = g.pick(w); if (g.flag()) { if (s.size() < n) s = string(n - s.size(), ' ') + s; else s = s.substr(0, n); } return s;
}
static const string labels[] = {"END OF HEADER", "# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "SYS / SCALE FACTOR", "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "PRN / # OF OBS", "WAVELENGTH FACT L1/2", "TIME OF FIRST OBS", "LEAP SECONDS", "COMMENT", "# OF SATELLITES", "ANALYSIS CLK REF", "# OF SOLN SATS", "PRN LIST", "ANTENNA: DELTA X/Y/Z", "SENSOR MOD/TYPE/ACC", "# OF FREQUENCIES", "ZEN1 / ZEN2 / DZEN", "DAZI", "LAT/LON1/LON2/DLON/H", "# OF MAPS IN FILE", "ION ALPHA", "TIME SYSTEM CORR", "IONOSPHERIC CORR", "SYS / DCBS APPLIED", "SIGNAL STRENGTH UNIT"};
static string damage(G& g, const string& s, int& how)
{
   vector<string> v = lines(s); how = 0; int n = g.oneIn(12) ? 0 : g.weighted({6, 3, 1}) + 1; if (g.oneIn(30)) n = g.range(4, 30);
   for (int k = 0; k < n && !v.empty(); k++)
   {
      size_t i = g.below(v.size()); string& l = v[i]; how++;
      switch (g.weighted({10, 6, 3, 3, 2, 3, 3, 2, 2, 1, 2, 2}))
      {
         case 0: { size_t w = g.pick(vector<size_t>{1, 2, 3, 4, 6, 8, 12, 14, 19}), at = l.empty() ? 0 : g.below(l.size()); string j = junk(g, w); if (at + j.size() <= l.size()) l.replace(at, j.size(), j); else l = l.substr(0, at) + j; break; }
         case 1: if (!l.empty()) { size_t at = g.below(l.size()); l[at] = g.flag() ? "0123456789"[g.below(10)] : (char)g.bits(8); } break;
         case 2: v.erase(v.begin() + i); break;
         case 3: v.insert(v.begin() + i, v[g.below(v.size())]); break;
         case 4: v.resize(i + 1); v.back() = v.back().substr(0, v.back().empty() ? 0 : g.below(v.back().size() + 1)); break;
         case 5: l = l.substr(0, l.empty() ? 0 : g.below(l.size() + 1)); break;
         case 6: if (!l.empty()) l.erase(g.below(l.size()), g.range(1, 10)); break;
         case 7: l.insert(l.empty() ? 0 : g.below(l.size()), g.pick(vector<string>{" ", "  ", "\t", "0", "\r", string(1, '\0'), string(60, ' '), string(300, '7'), "\xc3\xa9"})); break;
         case 8: if (l.size() > 60) l = l.substr(0, 60) + g.pick(vector<string>(labels, labels + sizeof labels / sizeof *labels)); else l += string(61, ' '); break;
         case 9: l = ""; break;
         case 10: { size_t j = g.below(v.size()); std::swap(v[i], v[j]); break; }
         default: { int rep = g.pick(vector<int>{2, 5, 40}); string c = l; for (int r = 0; r < rep; r++) v.insert(v.begin() + i, c); }
      }
   }
   string e = g.oneIn(10) ? "\r\n" : "\n", o; for (auto& l : v) o += l + e; if (g.oneIn(10) && !o.empty()) o.resize(o.size() - 1); if (g.oneIn(25)) { o.resize(g.below(o.size() + 1)); how++; } return o;
}
   // reads a file record by record; returns the number of records
template <class S, class H, class D> static long readAll(const string& fn, bool exc, size_t size)
{
   long n = 0; std::ostringstream sink; S s(fn.c_str(), std::ios::in); if (exc) s.exceptions(std::ios::failbit); H h; D d;
   try { s >> h; if (s) h.dump(sink); while (s >> d) { n++; d.dump(sink); if (n > (long)size + 2) pbt::fail("more records than bytes", "endless"); if (sink.tellp() > 2000000) sink.str(""); } }
   catch (Exception&) {} catch (std::ios_base::failure&) { if (!exc) throw; }
   return n;
}
template <class F> static void store(F f) { try { f(); } catch (Exception&) {} }
struct Fmt { const char* name; vector<string> files; std::function<long(const string&, bool, size_t)> read; };
static const vector<Fmt>& formats()
{
   static const vector<Fmt> v{
      {"RinexObs", {"obs2", "obs211m", "obs2cont", "obs2k"}, readAll<RinexObsStream, RinexObsHeader, RinexObsData>}, {"Rinex3Obs", {"obs3", "obs3m", "obs3r", "obs2", "obs211m", "obs2cont", "obs2k"}, readAll<Rinex3ObsStream, Rinex3ObsHeader, Rinex3ObsData>}, {"RinexNav", {"nav2", "nav2m"}, readAll<RinexNavStream, RinexNavHeader, RinexNavData>}, {"Rinex3Nav", {"nav2", "nav2m", "nav3", "nav3g"}, readAll<Rinex3NavStream, Rinex3NavHeader, Rinex3NavData>}, {"RinexMet", {"met", "met10", "met3"}, readAll<RinexMetStream, RinexMetHeader, RinexMetData>}, {"RinexClock", {"clk2"}, readAll<RinexClockStream, RinexClockHeader, RinexClockData>}, {"Rinex3Clock", {"clk2", "clk3"}, readAll<Rinex3ClockStream, Rinex3ClockHeader, Rinex3ClockData>}, {"SP3", {"sp3a", "sp3ae", "sp3c", "sp3d"}, readAll<SP3Stream, SP3Header, SP3Data>}, {"SEM", {"sem"}, readAll<SEMStream, SEMHeader, SEMData>}, {"Yuma", {"yuma"}, readAll<YumaStream, YumaHeader, YumaData>}, {"IONEX", {"ionex"}, readAll<IonexStream, IonexHeader, IonexData>}, {"ANTEX", {"antex"}, readAll<AntexStream, AntexHeader, AntexData>},
      {"SINEX", {"sinex", "sinex2"}, [](const string& fn, bool exc, size_t size) { long n = 0; std::ostringstream o; Sinex::Stream s(fn.c_str(), std::ios::in); if (exc) s.exceptions(std::ios::failbit); try { Sinex::Data d; s >> d; d.dump(o); std::string t = o.str(); n = std::count(t.begin(), t.end(), '\n'); if (n > (long)size + 2) pbt::fail("more blocks than bytes", "endless"); } catch (Exception&) {} catch (std::ios_base::failure&) { if (!exc) throw; } return n; }},
   };
   return v;
}
PROP(streams, 48000, 3000000, "a damaged file, at least one record read from it")
{
   static int only = getenv("F05_FMT") ? atoi(getenv("F05_FMT")) : -1; const Fmt& f = formats()[only >= 0 ? only : (int)g.below(formats().size())]; const string& seed = seeds().at(g.oneIn(40) ? g.pick(vector<string>{"obs2", "nav3", "sp3c", "met", "ionex", "antex", "yuma", "clk2", "sinex"}) : g.pick(f.files)); int how; string s = damage(g, seed, how); g << f.name << " " << s.size() << " bytes: " << s.substr(0, 0); string fn = pbt::scratch() + "/f"; pbt::spit(fn, s); if (getenv("F05_SAVE")) pbt::spit(getenv("F05_SAVE"), s); bool exc = g.oneIn(3); long n = f.read(fn, exc, s.size()); g << n << " records"; g.nontrivial(how && n > 0); g.label(string(f.name) + (n ? " records" : " none"));
}
struct Load { const char* name; vector<string> files; std::function<void(const string&)> f; };
static const vector<Load>& loads()
{
   static const vector<Load> v{
      {"SP3EphemerisStore", {"sp3a", "sp3ae", "sp3c", "sp3d"}, [](const string& fn) { SP3EphemerisStore s; std::ostringstream o; s.loadFile(fn); s.dump(o, 1); for (int k = 0; k < 3; k++) try { s.getXvt(SatID(1 + k, SatelliteSystem::GPS), s.getInitialTime() + 1000 * k); } catch (Exception&) {} }}, {"SP3EphemerisStore clock", {"clk2", "clk3"}, [](const string& fn) { SP3EphemerisStore s; std::ostringstream o; s.loadRinexClockFile(fn); s.dump(o, 1); }}, {"Rinex3EphemerisStore", {"nav2", "nav2m", "nav3", "nav3g"}, [](const string& fn) { Rinex3EphemerisStore s; std::ostringstream o; s.loadFile(fn); s.dump(o, 1); try { s.getXvt(SatID(1, SatelliteSystem::GPS), s.getInitialTime() + 100); } catch (Exception&) {} }}, {"YumaAlmanacStore", {"yuma"}, [](const string& fn) { YumaAlmanacStore s; s.loadFile(fn); }}, {"SEMAlmanacStore", {"sem"}, [](const string& fn) { SEMAlmanacStore s; s.loadFile(fn); }}, {"IonexStore", {"ionex"}, [](const string& fn) { IonexStore s; s.loadFile(fn); std::ostringstream o; s.dump(o, 1); try { s.getIonexValue(s.getInitialTime() + 600, Position(10, 20, 6371000, Position::Geocentric)); } catch (Exception&) {} }}, {"Rinex3ObsFileLoader", {"obs3", "obs3m", "obs2", "obs2k"}, [](const string& fn) { Rinex3ObsFileLoader l(fn); string e, w; l.loadFiles(e, w); l.asString(); }}, {"EOPStore", {"eop"}, [](const string& fn) { EOPStore s; std::ostringstream o; s.addIERSFile(fn); s.dump(1, o); }}, {"EOPStore addFile", {"eop"}, [](const string& fn) { EOPStore s; std::ostringstream o; s.addFile(fn); s.dump(1, o); }}, {"OceanLoadTides", {"blq"}, [](const string& fn) { OceanLoadTides t; vector<string> sites{"ONSALA", "1", "AREQ"}; t.initializeSites(sites, fn); }}, {"AtmLoadTides", {"atl"}, [](const string& fn) { AtmLoadTides t; vector<string> sites{"ALGO", "AIGU"}; t.initializeSites(sites, fn); }},
      {"isRinexFile", {"obs2", "obs3", "nav2", "nav3", "met"}, [](const string& fn) { isRinexObsFile(fn); isRinexNavFile(fn); isRinex3ObsFile(fn); isRinex3NavFile(fn); }},
   };
   return v;
}
PROP(loaders, 16000, 1000000, "a damaged file that is accepted")
{
   static int only = getenv("F05_FMT") ? atoi(getenv("F05_FMT")) : -1; const Load& f = loads()[only >= 0 ? only : (int)g.below(loads().size())]; int how; string s = damage(g, seeds().at(g.pick(f.files)), how); string fn = pbt::scratch() + "/f"; pbt::spit(fn, s); g << f.name << " " << s.size() << " bytes"; bool ok = false; try { f.f(fn); ok = true; } catch (Exception&) {} g.nontrivial(how && ok); g.label(string(f.name) + (ok ? " accepted" : " refused"));
}
   // BINEX: bytes with the records of a valid file as raw material
PROP(binex, 20000, 800000, "a damaged file with at least one record read")
{
   bool big = g.flag(); string s, fn = pbt::scratch() + "/b"; { BinexStream o(fn.c_str(), std::ios::out | std::ios::binary); int n = g.range(1, 4); for (int k = 0; k < n; k++) { BinexData d; d.setRecordFlags((g.flag() ? 0x20 : 0) | (g.flag() ? 0x08 : 0) | (g.flag() ? 0x10 : 0)); d.setRecordID(g.pick(vector<unsigned long>{0, 1, 5, 127, 200})); size_t off = 0; int ml = g.pick(vector<int>{0, 3, 20, 127, 128, 300}); string m = g.str("abcdefgh", ml, ml); d.updateMessageData(off, m, m.size()); o << d; } } (void)big; s = pbt::slurp(fn); int dmg = g.range(0, 4); for (int k = 0; k < dmg && !s.empty(); k++) { size_t i = g.below(s.size()); switch (g.below(5)) { case 0: s[i] = (char)g.bits(8); break; case 1: s[i] ^= 1 << g.below(8); break; case 2: s.erase(i, g.range(1, 9)); break; case 3: s.insert(i, g.str("\xff\x80\x7f\xc2\xe2\xd2", 1, 9)); break; default: s.resize(i); } } pbt::spit(fn, s); g << s.size() << " bytes, damage " << dmg; bool exc = g.flag(); long n = 0; BinexStream in(fn.c_str(), std::ios::in | std::ios::binary); if (exc) in.exceptions(std::ios::failbit); try { BinexData d; std::ostringstream o; while (in >> d) { d.dump(o); if (++n > (long)s.size() + 2) pbt::fail("more records than bytes", "endless"); } } catch (Exception&) {} catch (std::ios_base::failure&) { if (!exc) throw; } g.nontrivial(dmg && n > 0);
}
PBT_MAIN
