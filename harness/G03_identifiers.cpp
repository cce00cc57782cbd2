#include "pbt.hpp"
#include "RinexSatID.hpp"
#include "SP3SatID.hpp"
#include "RinexObsID.hpp"
#include "NavID.hpp"
#include "Rinex3ObsHeader.hpp"
#include "ReferenceFrame.hpp"
#include "TimeSystem.hpp"
#include <set>
using namespace gpstk; using std::string; using std::vector;
typedef SatelliteSystem SS;
struct Sys { SS s; char rinex, sp3; const char* s3; };
static const Sys SYSTEMS[] = {{SS::GPS, 'G', 'G', "GPS"}, {SS::Galileo, 'E', 'E', "GAL"}, {SS::Glonass, 'R', 'R', "GLO"}, {SS::Geosync, 'S', 0, "GEO"}, {SS::Transit, 'T', 0, "TRN"}, {SS::QZSS, 'J', 'J', "QZS"}, {SS::BeiDou, 'C', 'C', "BDS"}, {SS::IRNSS, 'I', 0, "IRN"}, {SS::LEO, 0, 'L', "Unk"}};
static const int NSYS = 9;
static int prnOf(const Sys& s, int n, bool sp3) { if (s.s == SS::Geosync) return n + 100; if (s.s == SS::QZSS) return sp3 ? n + 192 : n < 83 ? n + 192 : n + 100; return n; }
template <class T> static void satCase(pbt::G& g, bool sp3)
{
   const Sys& s = SYSTEMS[g.below(NSYS)]; char c = sp3 ? s.sp3 : s.rinex; int n = g.range(1, 99); if (!c) { T bad(n, s.s); REQUIRE(bad.system == SS::Unknown && bad.id == -1 && bad.systemChar() == '?', "system the format does not have was kept"); return; }
   if (!sp3 && s.s == SS::QZSS && n >= 83) n = g.range(83, 91); int prn = prnOf(s, n, sp3); T id(prn, s.s); char old = id.setfill(g.flag() ? '0' : ' '); REQUIRE(old == '0', "fill character"); string t = id.toString(), want = string(1, c) + pbt::strf(id.getfill() == '0' ? "%02d" : "%2d", n); id.setfill('0'); g << t << " "; REQ_EQ(t, want, "text of " << (int)s.s << " " << prn); REQ_EQ(id.systemChar(), c, "system character");
   std::ostringstream os; os << id; REQ_EQ(os.str(), string(1, c) + pbt::strf("%02d", n), "stream output");
   string forms[] = {t, string(1, c) + pbt::strf("%d", n), string(1, (char)tolower(c)) + pbt::strf("%02d", n), " " + t, t + " ", string(1, c) + pbt::strf("%3d", n), t + "\n"}; string f = forms[g.below(7)]; T r(f); REQUIRE(r.id == prn && r.system == s.s, "read " << pbt::q(f) << " as " << r.id << " of system " << (int)r.system); T r2; r2.fromString(f); REQUIRE(r2 == id && !(r2 != id) && !(r2 < id) && r2 <= id && r2 >= id && !(r2 > id), "comparison with itself");
   if (s.s == SS::GPS) { string d[] = {pbt::strf("%d", n), pbt::strf("%02d", n), pbt::strf(" %2d", n), pbt::strf(" %d ", n)}; string df = d[g.below(4)]; T z(df); REQUIRE(z.id == n && z.system == SS::GPS, "no system letter: " << pbt::q(df)); }
   SatID base(prn, s.s); T conv(base); REQUIRE(conv.id == prn && conv.system == s.s, "from SatID"); g.nontrivial();
}
PROP(sat_text, 30000, 300000, "system the format supports")
{
   if (g.flag()) satCase<RinexSatID>(g, false); else satCase<SP3SatID>(g, true);
}
template <class T> static void badSat(pbt::G& g, const char* letters)
{
   string t; bool other = g.flag(); if (other) { char c = (char)g.range(33, 126); if (isdigit(c) || strchr(letters, toupper(c))) return; t = string(g.below(2), ' ') + c + pbt::strf("%02d", (int)g.range(0, 99)); } else t = string(1, letters[g.below(strlen(letters))]) + g.pick<string>({"", " ", "0", "00", "xx", "-3", "-", "a1"}); g << pbt::q(t); g.nontrivial();
   bool th = false; T r; try { r.fromString(t); } catch (Exception&) { th = true; } if (other) REQUIRE(th, "system character accepted as " << r.id << " system " << (int)r.system); else REQUIRE(!th && r.id == -1 && !r.isValid(), "no satellite number, read as " << r.id); bool th2 = false; try { T q(t); } catch (Exception&) { th2 = true; } REQ_EQ(th2, th, "constructor");
   T b("  "); REQUIRE(b.id == -1 && b.system == SS::GPS && b.toString() == "G-1", "blank text: " << b.toString());
}
PROP(sat_refused, 10000, 100000, "always") { if (g.flag()) badSat<RinexSatID>(g, "GRESTJCIM"); else badSat<SP3SatID>(g, "GRELCJM"); }
PROP(sat_names, 200, 2000, "always")
{
   g.nontrivial(); const Sys& s = SYSTEMS[g.below(8)]; RinexSatID id(5, s.s); REQ_EQ(id.systemString3(), string(s.s3), "three letter name"); static std::map<SS, string> full = {{SS::GPS, "GPS"}, {SS::Galileo, "Galileo"}, {SS::Glonass, "GLONASS"}, {SS::Geosync, "Geosync"}, {SS::Transit, "Transit"}, {SS::QZSS, "QZSS"}, {SS::BeiDou, "BeiDou"}, {SS::IRNSS, "IRNSS"}}; REQ_EQ(id.systemString(), full[s.s], "name");
   if (s.s != SS::Transit) { string c(1, s.rinex); REQUIRE(RinexObsID::validRinexSystems.find(c) != string::npos, "system list"); REQ_EQ(RinexObsID::map1to3sys[c], string(s.s3), "map1to3sys"); REQ_EQ(RinexObsID::map3to1sys[s.s3], c, "map3to1sys"); }
}
PROP(sat_order, 40000, 400000, "three identifiers, not all equal")
{
   SatID a[3]; for (auto& x : a) x = SatID(g.flag() ? g.range(-1, 3) : g.range(-1, 40), (SS)g.below(g.flag() ? 2 : (int)SS::Last)); auto key = [](const SatID& x) { return std::make_pair((int)x.system, x.id); }; g << a[0] << ", " << a[1] << ", " << a[2]; if (key(a[0]) != key(a[1]) || key(a[1]) != key(a[2])) g.nontrivial();
   for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { auto p = key(a[i]), q = key(a[j]); REQUIRE((a[i] == a[j]) == (p == q) && (a[i] != a[j]) == (p != q) && (a[i] < a[j]) == (p < q) && (a[i] > a[j]) == (p > q) && (a[i] <= a[j]) == (p <= q) && (a[i] >= a[j]) == (p >= q), "comparison of " << a[i] << " and " << a[j]); }
   for (auto& x : a) REQ_EQ(x.isValid(), x.id > 0 && (x.system == SS::GPS ? x.id <= 32 : x.id < 100), "isValid " << x);
   REQ_EQ(StringUtils::asString(a[0]), StringUtils::asString(a[0].system) + " " + pbt::strf("%d", a[0].id), "asString");
   SP3SatID s[2] = {SP3SatID(g.range(1, 5), SYSTEMS[g.pick({0, 1, 2, 6})].s), SP3SatID(g.range(1, 5), SYSTEMS[g.pick({0, 1, 2, 6})].s)}; auto p = key(s[0]), q = key(s[1]); REQUIRE((s[0] == s[1]) == (p == q) && (s[0] != s[1]) == (p != q) && (s[0] < s[1]) == (p < q) && (s[0] > s[1]) == (p > q) && (s[0] <= s[1]) == (p <= q) && (s[0] >= s[1]) == (p >= q), "comparison of SP3SatID " << s[0] << " and " << s[1]);
}
// ---- observation codes: the table of RINEX 3.04 (attribute letters in the order written) with the carrier and code they name
struct Row { char sys, band; const char* attr; CarrierBand cb; vector<TrackingCode> tc; };
typedef TrackingCode TC; typedef CarrierBand CB;
static const vector<Row>& table()
{
   static const vector<Row> T = {
   {'G', '1', "CSLXPWYMN", CB::L1, {TC::CA, TC::L1CD, TC::L1CP, TC::L1CDP, TC::P, TC::Ztracking, TC::Y, TC::MDP, TC::YCodeless}}, {'G', '2', "CDSLXPWYMN", CB::L2, {TC::CA, TC::Semicodeless, TC::L2CM, TC::L2CL, TC::L2CML, TC::P, TC::Ztracking, TC::Y, TC::MDP, TC::YCodeless}}, {'G', '5', "IQX", CB::L5, {TC::L5I, TC::L5Q, TC::L5IQ}},
   {'R', '1', "CP", CB::G1, {TC::Standard, TC::Precise}}, {'R', '4', "ABX", CB::G1a, {TC::L1OCD, TC::L1OCP, TC::L1OCDP}}, {'R', '2', "CP", CB::G2, {TC::Standard, TC::Precise}}, {'R', '6', "ABX", CB::G2a, {TC::L2CSI, TC::L2OCP, TC::L2CSIL2OCp}}, {'R', '3', "IQX", CB::G3, {TC::L3OCD, TC::L3OCP, TC::L3OCDP}},
   {'E', '1', "ABCXZ", CB::L1, {TC::E1A, TC::E1B, TC::E1C, TC::E1BC, TC::E1ABC}}, {'E', '5', "IQX", CB::L5, {TC::E5aI, TC::E5aQ, TC::E5aIQ}}, {'E', '7', "IQX", CB::E5b, {TC::E5bI, TC::E5bQ, TC::E5bIQ}}, {'E', '8', "IQX", CB::E5ab, {TC::E5abI, TC::E5abQ, TC::E5abIQ}}, {'E', '6', "ABCXZ", CB::E6, {TC::E6A, TC::E6B, TC::E6C, TC::E6BC, TC::E6ABC}},
   {'S', '1', "C", CB::L1, {TC::CA}}, {'S', '5', "IQX", CB::L5, {TC::L5I, TC::L5Q, TC::L5IQ}},
   {'J', '1', "CSLXZ", CB::L1, {TC::CA, TC::L1CD, TC::L1CP, TC::L1CDP, TC::L1S}}, {'J', '2', "SLX", CB::L2, {TC::L2CM, TC::L2CL, TC::L2CML}}, {'J', '5', "IQXDPZ", CB::L5, {TC::L5I, TC::L5Q, TC::L5IQ, TC::L5SI, TC::L5SQ, TC::L5SIQ}}, {'J', '6', "SLXEZ", CB::E6, {TC::LEXS, TC::LEXL, TC::LEXSL, TC::L6E, TC::L6DE}},
   {'C', '2', "IQX", CB::B1, {TC::B1I, TC::B1Q, TC::B1IQ}}, {'C', '1', "DPXAN", CB::L1, {TC::B1CD, TC::B1CP, TC::B1CDP, TC::B1A, TC::BCodeless}}, {'C', '5', "DPX", CB::L5, {TC::B2aI, TC::B2aQ, TC::B2aIQ}}, {'C', '7', "IQXDPZ", CB::B2, {TC::B2I, TC::B2Q, TC::B2IQ, TC::B2bI, TC::B2bQ, TC::B2bIQ}}, {'C', '8', "DPX", CB::E5ab, {TC::B2abI, TC::B2abQ, TC::B2abIQ}}, {'C', '6', "IQXA", CB::B3, {TC::B3I, TC::B3Q, TC::B3IQ, TC::B3AIQ}},
   {'I', '5', "ABCX", CB::L5, {TC::SPSL5, TC::RSL5D, TC::RSL5P, TC::RSL5DP}}, {'I', '9', "ABCX", CB::I9, {TC::SPSS, TC::RSSD, TC::RSSP, TC::RSSDP}}};
   return T;
}
static bool inTable(char sys, char band, char attr, CB* cb = 0, TC* tc = 0) { for (auto& r : table()) if (r.sys == sys && r.band == band) { const char* p = strchr(r.attr, attr); if (p && attr) { if (cb) *cb = r.cb; if (tc) *tc = r.tc[p - r.attr]; return true; } } return false; }
static bool bandOf(char sys, char band) { for (auto& r : table()) if (r.sys == sys && r.band == band) return true; return false; }
static const char SYSL[] = "GRESJCI", TYPEL[] = "CLDS"; static const ObservationType TYPES[] = {ObservationType::Range, ObservationType::Phase, ObservationType::Doppler, ObservationType::SNR};
// every text of the form system, type, band, attribute over the letters and digits
static bool expectValid(char sys, char ot, char cb, char tc, double v)
{
   if (ot == 'X') return cb == '1' && tc == ' '; if (ot == 'I') return tc == ' ' && bandOf(sys, cb); if (!strchr(TYPEL, ot)) return false; if (sys == 'G' && ot == 'C' && tc == 'N') return false; if (sys == 'C' && cb == '1' && strchr("IQX", tc)) return true; return inTable(sys, cb, tc);
}
PROP(obs_codes, 2, 2, "always")
{
   g.nontrivial(); int seen = 0;
   for (const char* s = SYSL; *s; ++s) { std::set<string> ids; for (char ot = 'A'; ot <= 'Z'; ++ot) for (char cb = '0'; cb <= '9'; ++cb) for (char tc = 'A' - 1; tc <= 'Z'; ++tc)
   {
      char t = tc < 'A' ? ' ' : tc; string id = string(1, ot) + cb + t; bool want = expectValid(*s, ot, cb, t, 0); if (t == ' ' && strchr(TYPEL, ot)) continue; // unknown attribute: accepted or not, unspecified
      REQ_EQ(isValidRinexObsID(id, *s), want, "validity of " << *s << id); REQ_EQ(isValidRinexObsID(*s + id), want, "validity of " << *s << id); if (want) seen++; bool any = false; for (const char* x = SYSL; *x; ++x) any = any || expectValid(*x, ot, cb, t, 0); REQ_EQ(isValidRinexObsID(id), any, "validity of " << id << " in some system");
      if (!want) continue; for (double v : {3.0, 3.01, 3.02, 3.03, 3.04})
      {
         RinexObsID o(*s + id, v); if (ot == 'X') { REQUIRE(o.type == ObservationType::Channel, "channel"); REQ_EQ(o.asString(), id, "text"); continue; } if (ot == 'I') { REQUIRE(o.type == ObservationType::Iono, "iono"); REQ_EQ(o.asString(), id, "text of " << *s << id); continue; }
         CB wb; TC wc; char lb = cb; bool v302 = v == 3.02; if (*s == 'C' && cb == '1' && (t == 'I' || t == 'Q' || (t == 'X' && v302))) lb = '2'; REQUIRE(inTable(*s, lb, t, &wb, &wc), "table"); REQUIRE(o.type == TYPES[strchr(TYPEL, ot) - TYPEL] && o.band == wb && o.code == wc, "identifier of " << *s << id << " version " << v << " is " << StringUtils::asString(o)); string back = o.asString(), wt = id; if (*s == 'C' && wb == CB::B1) wt[1] = v302 ? '1' : '2'; REQ_EQ(back, wt, "text of " << *s << id << " version " << v); RinexObsID o2(*s + back, v); REQUIRE(o2.type == o.type && o2.band == o.band && o2.code == o.code && o2 == o, "text " << *s << back << " read back");
         if (v == 3.04) { string k = pbt::strf("%d %d %d", (int)o.type, (int)o.band, (int)o.code); bool alias = *s == 'C' && cb == '1' && lb == '2'; if (!alias) REQUIRE(ids.insert(k).second, *s << id << " names the same observation as another code"); RinexObsID fromObs((ObsID)o, v); REQUIRE(fromObs == o && fromObs.asString() == back, "made from ObsID"); if (*s == 'G') { RinexObsID o3(id, v); REQUIRE(o3 == o, "three letter code is not GPS"); } }
         std::ostringstream d; d << (ObsID&)o; REQ_EQ(d.str(), ObsID::cbDesc[wb] + " " + ObsID::tcDesc[wc] + " " + ObsID::otDesc[o.type], "description"); REQUIRE(ObsID::cbDesc[wb].size() && ObsID::tcDesc[wc].size() && ObsID::otDesc[o.type].size(), "no description of " << *s << id);
      }
   } }
   g << seen << " valid codes";
}
PROP(obs_refused, 20000, 200000, "always")
{
   g.nontrivial(); string t; switch (g.below(3)) { case 0: t = string(g.pick({0, 1, 2, 5, 6, 12}), 'C'); break; case 1: t = string(1, SYSL[g.below(7)]) + "X" + pbt::strf("%d", (int)g.range(0, 9)) + g.pick<string>({"C", "*", "-", "X", " "}); break; default: t = string(1, SYSL[g.below(7)]) + "I" + g.pick<string>({"0", "a", " ", "*", "4"}) + g.pick<string>({" ", "C", "X", "1"}); } g << pbt::q(t);
   bool bad = t.size() != 4 || (t[1] == 'X' && t.substr(2) != "1 ") || (t[1] == 'I' && (t[2] < '1' || t[2] > '9' || t[3] != ' ')); bool th = false; try { RinexObsID o(t, 3.04); } catch (InvalidParameter&) { th = true; } REQ_EQ(th, bad, "refusal");
   if (t.size() != 3 && t.size() != 4) REQUIRE(!isValidRinexObsID(t), "valid"); REQUIRE(!isValidRinexObsID(string("C1C"), g.pick<char>({'A', 'B', 'Z', 'x', '1', ' '})), "valid in a system that does not exist");
   ObsID x((ObservationType)g.below((int)ObservationType::Last), (CB)g.below((int)CB::Last), (TC)g.below((int)TC::Last)); bool r = false; try { RinexObsID o(x); REQUIRE(isValidRinexObsID(o.asString()), "invalid RinexObsID made from " << x); } catch (InvalidParameter&) { r = true; } if (x.type == ObservationType::Unknown || x.type == ObservationType::Undefined || (x.band == CB::L1L2 && x.type != ObservationType::Channel)) REQUIRE(r, "RinexObsID made from " << x);
}
PROP(obs_order, 40000, 400000, "three identifiers, not all equal")
{
   ObsID a[3]; bool any = g.oneIn(3), f = g.flag(); for (auto& x : a) { x = ObsID((ObservationType)(f ? 2 + g.below(2) : g.below((int)ObservationType::Last)), (CB)(f ? 3 + g.below(2) : g.below((int)CB::Last)), (TC)(f ? 2 + g.below(2) : g.below((int)TC::Last))); if (any && g.flag()) { switch (g.below(3)) { case 0: x.type = ObservationType::Any; break; case 1: x.band = CB::Any; break; default: x.code = TC::Any; } } } g << a[0] << ", " << a[1] << ", " << a[2];
   auto key = [](const ObsID& x) { return std::make_tuple((int)x.type, (int)x.band, (int)x.code); }; auto wild = [](const ObsID& x) { return x.type == ObservationType::Any || x.band == CB::Any || x.code == TC::Any; }; if (key(a[0]) != key(a[1]) || key(a[1]) != key(a[2])) g.nontrivial();
   for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ObsID &p = a[i], &q = a[j]; bool eq = (p.type == q.type || p.type == ObservationType::Any || q.type == ObservationType::Any) && (p.band == q.band || p.band == CB::Any || q.band == CB::Any) && (p.code == q.code || p.code == TC::Any || q.code == TC::Any); REQ_EQ(p == q, eq, "equality of " << p << " and " << q); REQ_EQ(p != q, !eq, "inequality"); REQUIRE(!(p < q && q < p), "order is not asymmetric"); REQ_EQ(p < q || q < p, key(p) != key(q), "order does not tell " << p << " from " << q); if (!wild(p) && !wild(q)) REQUIRE((p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q), "comparison of " << p << " and " << q); for (int k = 0; k < 3; ++k) REQUIRE(!(p < q && q < a[k]) || p < a[k], "order is not transitive"); }
   std::set<ObsID> s(a, a + 3); std::set<std::tuple<int, int, int>> m; for (auto& x : a) m.insert(key(x)); REQ_EQ(s.size(), m.size(), "set of identifiers");
}
PROP(rinex2_types, 3, 3, "always")
{
   g.nontrivial(); struct { const RinexObsType* t; const char* w; } M[] = {{&RinexObsHeader::L1, "L1P"}, {&RinexObsHeader::P1, "C1P"}, {&RinexObsHeader::C1, "C1C"}, {&RinexObsHeader::S1, "S1P"}, {&RinexObsHeader::D1, "D1P"}, {&RinexObsHeader::L2, "L2P"}, {&RinexObsHeader::P2, "C2P"}, {&RinexObsHeader::C2, "C2X"}, {&RinexObsHeader::S2, "S2P"}, {&RinexObsHeader::D2, "D2P"}};
   for (auto& m : M) { void* p = malloc(sizeof(RinexObsID)); memset(p, 0xee, sizeof(RinexObsID)); RinexObsID* o = new (p) RinexObsID(*m.t); string s = o->asString(3.04); REQ_EQ(s, string(m.w), "RINEX 2 type " << m.t->type); REQ_EQ(o->rinexVersion, Rinex3ObsBase::currentVersion, "version of identifier"); RinexObsID back(string("G") + s, 3.04); REQUIRE(back == *o, "identifier of " << m.t->type); o->~RinexObsID(); free(p); }
}
// new identifiers; the registry is global, and so is its model
PROP(new_codes, 400, 4000, "identifier that was not defined")
{
   static std::set<char> ot, cb, tc; if (ot.empty()) { for (auto& x : RinexObsID::char2ot) ot.insert(x.first); for (auto& x : RinexObsID::char2cb) cb.insert(x.first); for (auto& x : RinexObsID::char2tc) tc.insert(x.first); }
   string id; id += g.pick<char>({'C', 'L', 'S', 'T', 'U', 'V'}); id += g.pick<char>({'1', '5', '0', 'a', 'b'}); id += g.pick<char>({'C', 'X', 'F', 'G', 'H', 'J'}); bool known = ot.count(id[0]) && cb.count(id[1]) && tc.count(id[2]); g << id; bool th = false; RinexObsID o; auto nt = RinexObsID::ot2char.size(), nb = RinexObsID::cb2char.size(), nc = RinexObsID::tc2char.size(); bool n0 = !ot.count(id[0]), n1 = !cb.count(id[1]), n2 = !tc.count(id[2]);
   std::set<int> T, B, C; for (auto& x : ObsID::otDesc) T.insert((int)x.first); for (auto& x : ObsID::cbDesc) B.insert((int)x.first); for (auto& x : ObsID::tcDesc) C.insert((int)x.first);
   try { o = RinexObsID::newID(id, "new " + id); } catch (InvalidParameter&) { th = true; } REQ_EQ(th, known, "refusal of an identifier that is already defined"); if (known) { REQUIRE(nt == RinexObsID::ot2char.size() && nb == RinexObsID::cb2char.size() && nc == RinexObsID::tc2char.size(), "definitions changed"); return; }
   g.nontrivial(); ot.insert(id[0]); cb.insert(id[1]); tc.insert(id[2]); REQ_EQ(o.asString(), id, "text of the new identifier"); if (n0) REQUIRE(!T.count((int)o.type), "type already in use"); if (n1) REQUIRE(!B.count((int)o.band), "band already in use"); if (n2) REQUIRE(!C.count((int)o.code), "code already in use"); RinexObsID r("G" + id, 3.04); string was = StringUtils::asString(r) + pbt::strf(" (%d %d %d)", (int)r.type, (int)r.band, (int)r.code);
   // only the parts that are new are determined by newID: codes that exist depend on the system
   if (n0) REQUIRE(r.type == o.type, "new observation type of " << id << " read back as " << was); if (n1) REQUIRE(r.band == o.band, "new band of " << id << " read back as " << was); if (n2) REQUIRE(r.code == o.code, "new code of " << id << " read back as " << was); if (n0 && n1 && n2) REQ_EQ(r.asString(), id, "text of the identifier read back");
}
// ---- enumerations
template <class E> static void enums(const char* what, string (*to)(E), E (*from)(const string&), const vector<E>& it, int n, E unknown, bool space)
{
   std::set<string> s; for (int i = 0; i < n; ++i) { string t = to((E)i); REQUIRE(t.size() && t != "???", what << " " << i << " has no name"); REQUIRE(s.insert(t).second, what << " " << t << " twice"); REQUIRE(from(t) == (E)i, what << " " << t << " reads back differently"); REQUIRE(space || t.find_first_of(" \t") == string::npos, what << " name with white space"); REQUIRE(from(t + "x") == unknown, what << ": name with a letter added accepted"); }
   REQUIRE(from("") == unknown && from("no such name") == unknown, what << ": unknown name"); if (n < 200 && it.size()) { REQ_EQ(it.size(), (size_t)n, what << ": iteration over all values"); for (int i = 0; i < n; ++i) REQUIRE(it[i] == (E)i, what << ": iteration order"); }
}
template <class IT, class E> static vector<E> all() { vector<E> v; for (E e : IT()) v.push_back(e); return v; }
PROP(enums, 2, 2, "always")
{
   g.nontrivial(); namespace U = StringUtils;
   enums<SS>("satellite system", [](SS e) { return U::asString(e); }, [](const string& s) { return U::asSatelliteSystem(s); }, all<SatelliteSystemIterator, SS>(), (int)SS::Last, SS::Unknown, false);
   enums<CB>("carrier band", [](CB e) { return U::asString(e); }, [](const string& s) { return U::asCarrierBand(s); }, all<CarrierBandIterator, CB>(), (int)CB::Last, CB::Unknown, false);
   enums<TC>("tracking code", [](TC e) { return U::asString(e); }, [](const string& s) { return U::asTrackingCode(s); }, all<TrackingCodeIterator, TC>(), (int)TC::Last, TC::Unknown, false);
   enums<ObservationType>("observation type", [](ObservationType e) { return U::asString(e); }, [](const string& s) { return U::asObservationType(s); }, all<ObservationTypeIterator, ObservationType>(), (int)ObservationType::Last, ObservationType::Unknown, false);
   enums<NavType>("navigation type", [](NavType e) { return U::asString(e); }, [](const string& s) { return U::asNavType(s); }, all<NavTypeIterator, NavType>(), (int)NavType::Last, NavType::Unknown, false);
   enums<ReferenceFrame>("reference frame", [](ReferenceFrame e) { return U::asString(e); }, [](const string& s) { return U::asReferenceFrame(s); }, vector<ReferenceFrame>(), (int)ReferenceFrame::Last, ReferenceFrame::Unknown, false);
   enums<TimeSystem>("time system", [](TimeSystem e) { return U::asString(e); }, [](const string& s) { return U::asTimeSystem(s); }, vector<TimeSystem>(), (int)TimeSystem::Last, TimeSystem::Unknown, false);
   for (int i = 0; i < (int)NavType::Last; ++i) { NavType t = (NavType)i; NavID n(t), m(U::asString(t)); REQUIRE(n == m && n.navType == t && U::asString(n) == U::asString(t) && convertNavTypeToString(t) == U::asString(t) && convertStringToNavType(U::asString(t)) == t, "NavID of " << i); for (int j = 0; j < (int)NavType::Last; ++j) { NavID k((NavType)j); REQUIRE((n < k) == (i < j) && (n == k) == (i == j) && (n > k) == (i > j) && (n <= k) == (i <= j) && (n >= k) == (i >= j) && (n != k) == (i != j), "NavID comparison"); } }
   for (int i = 0; i < (int)SS::Last; ++i) REQUIRE(convertSatelliteSystemToString((SS)i) == U::asString((SS)i) && convertStringToSatelliteSystem(U::asString((SS)i)) == (SS)i, "satellite system names");
}
// ---- navigation message of a signal, over all combinations of system, band and code
PROP(nav_id, 2, 2, "always")
{
   g.nontrivial(); typedef NavType N; auto in = [](TC c, std::initializer_list<TC> l) { for (TC x : l) if (x == c) return true; return false; };
   for (int s = 0; s < (int)SS::Last; ++s) for (int b = 0; b < (int)CB::Last; ++b) for (int c = 0; c < (int)TC::Last; ++c) for (int prn : {1, 5, 6, 30})
   {
      SS sy = (SS)s; CB cb = (CB)b; TC tc = (TC)c; N w = N::Unknown; bool maybe = false; bool gq = sy == SS::GPS || sy == SS::QZSS;
      if (gq && cb == CB::L1 && tc == TC::CA) w = N::GPSLNAV; if (sy == SS::GPS && (cb == CB::L1 || cb == CB::L2) && in(tc, {TC::CA, TC::P, TC::Y, TC::Ztracking, TC::YCodeless, TC::Semicodeless})) w = N::GPSLNAV; if (gq && cb == CB::L2 && in(tc, {TC::L2CM, TC::L2CL, TC::L2CML})) w = N::GPSCNAVL2; if (gq && cb == CB::L5 && in(tc, {TC::L5I, TC::L5Q, TC::L5IQ})) w = N::GPSCNAVL5; if (gq && cb == CB::L1 && in(tc, {TC::L1CP, TC::L1CD, TC::L1CDP})) w = N::GPSCNAV2; if (sy == SS::GPS && (cb == CB::L1 || cb == CB::L2) && tc == TC::MDP) w = N::GPSMNAV;
      if (sy == SS::BeiDou && (cb == CB::B1 || cb == CB::B2 || cb == CB::B3) && in(tc, {TC::B1I, TC::B1Q, TC::B1IQ, TC::B2I, TC::B2Q, TC::B2IQ, TC::B3I, TC::B3Q, TC::B3IQ})) w = prn > 5 ? N::BeiDou_D1 : N::BeiDou_D2; if (sy == SS::Glonass && (cb == CB::G1 || cb == CB::G2) && tc == TC::Standard) w = N::GloCivilF; if (sy == SS::Glonass && cb == CB::G3 && in(tc, {TC::L3OCD, TC::L3OCP, TC::L3OCDP})) w = N::GloCivilC;
      if (sy == SS::Galileo && ((cb == CB::L1 && tc == TC::E1B) || (cb == CB::E5b && in(tc, {TC::E5bI, TC::E5bIQ})))) w = N::GalINAV; if (sy == SS::Galileo && cb == CB::L5 && in(tc, {TC::E5aI, TC::E5aIQ})) w = N::GalFNAV; if (sy == SS::IRNSS && cb == CB::L5 && in(tc, {TC::SPSL5, TC::RSL5D, TC::RSL5P, TC::RSL5DP})) w = N::IRNSS_SPS;
      NavID n(SatID(prn, sy), ObsID(ObservationType::NavMsg, cb, tc)); REQUIRE(n.navType == w || maybe, "message of " << SatID(prn, sy) << " " << StringUtils::asString(cb) << " " << StringUtils::asString(tc) << " is " << n << " expected " << StringUtils::asString(w));
   }
}
PBT_MAIN
