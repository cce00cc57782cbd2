// G06: the table of SVN and PRN as a relation in time, and the store of satellite metadata against a scan of the records in the file
#include "gp.hpp"
#include "SVNumXRef.hpp"
#include "SatMetaDataStore.hpp"
#include "MJD.hpp"
#include "YDSTime.hpp"
#include <sstream>
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map;
   // which satellite had which PRN, days as MJD (99999 = still in 2021)
static const struct { int prn, svn; double from, to; } history[] = {{1, 32, 48948.000, 54542.917}, {1, 35, 55713.000, 55755.000}, {1, 37, 54762.000, 54838.000}, {1, 49, 54914.000, 55687.667}, {1, 63, 55762.400, 99999.000}, {2, 13, 47687.000, 53137.709}, {2, 61, 53162.000, 99999.000}, {3, 11, 46368.000, 49456.875}, {3, 33, 50170.000, 56888.000}, {3, 35, 56905.000, 56952.000}, {3, 69, 56959.000, 99999.000}, {4, 1, 43561.000, 46263.729}, {4, 34, 49286.000, 57335.917}, {4, 34, 57731.000, 57756.667}, {4, 36, 57949.000, 58087.000}, {4, 36, 58401.000, 58487.000}, {4, 36, 58682.000, 58764.000}, {4, 38, 57886.000, 57949.000}, {4, 49, 57422.000, 57727.632}, {4, 49, 57758.000, 57886.000}, {4, 49, 58088.000, 58390.000}, {4, 74, 58491.958, 58676.833}, {4, 74, 58777.833, 99999.000}, {5, 5, 44278.000, 45832.000}, {5, 35, 49229.000, 54916.855}, {5, 50, 55070.000, 99999.000}, {6, 3, 43787.000, 48760.987}, {6, 36, 49786.000, 56720.000}, {6, 49, 56750.000, 56793.000}, {6, 67, 56794.000, 99999.000}, {7, 2, 43672.000, 47204.000}, {7, 37, 49120.000, 54302.000}, {7, 48, 54540.000, 99999.000}, {8, 4, 43852.000, 48043.000}, {8, 38, 50758.000, 57126.000}, {8, 49, 57142.000, 57204.667}, {8, 72, 57218.000, 99999.000}, {9, 6, 44355.000, 48321.154}, {9, 39, 49164.000, 56805.000}, {9, 39, 56821.000, 56871.000}, {9, 68, 56871.000, 99999.000}, {10, 36, 57281.000, 57322.000}, {10, 40, 50280.000, 57238.000}, {10, 73, 57326.683, 99999.000}, {11, 8, 45529.000, 49111.014}, {11, 46, 51458.000, 99999.000}, {12, 10, 45951.000, 50169.000}, {12, 58, 54056.000, 99999.000}, {13, 9, 45864.000, 49111.762}, {13, 43, 50652.000, 99999.000}, {14, 14, 47571.000, 51648.574}, {14, 41, 51858.000, 59057.667}, {14, 77, 59170.229, 99999.000}, {15, 15, 48165.000, 54175.000}, {15, 55, 54390.000, 99999.000}, {16, 16, 47756.000, 51830.031}, {16, 56, 52668.000, 99999.000}, {17, 17, 47871.000, 53424.917}, {17, 53, 53639.000, 99999.000}, {18, 18, 47915.000, 51774.321}, {18, 34, 58185.000, 58917.917}, {18, 54, 51939.000, 58182.917}, {18, 75, 58920.938, 99999.000}, {19, 19, 47820.000, 52163.917}, {19, 59, 53084.000, 99999.000}, {20, 20, 47976.000, 50431.000}, {20, 51, 51675.000, 99999.000}, {21, 21, 48105.000, 52666.917}, {21, 45, 52729.000, 99999.000}, {22, 22, 49021.000, 52857.917}, {22, 47, 52994.000, 99999.000}, {23, 23, 48221.000, 53048.917}, {23, 60, 53179.000, 59009.750}, {23, 76, 59044.000, 99999.000}, {24, 24, 48441.000, 55835.000}, {24, 32, 56000.000, 56042.000}, {24, 37, 56042.000, 56147.000}, {24, 49, 55958.000, 56000.000}, {24, 49, 56147.000, 56162.000}, {24, 65, 56204.000, 99999.000}, {25, 25, 48675.000, 55183.936}, {25, 62, 55344.125, 99999.000}, {26, 26, 48810.000, 57043.000}, {26, 27, 57079.000, 57098.000}, {26, 32, 57058.000, 57078.000}, {26, 71, 57106.775, 99999.000}, {27, 27, 48874.000, 55784.000}, {27, 27, 55911.943, 56207.000}, {27, 49, 56218.000, 56293.000}, {27, 49, 56378.000, 56421.698}, {27, 66, 56427.000, 99999.000}, {28, 28, 48722.000, 50676.000}, {28, 44, 51741.000, 99999.000}, {29, 29, 48974.000, 54397.000}, {29, 57, 54455.000, 99999.000}, {30, 27, 56629.000, 56644.000}, {30, 30, 50338.000, 55778.000}, {30, 32, 56526.000, 56554.000}, {30, 35, 55779.833, 56413.917}, {30, 35, 56414.000, 56418.917}, {30, 37, 56554.000, 56629.000}, {30, 49, 56421.698, 56526.000}, {30, 49, 56644.000, 56708.999}, {30, 64, 56709.000, 99999.000}, {31, 31, 49076.000, 53668.000}, {31, 52, 54003.000, 99999.000}, {32, 23, 54070.000, 57412.833}, {32, 70, 57423.562, 99999.000}};
static const SVNumXRef& xref() { static SVNumXRef x; return x; }
struct Node { int prn, svn; CommonTime b, e; };
static const vector<Node>& nodes() { static vector<Node> v; if (v.empty()) { static SVNumXRef x; for (auto& k : x.getPtoNMap()) v.push_back({k.first, k.second.getNAVSTARNum(), k.second.getBeginTime(), k.second.getEndTime()}); } return v; }
static CommonTime genTime(G& g) { if (g.oneIn(8)) return MJD(g.real(41000, 70000), TimeSystem::GPS); const Node& n = g.pick(nodes()); CommonTime t = g.flag() || n.e == CommonTime::END_OF_TIME ? n.b : n.e; t += g.pick(vector<double>{0, 0, 0.05, -0.05, 1, -1, 3600, -3600, 86400, -86400}); return t; }

PROP(relation, 40000, 600000, "a time within a second of a change")
{
   CommonTime t = genTime(g); int prn = g.range(0, 34), svn = g.range(0, 80); if (g.oneIn(3)) { const Node& n = g.pick(nodes()); prn = n.prn; svn = n.svn; } if (g.oneIn(20)) t.setTimeSystem(TimeSystem::Any); g << "PRN " << prn << " SVN " << svn << " at " << MJD(t).mjd; vector<int> svns, prns; bool edge = false; for (auto& n : nodes()) { bool in = n.b <= t && t <= n.e; if (in && n.prn == prn) svns.push_back(n.svn); if (in && n.svn == svn) prns.push_back(n.prn); for (auto& x : {n.b, n.e}) if ((n.prn == prn || n.svn == svn) && x != CommonTime::END_OF_TIME && std::fabs(x - t) < 1.5) edge = true; } g.nontrivial(edge); REQUIRE(svns.size() < 2 && prns.size() < 2, "two satellites at once");
   REQ_EQ(xref().NAVSTARIDAvailable(prn, t), !svns.empty(), "NAVSTARIDAvailable"); REQ_EQ(xref().PRNIDAvailable(svn, t), !prns.empty(), "PRNIDAvailable"); REQ_EQ(xref().NAVSTARIDActive(svn, t), !prns.empty(), "NAVSTARIDActive"); bool ok = true; int got = 0; try { got = xref().getNAVSTAR(prn, t); } catch (NoNAVSTARNumberFound&) { ok = false; } REQ_EQ(ok, !svns.empty(), "getNAVSTAR answers"); if (ok) { REQ_EQ(got, svns[0], "getNAVSTAR"); REQ_EQ(xref().getPRNID(got, t), prn, "PRN of the satellite of the PRN"); REQUIRE(xref().BlockTypeAvailable(got), "block of an active satellite"); } ok = true; try { got = xref().getPRNID(svn, t); } catch (NoNAVSTARNumberFound&) { ok = false; } REQ_EQ(ok, !prns.empty(), "getPRNID answers"); if (ok) { REQ_EQ(got, prns[0], "getPRNID"); REQ_EQ(xref().getNAVSTAR(got, t), svn, "satellite of the PRN of the satellite"); }
}
PROP(history, 10000, 100000, "an assignment that ended")
{
   int n = sizeof(history) / sizeof(history[0]); auto& h = history[g.below(n)]; double to = std::min(h.to, 59200.0); if (to - h.from < 3) return; double d = g.real(h.from + 1, to - 1); CommonTime t = MJD(d, TimeSystem::GPS); g << "PRN " << h.prn << " SVN " << h.svn << " at " << d; g.nontrivial(h.to < 99999); REQ_EQ(xref().getNAVSTAR(h.prn, t), h.svn, "satellite"); REQ_EQ(xref().getPRNID(h.svn, t), h.prn, "PRN");
}
static string blockOf(int s) { static const std::set<int> m{48, 49, 50, 52, 53, 55, 57, 58}; if (s == 7 || s == 12 || s == 42 || s < 1) return "unknown"; if (s <= 11) return "Block I"; if (s <= 21) return "Block II"; if (s <= 40) return "Block IIA"; if (s <= 61) return m.count(s) ? "Block IIR_M" : "Block IIR"; if (s <= 73) return "Block IIF"; if (s <= 77) return "GPS III"; return "unknown"; }
PROP(blocks, 4000, 40000, "a number that is not in the table")
{
   int s = g.oneIn(10) ? (int)g.bits(31) * (g.flag() ? -1 : 1) : g.range(-2, 90); if (s > 77 && s < 200) s -= 77; string b = blockOf(s); g << "SVN " << s; g.nontrivial(b == "unknown"); REQ_EQ(xref().BlockTypeAvailable(s), b != "unknown", "available"); REQ_EQ(xref().getBlockTypeString(s), b, "block"); bool ok = true; SVNumXRef::BlockType t; try { t = xref().getBlockType(s); } catch (NoNAVSTARNumberFound&) { ok = false; } REQ_EQ(ok, b != "unknown", "getBlockType answers"); if (ok) { static const char* names[] = {"Block I", "Block II", "Block IIA", "Block IIR", "Block IIR_M", "Block IIF", "GPS III"}; REQ_EQ(string(names[(int)t]), b, "getBlockType"); }
   if (b == "unknown") { CommonTime now = MJD(g.range(45000, 59000), TimeSystem::GPS); int n = 0; try { xref().getNAVSTAR(s < 33 && s > 0 ? s + 1000000 : s, now); } catch (NoNAVSTARNumberFound&) { n++; } try { xref().getPRNID(s, now); } catch (NoNAVSTARNumberFound&) { n++; } REQ_EQ(n, 2, "refusals"); }
}

struct Rec { SatelliteSystem sys; string svn; unsigned prn; int chl; unsigned slot; long b, e; string plane, oslot, signals, status; int active; };
static const SatelliteSystem kinds[] = {SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo, SatelliteSystem::QZSS};
static const vector<string> clockNames{"Crystal", "Cesium", "Rubidium", "Hydrogen", "USNO", "Unknown", "Quartz"};
static CommonTime day(long d) { return CommonTime(MJD(d, TimeSystem::Any)); } // days
static string pad(G& g, const string& s) { return g.oneIn(8) ? " " + s : g.oneIn(8) ? s + "  " : s; }
static string when(G& g, long d, double sod = 0) { YDSTime y((MJD(d, TimeSystem::Any))); return pad(g, std::to_string(y.year)) + "," + pad(g, std::to_string(y.doy)) + "," + pad(g, pbt::strf(g.flag() ? "%g" : "%.1f", sod)); }

PROP(metadata, 15000, 200000, "records of one PRN or SVN at different times, and a bad record in the file")
{
   struct Launch { long d; string type, mission; }; map<SatMetaDataStore::SVNID, Launch> launch; map<SatMetaDataStore::SVNID, unsigned long> norad; map<std::pair<SatelliteSystem, string>, vector<string> > clk; vector<Rec> recs; string file = "# header, with commas\n\n"; bool bad = false, multi = false; SatMetaDataStore st; int files = g.oneIn(4) ? 2 : 1; map<string, int> seen;
   for (int f = 0; f < files; f++)
   {
      bool fileBad = false; auto key = [&](const char* k) { string s = k; if (g.oneIn(6)) for (char& c : s) c = tolower(c); return pad(g, s); }; auto sysName = [&](SatelliteSystem s) { return pad(g, s == SatelliteSystem::Glonass ? "GLONASS" : s == SatelliteSystem::GPS ? "GPS" : s == SatelliteSystem::Galileo ? "Galileo" : "QZSS"); };
      int n = g.range(0, 40);
      for (int k = 0; k < n; k++)
      {
         SatelliteSystem sys = kinds[g.weighted({4, 3, 1, 1})]; string svn = g.pick(vector<string>{"1", "2", "3", "701", "A5", "G 9"}); SatMetaDataStore::SVNID id(sys, svn); string blk = g.pick(vector<string>{"I", "II", "M"});
         switch (k < 8 && f == 0 && !g.oneIn(10) ? k % 3 : (int)g.weighted({2, 2, 2, 12, 1, 1, 1, 1}))
         {
            case 0: { unsigned long v = g.range(1, 99999); file += key("NORAD") + "," + sysName(sys) + "," + pad(g, svn) + "," + pad(g, std::to_string(v)) + "\n"; if (norad.count(id)) fileBad = true; else norad[id] = v; break; }
            case 1: { long d = g.range(45000, 58000); string mi = g.pick(vector<string>{"I-1", "33", "x"}); file += key("LAUNCH") + "," + sysName(sys) + "," + pad(g, svn) + "," + when(g, d) + "," + pad(g, blk) + "," + pad(g, mi) + "\n"; if (launch.count(id)) fileBad = true; else launch[id] = {d, blk, mi}; break; }
            case 2: { vector<string> c; string l = key("CLOCK") + "," + sysName(sys) + "," + pad(g, blk); for (int i = 0; i < 4; i++) { c.push_back(g.pick(clockNames)); l += "," + pad(g, c[i]); } file += l + "\n"; auto ck = std::make_pair(sys, blk); if (clk.count(ck)) fileBad = true; else clk[ck] = c; break; }
            case 3:
            {
               Rec r; r.sys = sys; r.svn = svn; if (!launch.empty() && !g.oneIn(5)) { auto i = launch.begin(); std::advance(i, g.below(launch.size())); r.sys = i->first.system; r.svn = i->first.id; } id = SatMetaDataStore::SVNID(r.sys, r.svn); r.prn = g.range(1, 4); r.chl = r.sys == SatelliteSystem::Glonass ? g.range(-7, 6) : 0; r.slot = r.sys == SatelliteSystem::Glonass ? g.range(1, 3) : 0; r.b = g.range(50000, 50020); r.e = r.b + g.range(1, 8); if (g.oneIn(4)) r.e = 80000; r.plane = g.pick(vector<string>{"A", "B"}); r.oslot = std::to_string(g.range(1, 6)); r.signals = "set 1"; r.status = g.pick(vector<string>{"Operational", "Decommissioned", "Test", "Unknown", "Broken"}); r.active = g.pick(vector<int>{0, 1, 3, 255}); string s = key("SAT") + "," + sysName(r.sys) + "," + pad(g, r.svn) + "," + pad(g, std::to_string(r.prn)) + "," + pad(g, std::to_string(r.chl)) + "," + pad(g, std::to_string(r.slot)) + "," + when(g, r.b) + "," + when(g, r.e) + "," + pad(g, r.plane) + "," + r.oslot + "," + pad(g, r.signals) + "," + pad(g, r.status) + "," + std::to_string(r.active); bool ok = true;
               if (g.oneIn(15)) { s += ",x"; ok = false; } if (!norad.count(id) || !launch.count(id) || !clk.count({r.sys, launch[id].type})) ok = false; if (ok) { for (auto& o : recs) if (o.sys == r.sys && (o.prn == r.prn || o.svn == r.svn)) multi = true; recs.push_back(r); } else fileBad = true; file += s + "\n"; break;
            }
            case 4: file += "# comment,SAT,GPS\n"; break;
            case 5: file += g.pick(vector<string>{"FOO,1,2\n", "SAT\n", "NORAD,GPS,77\n", "LAUNCH,GPS,77,1990,1,0,II\n", "CLOCK,GPS,II,Cesium\n"}); fileBad = true; break;
            case 6: file += "\n"; break;
            default: { string s = "SAT,GPS,1," + g.pick(vector<string>{"x,0,0", "1,y,0", "1,0,z", "1.5,0,0"}) + ",1990,1,0,2000,1,0,A,1,s,Test,0\n"; file += s; fileBad = true; }
         }
      }
      string path = pbt::scratch() + "/meta.csv"; pbt::spit(path, file); std::ostringstream hush; auto* old = std::cerr.rdbuf(hush.rdbuf()); bool got = st.loadData(path); std::cerr.rdbuf(old); g << file << "---\n"; REQ_EQ(got, !fileBad, "loadData"); bad |= fileBad; file.clear();
   }
   g.nontrivial(bad && multi); REQUIRE(!st.loadData(pbt::scratch() + "/none.csv"), "a missing file was loaded");
   REQ_EQ(st.noradMap.size(), norad.size(), "NORAD records"); for (auto& k : norad) REQUIRE(st.noradMap.count(k.first) && st.noradMap[k.first] == k.second, "NORAD of " << k.first.id); REQ_EQ(st.launchMap.size(), launch.size(), "LAUNCH records"); for (auto& k : launch) { REQUIRE(st.launchMap.count(k.first), "launch of " << k.first.id); auto& l = st.launchMap[k.first]; REQUIRE(l.launchTime == day(k.second.d) && l.type == k.second.type && l.mission == k.second.mission && l.svn.id == k.first.id && l.svn.system == k.first.system, "launch of " << k.first.id); } REQ_EQ(st.clkMap.size(), clk.size(), "CLOCK records"); size_t total = 0; for (auto& k : st.satMap) total += k.second.size(); REQ_EQ(total, recs.size(), "SAT records");
   auto isRec = [&](const SatMetaData& s, const Rec& r) { SatMetaDataStore::SVNID id(r.sys, r.svn); auto& l = launch[id]; auto& c = clk[{r.sys, l.type}]; bool ok = s.sys == r.sys && s.svn == r.svn && s.prn == r.prn && s.chl == r.chl && s.slotID == r.slot && s.startTime == day(r.b) && s.endTime == day(r.e) && s.plane == r.plane && s.slot == r.oslot && s.signals == r.signals && (unsigned)s.activeClock == (unsigned)r.active && (unsigned long)s.norad == norad[id] && s.launchTime == day(l.d) && s.type == l.type && s.mission == l.mission; string stt = r.status == "Broken" ? "Unknown" : r.status; ok = ok && SatMetaData::asString(s.status) == stt; for (int k = 0; k < 4; k++) ok = ok && SatMetaData::asString(s.clocks[k]) == (c[k] == "Quartz" ? "Unknown" : c[k]); return ok; };
   for (int q = 0; q < 25; q++)
   {
      SatelliteSystem sys = kinds[g.weighted({4, 3, 1, 1})]; unsigned prn = g.range(0, 5); string svn = g.pick(vector<string>{"1", "2", "3", "701", "A5", "G 9", "9"}); int chl = g.range(-7, 6); unsigned slot = g.range(1, 3); double d = g.range(49999, 50030) + (g.oneIn(3) ? 0.5 : 0); if (!recs.empty() && g.flag()) { const Rec& r = g.pick(recs); sys = r.sys; prn = r.prn; svn = r.svn; chl = r.chl; slot = r.slot; d = g.flag() ? r.b : r.e; } CommonTime t = MJD(d, g.pick(vector<TimeSystem>{TimeSystem::GPS, TimeSystem::UTC, TimeSystem::Any})); auto valid = [&](const Rec& r) { return r.b <= d && d < r.e; };
      auto judge = [&](bool got, const SatMetaData& s, const std::function<bool(const Rec&)>& m, const char* w) { bool any = false, is = false; for (auto& r : recs) if (m(r) && valid(r)) { any = true; is |= got && isRec(s, r); } REQ_EQ(got, any, w << " finds"); REQUIRE(!got || is, w << ": not a record for it"); };
      SatMetaData s; bool got = g.flag() ? st.findSat(sys, prn, t, s) : st.findSat(SatID(prn, sys), t, s); judge(got, s, [&](const Rec& r) { return r.sys == sys && r.prn == prn; }, "findSat"); string v = "none"; REQ_EQ(g.flag() ? st.getSVN(sys, prn, t, v) : st.getSVN(SatID(prn, sys), t, v), got, "getSVN"); REQ_EQ(v, got ? s.svn : string("none"), "SVN"); SatMetaData s2; got = st.findSatBySVN(sys, svn, t, s2); judge(got, s2, [&](const Rec& r) { return r.sys == sys && r.svn == svn; }, "findSatBySVN"); uint32_t p = 77; REQ_EQ(st.getPRN(sys, svn, t, p), got, "getPRN"); REQ_EQ(p, got ? s2.prn : 77u, "PRN"); SatMetaData s3; got = st.findSatBySlotFdma(slot, chl, t, s3); judge(got, s3, [&](const Rec& r) { return r.sys == SatelliteSystem::Glonass && r.chl == chl && r.slot == slot; }, "findSatBySlotFdma");
   }
}
PBT_MAIN
