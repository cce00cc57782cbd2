// E06: legacy navigation words: parity, subframe decoding and the almanac against the equations and tables of IS-GPS-200 written down here
#include "gp.hpp"
#include "EngNav.hpp"
#include "EngAlmanac.hpp"
#include "AlmOrbit.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map;
typedef uint32_t U;
   // data bits 1..24 in the equations of D25..D30 (table 20-XIV); the first term is D29* or D30* of the word before
static const vector<vector<int> > equations = { {29, 1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 17, 18, 20, 23}, {30, 2, 3, 4, 6, 7, 11, 12, 13, 14, 15, 18, 19, 21, 24}, {29, 1, 3, 4, 5, 7, 8, 12, 13, 14, 15, 16, 19, 20, 22}, {30, 2, 4, 5, 6, 8, 9, 13, 14, 15, 16, 17, 20, 21, 23}, {30, 1, 3, 5, 6, 7, 9, 10, 14, 15, 16, 17, 18, 21, 22, 24}, {29, 3, 5, 6, 8, 9, 10, 11, 13, 15, 19, 22, 23, 24} };
static int bit(U w, int n) { return (w >> (30 - n)) & 1; } // bit n of 30, 1 = most significant
static U parity(U data, U prev) { U p = 0; for (auto& e : equations) { int b = bit(prev, e[0]); for (size_t k = 1; k < e.size(); k++) b ^= bit(data, e[k]); p = p << 1 | b; } return p; }
static U genWord(G& g) { switch (g.below(5)) { case 0: return 0; case 1: return 0x3fffffff; case 2: return 1u << g.below(30); default: return g.bits(32) & 0x3fffffff; } }
   // a word of source data as transmitted or with the data upright, with right parity
static U encode(U data, U prev, bool upright, bool nib) { data &= 0x3fffffc0; if (nib) for (int t = 0; t < 4; t++) { U d = (data & ~0xc0u) | (t << 6); if (!(parity(d, prev) & 3)) { data = d; break; } } U p = parity(data, prev); if (!upright && (prev & 1)) data ^= 0x3fffffc0; return data | p; }

PROP(words, 60000, 1000000, "a word before it that inverts the data")
{
   U prev = genWord(g), data = genWord(g) & 0x3fffffc0; bool up = g.flag(), nib = g.flag(); g << "data " << data << " prev " << prev << " upright " << up << " nib " << nib; g.nontrivial(prev & 1); U w = encode(data, prev, up, nib); if (nib) REQUIRE(!(w & 3), "oracle: bits 29 and 30 of a word with non-information bits"); REQ_EQ(EngNav::computeParity(w, prev, up), w & 63, "computeParity"); U junk = g.flag() ? g.bits(32) & 63 : 0, junk2 = nib && g.flag() ? g.bits(32) & 0xc0 : 0; REQ_EQ(EngNav::computeParity(w ^ junk, prev, up), w & 63, "computeParity does not look at the parity bits"); U in = (nib ? (w & ~0xc0u) | junk2 : w & ~63u); REQ_EQ(EngNav::fixParity((in & ~63u) | junk, prev, nib, up), w, "fixParity of " << in << " with parity bits " << junk);
   REQ_EQ(EngNav::getd29(w), (U)bit(w, 29), "getd29"); REQ_EQ(EngNav::getd30(w), (U)bit(w, 30), "getd30"); unsigned long z = 0; for (int k = 1; k <= 17; k++) z = 2 * z + bit(w, k); int id = 0; for (int k = 20; k <= 22; k++) id = 2 * id + bit(w, k); REQ_EQ(EngNav::getHOWTime(w), 6 * z, "getHOWTime"); REQ_EQ(EngNav::getTOW(w), z, "getTOW"); REQ_EQ((int)EngNav::getSFID(w), id, "getSFID");
}
PROP(subframes, 30000, 600000, "a subframe with bit errors")
{
   U sf[10]; bool up = g.flag(); for (int k = 0; k < 10; k++) sf[k] = encode(genWord(g), k ? sf[k - 1] : 0, up, k == 1 || k == 9); long lsf[10]; auto check = [&](bool want, const string& what) { REQ_EQ(EngNav::checkParity(sf, up), want, what); REQ_EQ(EngNav::checkParity(vector<U>(sf, sf + 10), up), want, what << ", vector"); if (up) { REQ_EQ(EngNav::checkParity(sf), want, what << ", default"); for (int k = 0; k < 10; k++) lsf[k] = sf[k]; REQ_EQ(EngNav::subframeParity(lsf), want, what << ", subframeParity"); } }; check(true, "a subframe with right parity"); if (g.flag()) for (int k = 0; k < 10; k++) sf[k] |= (g.bits(32) & 3) << 30; check(true, "the two bits above a word"); int n = g.range(1, 3); g.nontrivial(true);
      // one to three wrong bits in one word are always found: the code has distance four
   int word = g.below(10); std::set<int> b; while ((int)b.size() < n) { int x = g.range(1, 30); while (b.count(x)) x = x % 30 + 1; b.insert(x); } g << "word " << word << " bits"; for (int k : b) { g << " " << k; sf[word] ^= 1u << (30 - k); } if (n % 2 || !(b.count(29) && b.count(30))) {} check(false, "wrong bits");
}
   // the fields of the ten patterns: index of the output, first bit and count (two sections), power of two, power of pi, factor, sign
struct F { int out, b1, n1, b2, n2, p2, ppi; double f; bool sg; };
static const vector<F>& pattern(int p)
{
   static vector<vector<F> > t; if (t.empty())
   {
      t.resize(11); vector<F> head{{0, 1, 8, 0, 0, 0, 0, 1, false}, {1, 9, 14, 0, 0, 0, 0, 1, false}, {2, 31, 17, 0, 0, 0, 0, 6, false}, {3, 48, 2, 0, 0, 0, 0, 1, false}, {4, 50, 3, 0, 0, 0, 0, 1, false}}; for (int k = 1; k <= 10; k++) { t[k] = head; if (k > 3) { t[k].push_back({5, 61, 2, 0, 0, 0, 0, 1, false}); t[k].push_back({6, 63, 6, 0, 0, 0, 0, 1, false}); } } auto add = [&](int k, vector<F> v) { t[k].insert(t[k].end(), v.begin(), v.end()); };
      add(1, {{6, 71, 2, 0, 0, 0, 0, 1, false}, {7, 73, 4, 0, 0, 0, 0, 1, false}, {8, 77, 6, 0, 0, 0, 0, 1, false}, {9, 83, 2, 211, 8, 11, 0, 1, false}, {10, 91, 1, 0, 0, 0, 0, 1, false}, {11, 197, 8, 0, 0, -31, 0, 1, true}, {12, 219, 16, 0, 0, 4, 0, 1, false}, {13, 241, 8, 0, 0, -55, 0, 1, true}, {14, 249, 16, 0, 0, -43, 0, 1, true}, {15, 271, 22, 0, 0, -31, 0, 1, true}});
      add(2, {{5, 61, 8, 0, 0, 11, 0, 1, false}, {6, 69, 16, 0, 0, -5, 0, 1, true}, {7, 91, 16, 0, 0, -43, 1, 1, true}, {8, 107, 8, 121, 24, -31, 1, 1, true}, {9, 151, 16, 0, 0, -29, 0, 1, true}, {10, 167, 8, 181, 24, -33, 0, 1, false}, {11, 211, 16, 0, 0, -29, 0, 1, true}, {12, 227, 8, 241, 24, -19, 0, 1, false}, {13, 271, 16, 0, 0, 4, 0, 1, false}, {14, 287, 1, 0, 0, 0, 0, 1, false}, {15, 288, 5, 0, 0, 0, 0, 900, false}});
      add(3, {{5, 61, 16, 0, 0, -29, 0, 1, true}, {6, 77, 8, 91, 24, -31, 1, 1, true}, {7, 121, 16, 0, 0, -29, 0, 1, true}, {8, 137, 8, 151, 24, -31, 1, 1, true}, {9, 181, 16, 0, 0, -5, 0, 1, true}, {10, 197, 8, 211, 24, -31, 1, 1, true}, {11, 241, 24, 0, 0, -43, 1, 1, true}, {12, 271, 8, 0, 0, 11, 0, 1, false}, {13, 279, 14, 0, 0, -43, 1, 1, true}});
      add(4, {{7, 69, 16, 0, 0, -21, 0, 1, false}, {8, 91, 8, 0, 0, 12, 0, 1, false}, {9, 99, 16, 0, 0, -19, 1, 1, true}, {10, 121, 16, 0, 0, -38, 1, 1, true}, {11, 137, 8, 0, 0, 0, 0, 1, false}, {12, 151, 24, 0, 0, -11, 0, 1, false}, {13, 181, 24, 0, 0, -23, 1, 1, true}, {14, 211, 24, 0, 0, -23, 1, 1, true}, {15, 241, 24, 0, 0, -23, 1, 1, true}, {16, 271, 8, 290, 3, -20, 0, 1, true}, {17, 279, 11, 0, 0, -38, 0, 1, true}, {19, 63, 6, 0, 0, 0, 0, 1, false}});
      add(5, {{7, 77, 8, 0, 0, 0, 0, 1, false}}); for (int k = 0; k < 24; k++) add(5, {{8 + k, 91 + 30 * (k / 4) + 6 * (k % 4), 6, 0, 0, 0, 0, 1, false}}); add(8, {{7, 69, 8, 0, 0, -30, 0, 1, true}, {8, 77, 8, 0, 0, -27, -1, 1, true}, {9, 91, 8, 0, 0, -24, -2, 1, true}, {10, 99, 8, 0, 0, -24, -3, 1, true}, {11, 107, 8, 0, 0, 11, 0, 1, true}, {12, 121, 8, 0, 0, 14, -1, 1, true}, {13, 129, 8, 0, 0, 16, -2, 1, true}, {14, 137, 8, 0, 0, 16, -3, 1, true}, {15, 181, 24, 211, 8, -30, 0, 1, true}, {16, 151, 24, 0, 0, -50, 0, 1, true}, {17, 219, 8, 0, 0, 12, 0, 1, false}, {19, 241, 8, 0, 0, 0, 0, 1, true}, {21, 257, 8, 0, 0, 0, 0, 1, false}, {22, 271, 8, 0, 0, 0, 0, 1, true}});
      for (int k = 0; k < 32; k++) { int b = k < 4 ? 69 + 4 * k : 91 + 30 * ((k - 4) / 6) + 4 * ((k - 4) % 6); add(9, {{7 + k, b, 4, 0, 0, 0, 0, 1, false}}); } for (int k = 0; k < 8; k++) add(9, {{39 + k, k == 0 ? 229 : k < 5 ? 241 + 6 * (k - 1) : 271 + 6 * (k - 5), 6, 0, 0, 0, 0, 1, false}}); for (int k = 0; k < 22; k++) { int b = k < 2 ? 69 + 8 * k : 91 + 30 * ((k - 2) / 3) + 8 * ((k - 2) % 3); add(10, {{7 + k, b, 8, 0, 0, 0, 0, 1, false}}); }
      for (int p : {6, 7}) { add(p, {{7, 69, 16, 0, 0, 0, 0, 1, false}}); for (int k = 0; k < 5; k++) add(p, {{8 + k, 91 + 30 * k, 24, 0, 0, 0, 0, 1, false}}); add(p, {{13, 241, 8, 0, 0, 0, 0, 1, false}, {14, 249, 16, 0, 0, 0, 0, 1, false}}); }
   }
   return t[p];
}
static long raw(const U* sf, const F& f) { uint64_t v = 0; for (int k = 0; k < f.n1; k++) v = v * 2 + bit(sf[(f.b1 - 1) / 30], (f.b1 - 1 + k) % 30 + 1); for (int k = 0; k < f.n2; k++) v = v * 2 + bit(sf[(f.b2 - 1) / 30], (f.b2 - 1 + k) % 30 + 1); int n = f.n1 + f.n2; if (f.sg && (v >> (n - 1))) return (long)v - (1L << n); return v; }
static long double value(const U* sf, const F& f) { return ldexpl((long double)raw(sf, f) * f.f, f.p2) * powl(3.1415926535897932384626433832795L, f.ppi); }
static void setBits(U* sf, int b, int n, U v) { for (int k = 0; k < n; k++) { int x = b - 1 + k; U m = 1u << (29 - x % 30); if ((v >> (n - 1 - k)) & 1) sf[x / 30] |= m; else sf[x / 30] &= ~m; } }
static int patternOf(int sfid, int svid) { if (sfid < 1 || sfid > 5) return 0; if (sfid < 4) return sfid; if (svid <= 32) return 4; switch (svid) { case 51: return 5; case 52: case 53: case 54: case 57: return 6; case 55: return 10; case 56: return 8; case 63: return 9; } return svid >= 58 ? 7 : 0; }
static long nearest(long full, long part, long range) { long base = (full - part) / range * range + part, best = base; for (long k = -2; k <= 2; k++) if (std::labs(base + k * range - full) < std::labs(best - full)) best = base + k * range; return best; }
static void near(double got, long double want, const string& what) { if (!(fabsl(got - want) <= 4e-15L * fabsl(want))) pbt::fail(pbt::strf("%s: got %.17g wanted %.17Lg", what.c_str(), got, want)); }
static void genSubframe(G& g, U* sf, int sfid, int svid) { for (int k = 0; k < 10; k++) sf[k] = genWord(g); if (g.flag()) setBits(sf, 1, 8, 0x8b); setBits(sf, 50, 3, sfid); if (sfid > 3) setBits(sf, 63, 6, svid); }

PROP(decode, 40000, 800000, "a signed field that is negative")
{
   int sfid = g.range(1, 5), svid = g.range(0, 63); if (g.oneIn(30)) sfid = g.range(0, 7); U sf[10]; genSubframe(g, sf, sfid, svid); int pat = patternOf(sfid, svid); g << "subframe " << sfid << " SV ID " << svid << " pattern " << pat; for (int k = 0; k < 10; k++) g << " " << sf[k]; long l[10]; for (int k = 0; k < 10; k++) l[k] = sf[k]; REQ_EQ((int)EngNav::getSubframePattern(sf), pat, "pattern"); REQ_EQ((int)EngNav::getSubframePattern(l), pat, "pattern of long words"); int week = g.range(600, 4000); double out[60], out2[60]; for (double& d : out) d = -77; for (double& d : out2) d = -77; bool ok = EngNav::subframeConvert(sf, (short)week, out), ok2 = EngNav::subframeConvert(l, week, out2); REQ_EQ(ok, pat != 0, "subframeConvert"); REQ_EQ(ok2, ok, "subframeConvert of long words"); if (!ok) return; bool neg = false;
   for (auto& f : pattern(pat)) { near(out[f.out], value(sf, f), pbt::strf("field %d of pattern %d", f.out, pat)); REQUIRE(out[f.out] == out2[f.out], "long words, field " << f.out); if (raw(sf, f) < 0) neg = true; } g.nontrivial(neg);
   auto wk = [&](int b, int n, int i) { F f{i, b, n, 0, 0, 0, 0, 1, false}; long r = raw(sf, f), w = nearest(week, r, 1L << n); REQUIRE(out[i] == w || (std::labs(w - week) == (1L << (n - 1)) && std::fabs(out[i] - week) == (1L << (n - 1))), "full week " << out[i] << " of " << r << " near " << week << ", wanted " << w); REQUIRE(out[i] == out2[i], "week"); }; if (pat == 1) wk(61, 10, 5); if (pat == 4) REQ_EQ(out[18], (double)week, "reference week of the almanac"); if (pat == 8) { wk(227, 8, 18); wk(249, 8, 20); }
}
PROP(pages, 30000, 400000, "a subframe 4 or 5")
{
   static const int ids[25] = {57, 25, 26, 27, 28, 57, 29, 30, 31, 32, 57, 62, 52, 53, 54, 57, 55, 56, 58, 59, 57, 60, 61, 62, 63}; int tow = g.range(0, 100799); short s, p, v; bool ok = EngNav::zcount2page(4ul * tow, s, p); int k = (tow + 99) % 5 + 1, frame = ((tow ? tow - 1 : 100799) / 5) % 25; g << "TOW " << tow; g.nontrivial(k > 3); REQUIRE(ok && s == k, "subframe " << s << " wanted " << k); REQ_EQ((int)p, k > 3 ? frame + 1 : 0, "page"); int sf = g.range(2, 6), pg = g.range(-2, 28); ok = EngNav::sfpage2svid(sf, pg, v); bool want = sf >= 4 && sf <= 5 && pg >= 1 && pg <= 25; g << " subframe " << sf << " page " << pg; REQ_EQ(ok, want, "sfpage2svid"); if (want) { int id = sf == 4 ? ids[pg - 1] : pg == 25 ? 51 : pg; REQ_EQ((int)v, id, "SV ID"); REQUIRE(EngNav::sv2page(id, s, p), "sv2page"); REQ_EQ((int)s, sf, "subframe of the ID"); if (sf == 5) REQ_EQ((int)p, pg, "page of the ID"); else REQUIRE(p >= 1 && p <= 25 && ids[p - 1] == id, "page " << p); } int id = g.range(-3, 66); bool valid = (id >= 1 && id <= 32) || (id >= 51 && id <= 63); REQ_EQ(EngNav::sv2page(id, s, p), valid, "sv2page of " << id);
   int week = g.range(0, 8000), part8 = g.below(256), part10 = g.below(1024); auto chk = [&](double got, int part, int range, const char* what) { REQUIRE(std::fabs(got - week) <= range / 2 && ((long)got - part) % range == 0, what << " gives " << got << " for " << part << " near " << week); }; chk(EngNav::convertXBit(week, part8, EngNav::BITS8), part8, 256, "8 bits"); chk(EngNav::convertXBit(week, part10, EngNav::BITS10), part10, 1024, "10 bits"); double d = part8; REQUIRE(EngNav::convert8bit(week, &d), "convert8bit"); chk(d, part8, 256, "convert8bit"); d = part10; REQUIRE(EngNav::convert10bit(week, &d), "convert10bit"); chk(d, part10, 1024, "convert10bit");
}
PROP(nmct, 30000, 400000, "a subframe near the end of a week")
{
   int week = g.range(1, 3000), z = g.oneIn(3) ? (g.range(0, 20) + 100790) % 100800 : g.range(0, 100799), toe = 16 * (g.flag() ? 450 * g.range(0, 83) : g.range(0, 37799)), aodo = g.oneIn(4) ? 31 : g.range(0, 31); U sf[10]; genSubframe(g, sf, 2, 0); setBits(sf, 31, 17, z); setBits(sf, 271, 16, toe / 16); setBits(sf, 288, 5, aodo); g << "week " << week << " z " << z << " toe " << toe << " AODO " << aodo; CommonTime start = GPSWeekSecond(week, 0.0, TimeSystem::Unknown); double tot = z * 6.0 - 6, t = toe, totSow = tot < 0 ? tot + 604800 : tot; double toeRel = t + (tot < 0 ? -604800.0 : 0); if (totSow - t > 302400) toeRel += 604800; else if (totSow - t < -302400) toeRel -= 604800; g.nontrivial(toeRel != t); double off = std::fmod(t, 7200), nm = toeRel - aodo * 900 + (off ? 7200 - off : 0);
   U a; CommonTime tn, te, tt; bool ok = EngNav::getNMCTValidity(sf, week, a, tn, te, tt); start.setTimeSystem(tt.getTimeSystem()); REQ_EQ(ok, aodo != 31, "valid"); REQ_EQ(a, (U)aodo * 900, "AODO"); REQ_EQ(tt - start, tot, "time of transmission"); REQ_EQ(te - start, toeRel, "toe"); REQ_EQ(tn - start, nm, "validity time"); NMCTMeta m; REQ_EQ(EngNav::getNMCTValidity(sf, week, m), ok, "meta"); REQUIRE(m.aodo == a && m.tnmct == tn && m.toe == te && m.tot == tt, "meta"); int other = g.pick(vector<int>{0, 1, 3, 4, 5}); setBits(sf, 50, 3, other); bool thrown = false; try { EngNav::getNMCTValidity(sf, week, m); } catch (InvalidParameter&) { thrown = true; } REQUIRE(thrown, "another subframe is refused");
}
   // a history of almanac pages
PROP(almanac, 12000, 250000, "a page received again with other content")
{
   EngAlmanac alm; map<int, vector<U> > page; map<int, int> week; vector<U> p51, p56, p63; int w51 = 0; bool again = false; int n = g.range(0, 25);
   for (int k = 0; k < n; k++)
   {
      int sfid = g.oneIn(15) ? g.range(1, 3) : g.range(4, 5), svid = g.oneIn(3) ? g.pick(vector<int>{51, 56, 63, 0, 57, 58, 40}) : g.range(0, 40); if (svid > 32 && svid < 51 && g.flag()) svid -= 32; int wk = g.range(600, 3000); U sf[10]; genSubframe(g, sf, sfid, svid); bool pre = g.oneIn(12) ? false : true; setBits(sf, 1, 8, pre ? 0x8b : g.pick(vector<int>{0x74, 0, 0x8a})); g << "[" << sfid << " " << svid << " wk " << wk << (pre ? "" : " bad") << "] "; int pat = patternOf(sfid, svid); int r = 0; long l[10]; for (int i = 0; i < 10; i++) l[i] = sf[i]; try { r = (g.flag() ? alm.addSubframe(sf, wk) : alm.addSubframe(l, wk)) ? 1 : 0; } catch (InvalidParameter&) { r = 2; } REQ_EQ(r, pat == 0 ? 0 : (!pre || pat < 4) ? 2 : 1, "addSubframe"); if (r != 1) continue; vector<U> v(sf, sf + 10); if (pat == 4 && svid) { again |= page.count(svid); page[svid] = v; week[svid] = wk; } if (pat == 5) { again |= p51.size() > 0; p51 = v; w51 = wk; } if (pat == 8) { again |= p56.size() > 0; p56 = v; } if (pat == 9) { again |= p63.size() > 0; p63 = v; }
   }
   g.nontrivial(again); auto thrown = [](const std::function<void()>& f) { try { f(); } catch (InvalidRequest&) { return true; } return false; };
   for (int prn = 1; prn <= 33; prn++)
   {
      SatID x(prn, SatelliteSystem::GPS); bool has = page.count(prn); REQ_EQ(alm.isData(x), has, "isData"); if (!has) { REQUIRE(thrown([&] { alm.getEcc(x); }) && thrown([&] { alm.getToa(x); }) && thrown([&] { alm.getAlmOrbElem(x); }) && thrown([&] { alm.svXvt(x, CommonTime()); }) && thrown([&] { alm.getSVHealth(x); }) && thrown([&] { alm.getM0(x); }), "an absent satellite"); }
      else
      {
         const vector<U>& sf = page[prn]; map<int, long double> v; for (auto& f : pattern(4)) v[f.out] = value(sf.data(), f); near(alm.getEcc(x), v[7], "ecc"); near(alm.getIOffset(x), v[9], "i offset"); near(alm.getOmegadot(x), v[10], "Omegadot"); REQ_EQ((long)alm.getSVHealth(x), (long)v[11], "health"); near(alm.getAhalf(x), v[12], "Ahalf"); near(alm.getA(x), v[12] * v[12], "A"); near(alm.getOmega0(x), v[13], "Omega0"); near(alm.getW(x), v[14], "w"); near(alm.getM0(x), v[15], "M0"); near(alm.getAf0(x), v[16], "af0"); near(alm.getAf1(x), v[17], "af1"); REQ_EQ((long double)alm.getToa(x), v[8], "Toa"); REQ_EQ((long double)alm.getXmitTime(x), v[2], "transmit time");
         int xw = week[prn]; if (v[8] - v[2] < -302400) xw--; else if (v[8] - v[2] > 302400) xw++; REQ_EQ((int)alm.getFullWeek(x), xw, "week of transmission"); AlmOrbit o = alm.getAlmOrbElem(x); REQ_EQ((int)o.getPRNID(), prn, "PRN"); if (v[7] < 0.02L && v[12] > 1000) { CommonTime t = o.getToaTime() + g.real(-1e5, 1e5); Xvt a = o.svXvt(t), b = alm.svXvt(x, t); for (int i = 0; i < 3; i++) REQUIRE(a.x[i] == b.x[i] && a.v[i] == b.v[i], "svXvt"); } if (v[8] < 604800) { GPSWeekSecond ws(o.getToaTime()); REQUIRE(ws.week == week[prn] && ws.sow == (double)v[8], "Toa time"); }
      }
      if (prn == 33) break; bool h = prn <= 24 ? p51.size() > 0 : p63.size() > 0; if (h) REQ_EQ((long)alm.get6bitHealth(x), raw((prn <= 24 ? p51 : p63).data(), prn <= 24 ? pattern(5)[8 + prn - 1] : pattern(9)[39 + prn - 25]), "health bits of PRN " << prn); else REQUIRE(thrown([&] { alm.get6bitHealth(x); }), "absent health"); if (p63.size()) REQ_EQ((long)alm.getSVConfig(x), raw(p63.data(), pattern(9)[7 + prn - 1]), "configuration of PRN " << prn); else REQUIRE(thrown([&] { alm.getSVConfig(x); }), "absent configuration");
   }
   REQ_EQ(alm.getAlmOrbElems().size(), page.size(), "number of orbits"); if (p51.size()) { F toa{0, 69, 8, 0, 0, 12, 0, 1, false}, wn{0, 77, 8, 0, 0, 0, 0, 1, false}; REQ_EQ(alm.getToa(), (double)value(p51.data(), toa), "Toa of page 51"); int w = alm.getAlmWeek(); REQUIRE(std::abs(w - w51) <= 128 && (w - raw(p51.data(), wn)) % 256 == 0, "week of the almanac " << w); } else REQUIRE(alm.getToa() == 0 && alm.getAlmWeek() == 0, "no page 51");
   double a[4], b[4], a0, a1, dls, dlsf; long tot; int wnt, wnlsf, dn; if (p56.empty()) { REQUIRE(thrown([&] { alm.getIon(a, b); }) && thrown([&] { alm.getUTC(a0, a1, dls, tot, wnt, wnlsf, dn, dlsf); }), "no page 56"); return; } map<int, long double> v; for (auto& f : pattern(8)) v[f.out] = value(p56.data(), f); alm.getIon(a, b); for (int k = 0; k < 4; k++) { near(a[k], v[7 + k], "alpha"); near(b[k], v[11 + k], "beta"); } alm.getUTC(a0, a1, dls, tot, wnt, wnlsf, dn, dlsf); near(a0, v[15], "A0"); near(a1, v[16], "A1"); REQUIRE(dls == v[19] && dlsf == v[22] && tot == v[17] && dn == v[21], "leap seconds"); F wt{0, 227, 8, 0, 0, 0, 0, 1, false}, wl{0, 249, 8, 0, 0, 0, 0, 1, false}; REQUIRE((wnt - raw(p56.data(), wt)) % 256 == 0 && (wnlsf - raw(p56.data(), wl)) % 256 == 0, "weeks of UTC");
}
PBT_MAIN
