// E05: PackedNavBits against an independent string of '0' and '1'.
#include "gp.hpp"
#include "PackedNavBits.hpp"
#include "GPSWeekSecond.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk; using pbt::G; using pbt::q; using std::string; using std::vector;
typedef __int128 i128;

static string bin(uint64_t v, int n) { string s; for (int k = n - 1; k >= 0; k--) s += (v >> k) & 1 ? '1' : '0'; return s; }
static uint64_t uval(const string& b) { uint64_t v = 0; for (char c : b) v = v * 2 + (c == '1'); return v; }
static int64_t sval(const string& b) { i128 v = 0; for (char c : b) v = v * 2 + (c == '1'); if (!b.empty() && b[0] == '1') v -= (i128)1 << b.size(); return (int64_t)v; }
static string bitsOf(const PackedNavBits& p) { string s; const vector<bool>& b = p.getBits(); for (size_t i = 0; i < p.getNumBits(); i++) s += b[i] ? '1' : '0'; return s; }
static string rbits(G& g, int n) { string s; int m = g.below(5); for (int i = 0; i < n; i++) s += m == 0 ? '0' : m == 1 ? '1' : m == 2 ? (i ? '0' : '1') : g.flag() ? '1' : '0'; return s; }
static int width(G& g, int lo, int hi) { return g.oneIn(3) ? g.range(lo, hi) : g.oneIn(3) ? std::min(hi, std::max(lo, g.pick(vector<int>{1, 8, 16, 24, 30, 31, 32, 33, 48, 52, 53, 54, 62, 63, 64}))) : g.range(lo, std::min(hi, 32)); }
static CommonTime tm0(G& g) { return GPSWeekSecond(g.range(0, 3000), g.range(0, 604799), TimeSystem::GPS).convertToCommonTime(); }
static const string CH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789: \"'+-./\xF8";
// double nearest to an integer times 2^p, checked only when exact
static double pw(double v, int p) { return std::ldexp(v, p); }

struct Field { int kind, at, n, p; string bits; };
   // history of fields added; the model is the string of bits
PROP(pack, 60000, 1500000, "at least three fields, one of them signed and negative or wider than 32 bits")
{
   PackedNavBits p; if (g.flag()) p = PackedNavBits(SatID(g.range(1, 32), SatelliteSystem::GPS), ObsID(), tm0(g)); string m; vector<Field> fs; int nf = g.oneIn(30) ? g.range(30, 60) : g.range(1, 14); bool neg = false, wide = false;
   for (int i = 0; i < nf; i++)
   {
      Field f; f.kind = g.below(8); f.at = m.size(); f.p = g.range(-45, 8); f.n = 0;
      int n = width(g, 1, 64); string b; g << "[" << f.kind << ":" << n << "]";
      switch (f.kind)
      {
         case 0: { b = rbits(g, n); int sc = g.flag() ? 1 : g.range(1, 20); uint64_t v = uval(b); if (v > UINT64_MAX / sc - 1) sc = 1; uint64_t add = sc > 1 ? g.below(sc) : 0; p.addUnsignedLong(v * sc + add, n, sc); f.p = sc; break; }
         case 1: { b = rbits(g, n); int sc = g.flag() ? 1 : g.range(1, 20); int64_t v = sval(b); if (std::abs((double)v) > 9e18 / sc) sc = 1; p.addLong(v * sc, n, sc); f.p = sc; neg |= v < 0; break; }
         case 2: { n = std::min(n, 52); b = rbits(g, n); double v = uval(b); double off = n < 44 ? g.real(-0.49, 0.49) : 0; if (v == 0 && off < 0) off = 0; p.addUnsignedDouble(pw(v + off, f.p), n, f.p); break; }
         case 3: { n = std::min(n, 52); b = rbits(g, n); double v = sval(b); double off = n < 44 ? g.real(-0.49, 0.49) : 0; p.addSignedDouble(pw(v + off, f.p), n, f.p); neg |= v < 0; break; }
         case 4: { n = std::min(n, 48); b = rbits(g, n); double v = sval(b); double off = g.real(-0.4, 0.4); f.p = -g.range(n - 1, n + 10); p.addDoubleSemiCircles(pw(v + off, f.p) * PI, n, f.p); neg |= v < 0; break; }
         case 5: { int len = g.range(0, 12), nc = g.range(1, 14); string s; for (int k = 0; k < len; k++) s += CH[g.below(CH.size())]; string w = s.substr(0, nc); w.resize(nc, ' '); for (unsigned char c : w) b += bin(c, 8); n = nc * 8; p.addString(s, nc); break; }
         case 6: { b = rbits(g, g.range(1, 80)); n = b.size(); PackedNavBits o; for (char c : b) o.addUnsignedLong(c == '1', 1, 1); if (g.flag()) { PackedNavBits o2(o); p.addPackedNavBits(o2); } else p.addPackedNavBits(o); break; }
         default: b = rbits(g, n); p.addUnsignedLong(uval(b), n, 1); f.p = 1; f.kind = 0; break;
      }
      f.n = n; f.bits = b; m += b; wide |= n > 32; fs.push_back(f);
      if (g.oneIn(15)) { p.trimsize(); REQ_EQ((size_t)p.getBits().size(), m.size(), "trimmed size"); g << "t"; }
      if (g.oneIn(15)) { PackedNavBits c(p); p = c; g << "c"; }
      REQ_EQ(p.getNumBits(), m.size(), "number of bits after field " << i);
   }
   g.nontrivial(nf >= 3 && (neg || wide)); REQ_EQ(bitsOf(p), m, "bits packed");
   for (const Field& f : fs)
   {
      uint64_t u = f.n <= 64 ? uval(f.bits) : 0; int64_t s = f.n <= 64 ? sval(f.bits) : 0;
      switch (f.kind)
      {
         case 0: REQ_EQ(p.asUnsignedLong(f.at, f.n, f.p), u * f.p, "unsigned at " << f.at); break;
         case 1: REQ_EQ(p.asLong(f.at, f.n, f.p), (long)(s * f.p), "long at " << f.at); break;
         case 2: REQ_EQ(p.asUnsignedDouble(f.at, f.n, f.p), pw(u, f.p), "unsigned double at " << f.at); break;
         case 3: REQ_EQ(p.asSignedDouble(f.at, f.n, f.p), pw(s, f.p), "signed double at " << f.at); break;
         case 4: REQ_NEAR(p.asDoubleSemiCircles(f.at, f.n, f.p), pw(s, f.p) * PI, 1e-14 * std::fabs(pw(s, f.p)), "semicircles at " << f.at); break;
         case 5: { string w; for (int k = 0; k < f.n; k += 8) w += (char)uval(f.bits.substr(k, 8)); REQ_EQ(p.asString(f.at, f.n / 8), w, "string at " << f.at); break; }
      }
   }
      // any window of the bits, read every way
   for (int k = 0; k < 6; k++)
   {
      int n = std::min<int>(width(g, 1, 64), m.size()), at = g.range(0, m.size() - n), e = g.range(-60, 10); string b = m.substr(at, n); uint64_t u = uval(b); int64_t s = sval(b); g << " @" << at << "+" << n;
      REQ_EQ(p.asUnsignedLong(at, n, 1), u, "unsigned window"); REQ_EQ(p.asLong(at, n, 1), (long)s, "signed window"); REQ_EQ(p.asUnsignedDouble(at, n, e), pw((double)u, e), "unsigned double window"); REQ_EQ(p.asSignedDouble(at, n, e), pw((double)s, e), "signed double window"); REQ_EQ(p.asBool(at), b[0] == '1', "asBool");
      if (n > 1 ) { uint64_t mg = uval(b.substr(1)); long sm = b[0] == '1' ? -(long)mg : (long)mg; REQ_EQ(p.asSignMagLong(at, n, 1), sm, "sign and magnitude"); REQ_EQ(p.asSignMagDouble(at, n, e), pw((double)sm, e), "sign and magnitude double"); REQ_NEAR(p.asSignMagDoubleSemiCircles(at, n, e), pw((double)sm, e) * PI, 1e-14 * std::fabs(pw((double)sm, e)), "sign and magnitude semicircles"); }
   }
      // split fields
   { int len = g.range(1, 4), left = 64; vector<unsigned> st, nb; string b; for (int i = 0; i < len; i++) { int n = std::min<int>(g.range(1, std::max(1, left - (len - i - 1)) > 24 ? 24 : std::max(1, left - (len - i - 1))), m.size()); int at = g.range(0, m.size() - n); st.push_back(at); nb.push_back(n); b += m.substr(at, n); left -= n; } if (b.size() <= 63) { int e = g.range(-40, 5); g << " split" << len << "/" << b.size(); REQ_EQ(p.asUnsignedLong(st.data(), nb.data(), len, 1), uval(b), "split unsigned"); REQ_EQ(p.asLong(st.data(), nb.data(), len, 1), (long)sval(b), "split long"); REQ_EQ(p.asUnsignedDouble(st.data(), nb.data(), len, e), pw((double)uval(b), e), "split unsigned double"); REQ_EQ(p.asSignedDouble(st.data(), nb.data(), len, e), pw((double)sval(b), e), "split signed double"); REQ_NEAR(p.asDoubleSemiCircles(st.data(), nb.data(), len, e), pw((double)sval(b), e) * PI, 1e-14 * std::fabs(pw((double)sval(b), e)), "split semicircles"); } }
      // past the end of trimmed bits
   { PackedNavBits t(p); int n = g.range(1, 64); int at = m.size() - n + 1 + g.range(0, 5); if (at < 0) at = m.size(); bool thrown = false; try { t.asUnsignedLong(at, n, 1); } catch (InvalidParameter&) { thrown = true; } REQUIRE(thrown, "reading bits " << at << "+" << n << " of " << m.size() << " is refused"); }
}
   // limits of fields
PROP(limits, 150000, 2000000, "the value is within one unit of the limit of the field")
{
   int n = width(g, 1, 64), kind = g.below(6), e = g.range(-40, 10); PackedNavBits p; i128 hi = (kind == 0 || kind == 2) ? ((i128)1 << n) - 1 : ((i128)1 << (n - 1)) - 1, lo = (kind == 0 || kind == 2) ? 0 : -((i128)1 << (n - 1)); bool near = g.flag(); i128 v = g.flag() ? hi + g.range(-2, 2) : lo + g.range(-2, 2); bool huge = false;
   if (!near) { double d = std::ldexp(g.real(-1, 1), g.range(1, 63)); v = (i128)d; if (g.oneIn(6)) { huge = true; } }
   if ((kind == 0 ) && (v < 0 || v > (i128)UINT64_MAX)) return; if (kind == 1 && (v < INT64_MIN || v > INT64_MAX)) return; if (kind == 5) { if (v < 0 || v > (i128)UINT64_MAX) return; hi = ((i128)1 << n) - 1; lo = 0; }
   double dv = (double)v; if (kind >= 2 && kind <= 4) { if ((i128)dv != v || n > 52) { if (!huge) return; } if (huge) { dv = std::ldexp(g.flag() ? 1.5 : -1.5, g.range(65, 300)); } }
   if (huge && (kind < 2 || kind > 4)) return; bool fits = !huge && v >= lo && v <= hi; g << "kind " << kind << " width " << n << " value " << dv << " fits " << fits; g.nontrivial(near); bool ok = true; string before;
   if (kind == 5) { p.addUnsignedLong(0, n, 1); p.addUnsignedLong(1, 1, 1); before = bitsOf(p); }
   try { switch (kind) { case 0: p.addUnsignedLong((uint64_t)v, n, 1); break; case 1: p.addLong((int64_t)v, n, 1); break; case 2: p.addUnsignedDouble(std::ldexp(dv, e), n, e); break; case 3: p.addSignedDouble(std::ldexp(dv, e), n, e); break; case 4: { double x = std::ldexp(dv, e) * PI; if (!huge && n > 40) return; p.addDoubleSemiCircles(x, n, e); break; } default: p.insertUnsignedLong((uint64_t)v, 0, n, 1); } } catch (InvalidParameter&) { ok = false; }
   REQ_EQ(ok, fits, "accepted"); if (!ok) { REQ_EQ(bitsOf(p), before, "bits after refusal"); return; }
   string want = bin((uint64_t)v, n); if (kind == 5) want += "1"; REQ_EQ(bitsOf(p), want, "bits");
}
PROP(characters, 20000, 200000, "always")
{
   int c = g.below(256); string s; int n = g.range(0, 5), at; for (int i = 0; i < n; i++) s += CH[g.below(CH.size())]; at = g.range(0, n); s.insert(at, 1, (char)c); int nc = g.range(1, 7); g << q(s) << " to " << nc; g.nontrivial(); bool valid = CH.find((char)c) != string::npos || at >= nc, ok = true; PackedNavBits p; try { p.addString(s, nc); } catch (InvalidParameter&) { ok = false; } REQ_EQ(ok, valid, "string accepted");
}
   // operations on whole objects
PROP(objects, 60000, 1000000, "at least two operations on at least 33 bits")
{
   int n = width(g, 1, 300); if (g.oneIn(4)) n = g.range(64, 1200); auto make = [&](const string& b) { PackedNavBits p; for (size_t i = 0; i < b.size(); i += 32) p.addUnsignedLong(uval(b.substr(i, 32)), b.substr(i, 32).size(), 1); p.trimsize(); return p; };
   string a = rbits(g, n), b = g.flag() ? a : rbits(g, n); if (g.flag() && n > 0) { int k = g.below(n); b[k] = b[k] == '1' ? '0' : '1'; } PackedNavBits A = make(a), B = make(b); g << n << " bits; "; int ops = g.range(1, 6); g.nontrivial(ops > 1 && n > 32);
   for (int i = 0; i < ops; i++)
   {
      int op = g.below(7); g << op << " ";
      switch (op)
      {
         case 0: A.invert(); for (char& c : a) c = c == '1' ? '0' : '1'; break;
         case 1: { int s = g.flag() ? 0 : g.below(n), e = g.flag() ? -1 : g.range(s, n - 1); A.copyBits(B, s, e); if (e == -1) e = n - 1; for (int k = s; k <= e; k++) a[k] = b[k]; break; }
         case 2: { int w = std::min(n, width(g, 1, 64)), at = g.range(0, n - w), sc = g.oneIn(3) ? g.range(2, 9) : 1; string v = rbits(g, w); if (w > 58) sc = 1; A.insertUnsignedLong(uval(v) * sc, at, w, sc); a.replace(at, w, v); break; }
         case 3: { PackedNavBits* c = A.clone(); REQ_EQ(bitsOf(*c), a, "clone"); A = *c; delete c; break; }
         case 4: { bool thrown = false; int w = g.range(1, 64), at = n - w + 1 + g.range(0, 3); try { A.insertUnsignedLong(0, at, w, 1); } catch (InvalidParameter&) { thrown = true; } REQUIRE(thrown, "inserting bits " << at << "+" << w << " of " << n << " is refused"); break; }
         case 5: { PackedNavBits C = make(a + "1"); bool thrown = false; try { A.copyBits(C); } catch (InvalidParameter&) { thrown = true; } REQUIRE(thrown, "copying bits of another length is refused"); break; }
         default: std::swap(A, B); std::swap(a, b);
      }
      REQ_EQ(bitsOf(A), a, "bits after operation " << op); REQ_EQ(bitsOf(B), b, "bits of the other after operation " << op);
   }
   REQ_EQ(A < B, a < b, "order"); REQ_EQ(B < A, b < a, "order the other way"); REQ_EQ(A.matchBits(B), a == b, "matchBits"); REQ_EQ(A == B, a == b, "equality"); string sh = a.substr(0, g.range(0, n)); PackedNavBits S = make(sh); REQ_EQ(A.matchBits(S), sh.size() == a.size(), "matchBits of another length"); REQ_EQ(S < A, sh.size() < a.size(), "a shorter one is less");
   for (int k = 0; k < 3; k++) { int s = g.below(n), e = g.oneIn(5) ? -1 : g.range(s, n - 1); g << s << ".." << e << " "; int last = e == -1 ? n - 1 : e; REQ_EQ(A.matchBits(B, s, e), a.substr(s, last - s + 1) == b.substr(s, last - s + 1), "matchBits of " << s << ".." << e); REQ_EQ(A.match(B, s, e, PackedNavBits::mmNONE), a.substr(s, last - s + 1) == b.substr(s, last - s + 1), "match of " << s << ".." << e); }
      // text output, and input of it
   std::ostringstream os; int per = g.range(1, 12); int r = A.outputPackedBits(os, per); REQ_EQ(r, n, "outputPackedBits result"); string text = os.str(), hex; std::istringstream is(text); string line; size_t words = 0, wtot = (n + 31) / 32; while (std::getline(is, line)) { std::istringstream ls(line); string w; size_t c = 0; while (ls >> w) { REQUIRE(w.size() == 10 && w.substr(0, 2) == "0x", "word " << q(w)); hex += bin(strtoul(w.c_str(), 0, 16), 32); c++; } words += c; REQUIRE(c == (size_t)per || words == wtot, "words on a line " << c); }
   string pad = a; pad.resize(wtot * 32, '0'); REQ_EQ(hex, pad, "hexadecimal words"); std::ostringstream in; in << n << "  "; for (size_t i = 0; i < pad.size(); i += 32) in << (g.flag() ? " " : ", ") << pbt::strf(g.flag() ? "0x%08lX" : "0x%08lx", uval(pad.substr(i, 32))); PackedNavBits R; R.rawBitInput(in.str()); REQ_EQ(bitsOf(R), a, "rawBitInput"); REQUIRE(R.matchBits(A), "rawBitInput matches");
   std::ostringstream ds; ds << A; size_t at = ds.str().find("32 Bits Long:"); REQUIRE(at != string::npos, "dump"); std::istringstream dis(ds.str().substr(at + 13)); string w, dh; while (dis >> w) dh += bin(strtoul(w.c_str(), 0, 16), 32); REQ_EQ(dh, pad, "dump words");
}
PROP(metadata, 40000, 400000, "exactly one item differs")
{
   vector<SatID> sats{SatID(1, SatelliteSystem::GPS), SatID(2, SatelliteSystem::GPS), SatID(1, SatelliteSystem::Galileo), SatID(1, SatelliteSystem::QZSS)}; vector<ObsID> obs{ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA), ObsID(ObservationType::NavMsg, CarrierBand::L2, TrackingCode::L2CML), ObsID(ObservationType::NavMsg, CarrierBand::L5, TrackingCode::L5I)}; vector<NavType> nav{NavType::GPSLNAV, NavType::GPSCNAVL2, NavType::GPSCNAVL5, NavType::GloCivilF, NavType::BeiDou_D1}; vector<string> rx{"", "rx1", "rx2"};
   CommonTime t = tm0(g); struct M { SatID s; ObsID o; NavID n; string r; double dt; } m[2]; for (int i = 0; i < 2; i++) { m[i].s = g.pick(sats); m[i].o = g.pick(obs); m[i].n = NavID(g.pick(nav)); m[i].r = g.pick(rx); m[i].dt = g.flag() ? 0 : g.pick(vector<double>{0.0002, 0.002, 6, -6, 1e6}); } int same = g.below(32); if (same & 1) m[1].s = m[0].s; if (same & 2) m[1].o = m[0].o; if (same & 4) m[1].n = m[0].n; if (same & 8) m[1].r = m[0].r; if (same & 16) m[1].dt = m[0].dt;
   PackedNavBits p[2]; for (int i = 0; i < 2; i++) { if (g.flag()) p[i] = PackedNavBits(m[i].s, m[i].o, m[i].n, m[i].r, t + m[i].dt); else { p[i].setSatID(m[i].s); p[i].setObsID(m[i].o); p[i].setNavID(m[i].n); p[i].setRxID(m[i].r); p[i].setTime(t + m[i].dt); } if (g.flag()) { PackedNavBits c(p[i]); p[i] = c; } p[i].addUnsignedLong(5, 3, 1); p[i].trimsize(); REQUIRE(p[i].getsatSys() == m[i].s && p[i].getobsID() == m[i].o && p[i].getNavID().navType == m[i].n.navType && p[i].getRxID() == m[i].r && p[i].getTransmitTime() == t + m[i].dt, "metadata held"); }
   unsigned diff = 0; if (!(m[0].s == m[1].s)) diff |= 2; if (!(m[0].o == m[1].o)) diff |= 4; if (m[0].r != m[1].r) diff |= 8; if (m[0].n.navType != m[1].n.navType) diff |= 16; if (std::fabs(m[0].dt - m[1].dt) > 0.001) diff |= 1; g << "differences " << diff; g.nontrivial(__builtin_popcount(diff) == 1);
   for (unsigned f = 0; f < 32; f++) { REQ_EQ(p[0].matchMetaData(p[1], f), !(diff & f), "matchMetaData flags " << f); REQ_EQ(p[1].match(p[0], 0, -1, f), !(diff & f), "match flags " << f); } REQ_EQ(p[0] == p[1], diff == 0, "equality"); REQ_EQ(p[0].matchMetaData(p[1]), diff == 0, "all metadata");
   for (int i = 0; i < 2; i++) REQ_EQ(p[i].isXmitCoerced(), false, "coerced at first"); p[0].setXmitCoerced(); PackedNavBits c(p[0]); REQUIRE(c.isXmitCoerced(), "coerced kept by copying");
}
PBT_MAIN
