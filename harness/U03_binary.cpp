// U03: byte order, encode/decode, CRC and checksum helpers.
#include "gp.hpp"
#include "BinUtils.hpp"
using namespace gpstk; using pbt::G; using pbt::q; using std::string; namespace BU = gpstk::BinUtils;

static string raw(G& g, size_t n) { string s; int m = g.below(4); for (size_t i = 0; i < n; i++) s += (char)(m == 0 ? g.below(256) : m == 1 ? (g.flag() ? 0xff : 0) : m == 2 ? 0x80 >> g.below(8) : (int)(i + 1)); return s; }
   // value of big-endian bytes, built arithmetically
static uint64_t big(const string& b) { uint64_t v = 0; for (unsigned char c : b) v = (v << 8) | c; return v; }
static string rev(string s) { std::reverse(s.begin(), s.end()); return s; }
template <class T> static T fromBits(uint64_t v) { T t; if (sizeof(T) == 1) { uint8_t x = v; memcpy(&t, &x, 1); } else if (sizeof(T) == 2) { uint16_t x = v; memcpy(&t, &x, 2); } else if (sizeof(T) == 4) { uint32_t x = v; memcpy(&t, &x, 4); } else { memcpy(&t, &v, 8); } return t; }
template <class T> static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }

template <class T> static void strings(G& g, const char* name)
{
   string b = raw(g, sizeof(T)); T v = fromBits<T>(big(b)); size_t pos = g.range(0, 6), after = g.range(0, 5); string s = raw(g, pos) + b + raw(g, after); g << name << " bytes "; for (unsigned char c : b) g << pbt::strf("%02x", c); g << " at " << pos;
   string sl = s; sl.replace(pos, sizeof(T), rev(b));
   REQUIRE(same(BU::decodeVar<T>(s, pos), v), name << " decodeVar"); REQUIRE(same(BU::decodeVarLE<T>(sl, pos), v), name << " decodeVarLE");
   string t = s.substr(pos), tl = sl.substr(pos); REQUIRE(same(BU::decodeVar<T>(t), v) && t == s.substr(pos + sizeof(T)), name << " decodeVar from the head"); REQUIRE(same(BU::decodeVarLE<T>(tl), v) && tl == s.substr(pos + sizeof(T)), name << " decodeVarLE from the head");
   REQUIRE(BU::encodeVar(v) == b, name << " encodeVar"); REQUIRE(BU::encodeVarLE(v) == rev(b), name << " encodeVarLE");
   string e = raw(g, s.size()), el = e, want = e, wantl = e; want.replace(pos, sizeof(T), b); wantl.replace(pos, sizeof(T), rev(b)); BU::encodeVar(v, e, pos); REQUIRE(e == want, name << " encodeVar in place"); BU::encodeVarLE(v, el, pos); REQUIRE(el == wantl, name << " encodeVarLE in place");
}
template <class T> static void buffers(G& g, const char* name, void (*i2h)(const void*, T&, unsigned), void (*n2h)(const void*, T&, unsigned), void (*h2i)(void*, T, unsigned), void (*h2n)(void*, T, unsigned))
{
   string b = raw(g, sizeof(T)); T v = fromBits<T>(big(b)), r; size_t pos = g.range(0, 6), after = g.range(0, 5); string s = raw(g, pos) + b + raw(g, after), sl = s; sl.replace(pos, sizeof(T), rev(b)); g << name << " bytes "; for (unsigned char c : b) g << pbt::strf("%02x", c); g << " at " << pos;
   if (v != v) { return; }   // a NaN may be quieted when passed by value
   std::vector<char> buf(s.begin(), s.end()), bl(sl.begin(), sl.end()); n2h(buf.data(), r, pos); REQUIRE(same(r, v), name << " network to host"); i2h(bl.data(), r, pos); REQUIRE(same(r, v), name << " intel to host");
   string o = raw(g, s.size()); std::vector<char> w(o.begin(), o.end()), wl(w); h2n(w.data(), v, pos); string want = o; want.replace(pos, sizeof(T), b); REQUIRE(string(w.begin(), w.end()) == want, name << " host to network"); h2i(wl.data(), v, pos); want = o; want.replace(pos, sizeof(T), rev(b)); REQUIRE(string(wl.begin(), wl.end()) == want, name << " host to intel");
}
PROP(strings_, 300000, 3000000, "always")
{
   g.nontrivial(); switch (g.below(10)) { case 0: strings<uint8_t>(g, "uint8"); break; case 1: strings<int8_t>(g, "int8"); break; case 2: strings<uint16_t>(g, "uint16"); break; case 3: strings<int16_t>(g, "int16"); break; case 4: strings<uint32_t>(g, "uint32"); break; case 5: strings<int32_t>(g, "int32"); break; case 6: strings<uint64_t>(g, "uint64"); break; case 7: strings<int64_t>(g, "int64"); break; case 8: strings<float>(g, "float"); break; default: strings<double>(g, "double"); }
}
PROP(buffers_, 300000, 3000000, "always")
{
   g.nontrivial(); switch (g.below(8))
   {
      case 0: buffers<uint16_t>(g, "uint16", BU::buitohs, BU::buntohs, BU::buhtois, BU::buhtons); break; case 1: buffers<uint32_t>(g, "uint32", BU::buitohl, BU::buntohl, BU::buhtoil, BU::buhtonl); break; case 2: buffers<uint64_t>(g, "uint64", BU::buitohll, BU::buntohll, BU::buhtoill, BU::buhtonll); break;
      case 3: buffers<int16_t>(g, "int16", BU::buitohss, BU::buntohss, BU::buhtoiss, BU::buhtonss); break; case 4: buffers<int32_t>(g, "int32", BU::buitohsl, BU::buntohsl, BU::buhtoisl, BU::buhtonsl); break; case 5: buffers<int64_t>(g, "int64", BU::buitohsll, BU::buntohsll, BU::buhtoisll, BU::buhtonsll); break;
      case 6: buffers<float>(g, "float", BU::buitohf, BU::buntohf, BU::buhtoif, BU::buhtonf); break; default: buffers<double>(g, "double", BU::buitohd, BU::buntohd, BU::buhtoid, BU::buhtond);
   }
}
   // polynomial long division over a vector of bits
static uint32_t crcRef(const string& data, int order, uint64_t poly, uint64_t init, uint64_t fin, bool direct, bool ri, bool ro)
{
   std::vector<int> m; for (unsigned char c : data) for (int k = 0; k < 8; k++) m.push_back(ri ? (c >> k) & 1 : (c >> (7 - k)) & 1);
   std::vector<int> bits; if (!direct) for (int k = order - 1; k >= 0; k--) bits.push_back((init >> k) & 1);
   bits.insert(bits.end(), m.begin(), m.end()); bits.insert(bits.end(), order, 0); if (direct) for (int k = 0; k < order; k++) bits[k] ^= (init >> (order - 1 - k)) & 1;
   size_t n = bits.size() - order; for (size_t i = 0; i < n; i++) if (bits[i]) { bits[i] = 0; for (int k = 0; k < order; k++) bits[i + 1 + k] ^= (poly >> (order - 1 - k)) & 1; }
   uint64_t r = 0; for (int k = 0; k < order; k++) { int b = bits[n + k]; r |= (uint64_t)b << (ro ? k : order - 1 - k); } uint64_t mask = order == 32 ? 0xffffffffull : (1ull << order) - 1; return (uint32_t)((r ^ fin) & mask);
}
PROP(crc, 150000, 1500000, "a non-zero initial value or reflection, on at least two bytes")
{
   int order; uint64_t poly, init, fin; bool dir, ri, ro; string d = raw(g, g.range(0, 12));
   switch (g.below(5)) { case 0: order = 16; break; case 1: order = 32; break; case 2: order = 24; break; default: order = g.range(1, 32); }
   uint64_t mask = order == 32 ? 0xffffffffull : (1ull << order) - 1; poly = (g.bits(32) & mask) | 1; init = g.oneIn(3) ? 0 : g.oneIn(2) ? mask : g.bits(32) & mask; fin = g.flag() ? 0 : g.flag() ? mask : g.bits(32) & mask; dir = g.flag(); ri = g.flag(); ro = g.flag();
   g << "order " << order << pbt::strf(" poly %lx init %lx final %lx", poly, init, fin) << " direct " << dir << " refin " << ri << " refout " << ro << " data " << q(d); g.nontrivial(d.size() > 1 && (init || ri || ro));
   if (poly % 2 == 0) return;   // (an even polynomial has no inverse shift for the direct initial value)
   uint32_t got = BU::computeCRC((const unsigned char*)d.data(), d.size(), BU::CRCParam(order, poly, init, fin, dir, ri, ro)); REQUIRE(got == crcRef(d, order, poly, init, fin, dir, ri, ro), pbt::strf("computeCRC gives %x, long division %x", got, crcRef(d, order, poly, init, fin, dir, ri, ro)));
   uint32_t v = g.bits(32); int n = g.range(1, 32); uint32_t w = 0; for (int k = 0; k < n; k++) if ((v >> k) & 1) w |= 1u << (n - 1 - k); REQ_EQ(BU::reflect(v, n), (unsigned long)w, "reflect"); int c = 0; for (int k = 0; k < 32; k++) c += (v >> k) & 1; REQ_EQ((int)BU::countBits(v), c, "countBits"); 
}
PROP(standard_crcs, 60000, 400000, "always")
{
   g.nontrivial(); string d = raw(g, g.range(0, 40)); g << q(d); const unsigned char* p = (const unsigned char*)d.data();
   REQ_EQ(BU::computeCRC(p, d.size(), BU::CRCCCITT), crcRef(d, 16, 0x1021, 0xffff, 0, true, false, false), "CCITT"); REQ_EQ(BU::computeCRC(p, d.size(), BU::CRC16), crcRef(d, 16, 0x8005, 0, 0, true, true, true), "CRC-16"); REQ_EQ(BU::computeCRC(p, d.size(), BU::CRC32), crcRef(d, 32, 0x04c11db7, 0xffffffff, 0xffffffff, true, true, true), "CRC-32");
      // CRC-24Q of the GPS CNAV: polynomial 0x864CFB, all zero otherwise
   uint32_t cq = BU::computeCRC(p, d.size(), BU::CRC24Q), right = crcRef(d, 24, 0x864cfb, 0, 0, true, false, false), recorded = crcRef(d, 24, 0x823ba9, 0, 0xffffff, true, false, false);
   if (d.size()) { string e = d; size_t k = g.below(8 * d.size()); e[k / 8] ^= 1 << (k % 8); REQUIRE(BU::computeCRC((const unsigned char*)e.data(), e.size(), BU::CRC24Q) != BU::computeCRC(p, d.size(), BU::CRC24Q), "a flipped bit changes the CRC-24"); }
   REQUIRE(cq == right || cq == recorded, "CRC-24Q " << cq); REQUIRE_SIG("crc24q-parameters", cq == right, "CRC-24Q " << cq << " expected " << right);
}
PROP(checksum, 60000, 400000, "at least two words")
{
   unsigned w = g.range(1, 8); string d = raw(g, g.range(0, 40)); g << "word size " << w << " data " << q(d); g.nontrivial(d.size() >= 2 * w); bool threw = false; string r; try { r = BU::xorChecksum(d, w); } catch (InvalidParameter&) { threw = true; }
   REQ_EQ(threw, d.size() % w != 0, "refused"); if (threw) return; string want(w, 0); for (size_t i = 0; i < d.size(); i++) want[i % w] ^= d[i]; REQUIRE(r == want, "xor of all words"); REQUIRE(BU::xorChecksum(d + r, w) == string(w, 0), "appending it gives zero");
}
KNOWN("crc24q-parameters")
{
   const char* d = "123456789"; uint32_t v = BU::computeCRC((const unsigned char*)d, 9, BU::CRC24Q); REQUIRE_SIG("crc24q-parameters", v == 0xcde703, "CRC-24Q of 123456789 is " << v << ", published cde703");
}
PBT_MAIN
