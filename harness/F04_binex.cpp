// F04: BINEX integers, messages and records are those of the format, and survive packing, writing and reading.
#include "gp.hpp"
#include "BinexData.hpp"
#include "BinexStream.hpp"
#include <sstream>
#include <fstream>
using namespace gpstk; using pbt::G; using pbt::strf; using std::string; using std::vector;
typedef BinexData::UBNXI UB; typedef BinexData::MGFZI MG;
static string hex(const string& s) { string o; for (size_t i = 0; i < s.size() && i < 48; ++i) o += strf("%02x", (unsigned char)s[i]); return o + (s.size() > 48 ? "..." : ""); }
static string rev(string s) { return string(s.rbegin(), s.rend()); }
   // the format: big endian is the little endian number with the bytes the other way round, except where noted
static string ubRef(unsigned long v, bool le)
{
   int n = v < 128 ? 1 : v < 16384 ? 2 : v < 2097152 ? 3 : 4; string s(n, 0);
   if (le) for (int i = 0; i < n; ++i) s[i] = i < 3 ? (char)((v >> (7 * i) & 0x7f) | (i < n - 1 ? 0x80 : 0)) : (char)(v >> 21 & 0xff);
   else { unsigned long x = v; for (int i = n - 1; i >= 0; --i) { int b = i == 3 ? 8 : 7; s[i] = (char)((x & ((1 << b) - 1)) | (i < n - 1 ? 0x80 : 0)); x >>= b; } }
   return s;
}
static unsigned long genUb(G& g)
{
   unsigned long v;
   switch (g.below(5)) { case 0: v = g.range(0, 300); break; case 1: v = g.pick({127UL, 128UL, 16383UL, 16384UL, 2097151UL, 2097152UL, 536870911UL, 0UL, 255UL, 32767UL}); break; case 2: { int b = g.range(0, 28); v = (1UL << b) + g.range(-1, 1); break; } default: v = g.bits(g.range(1, 29)); }
   return v > 536870911UL ? 536870911UL : v;
}
static const long long mgLow[9] = {0, 0, 14, 4109, 1052684, 269488139, 68988964874LL, 17661175009289LL, 4521260802379784LL};
static const long long mgTop = 1157442765409226759LL;
static int mgSize(long long v) { unsigned long long a = v < 0 ? -(unsigned long long)v : v; if (a < 16) return 1; for (int n = 2; n < 8; ++n) if (a < (unsigned long long)mgLow[n] + (1ULL << (8 * n - 4))) return n; return 8; }
static string mgRef(long long v, bool le)
{
   int n = mgSize(v); unsigned long long a = (v < 0 ? -(unsigned long long)v : v) - mgLow[n]; unsigned f = (v < 0 ? 8 : 0) | (n - 1);
   unsigned long long w = le ? (a << 4 | f) : a; string s(n, 0);
   if (le) for (int i = 0; i < n; ++i) s[i] = (char)(w >> (8 * i)); else { for (int i = 0; i < n; ++i) s[n - 1 - i] = (char)(w >> (8 * i)); s[0] = (char)((s[0] & 0x0f) | f << 4); }
   return s;
}
static long long genMg(G& g)
{
   long long v;
   switch (g.below(5)) { case 0: v = g.range(0, 40); break; case 1: { int n = g.range(2, 8); v = mgLow[n] + g.range(-3, 5); break; } case 2: v = g.flag() ? mgTop - g.range(0, 3) : (long long)(1ULL << g.range(0, 60)) + g.range(-1, 1); break; default: v = (long long)g.bits(g.range(1, 60)); }
   if (v > mgTop) v = mgTop; if (v < 0) v = 0; return g.flag() ? -v : v;
}

PROP(ubnxi, 150000, 2000000, "a value of more than one byte, or encoded into a longer buffer")
{
   unsigned long v = genUb(g); bool le = g.flag(); g << "UBNXI " << v << (le ? " little" : " big"); UB u(v); string ref = ubRef(v, le);
   REQ_EQ((unsigned long)u, v, "value"); REQ_EQ(u.getSize(), ref.size(), "size of " << v);
   string buf = g.str("\x01\x7f\x80\xff" "abc", 0, 12), orig = buf; size_t off = g.below(buf.size() + 1); g << " at " << off << " of " << hex(buf); g.nontrivial(v > 127 || !buf.empty());
   size_t n = u.encode(buf, off, le); string want = orig; want.replace(off, ref.size(), ref);
   REQUIRE(n == ref.size() && buf == want, "encoded " << n << " bytes, " << hex(buf) << " expected " << hex(want));
   UB d(g.range(0, 5)); n = d.decode(buf, off, le); REQUIRE(n == ref.size() && (unsigned long)d == v && d.getSize() == n, "decoded " << n << " bytes as " << (unsigned long)d);
      // streams
   std::ostringstream o; string copy(g.below(3), 'x'); size_t co = copy.size(); n = u.write(o, &copy, co, false, le); REQUIRE(n == ref.size() && o.str() == ref && copy.substr(co) == ref, "write gives " << hex(o.str()) << ", copy " << hex(copy));
   std::ostringstream o2; n = u.write(o2, 0, 0, true, le); REQUIRE(n == ref.size() && o2.str() == rev(ref), "reversed write gives " << hex(o2.str()) << " expected " << hex(rev(ref)));
   std::istringstream in(ref + "rest"); UB r; string c2; n = r.read(in, &c2, 0, false, le); REQUIRE(n == ref.size() && (unsigned long)r == v && c2 == ref && (size_t)in.tellg() == n, "read " << n << " bytes as " << (unsigned long)r);
   if (ref.size() > 1) { std::istringstream cut(ref.substr(0, g.below(ref.size()))); bool t = false; try { UB x; x.read(cut, 0, 0, false, le); } catch (Exception&) { t = true; } REQUIRE(t, "a number cut short was read"); }
   unsigned long w = genUb(g); UB y(w); REQUIRE((u < y) == (v < w) && (u <= y) == (v <= w) && (u == y) == (v == w) && (u != y) == (v != w) && (u > y) == (v > w) && (u >= y) == (v >= w), "comparison with " << w);
   unsigned long big = 536870912UL + g.bits(g.range(1, 33)); bool t = false; try { UB x(big); } catch (Exception&) { t = true; } REQUIRE(t, big << " was taken");
}

PROP(mgfzi, 150000, 2000000, "a value of more than one byte, or encoded into a longer buffer")
{
   long long v = genMg(g); bool le = g.flag(); g << "MGFZI " << v << (le ? " little" : " big"); MG u(v); string ref = mgRef(v, le);
   REQ_EQ((long long)u, v, "value"); REQ_EQ(u.getSize(), ref.size(), "size of " << v); g.label(strf("%d bytes", (int)ref.size()));
   string buf = g.str("\x01\x7f\x80\xff" "abc", 0, 12), orig = buf; size_t off = g.below(buf.size() + 1); g << " at " << off << " of " << hex(buf); g.nontrivial(ref.size() > 1 || !buf.empty());
   size_t n = u.encode(buf, off, le); string want = orig; want.replace(off, ref.size(), ref);
   REQUIRE(n == ref.size() && buf == want, "encoded " << n << " bytes, " << hex(buf) << " expected " << hex(want));
   MG d(g.range(0, 5)); n = d.decode(buf, off, le); REQUIRE(n == ref.size() && (long long)d == v && d.getSize() == n, "decoded " << n << " bytes as " << (long long)d);
   std::ostringstream o; string copy(g.below(3), 'x'); size_t co = copy.size(); n = u.write(o, &copy, co, false, le); REQUIRE(n == ref.size() && o.str() == ref && copy.substr(co) == ref, "write gives " << hex(o.str()) << ", copy " << hex(copy));
   std::ostringstream o2; n = u.write(o2, 0, 0, true, le); REQUIRE(n == ref.size() && o2.str() == rev(ref), "reversed write gives " << hex(o2.str()) << " expected " << hex(rev(ref)));
   std::istringstream in(ref + "rest"); MG r; string c2; n = r.read(in, &c2, 0, false, le); REQUIRE(n == ref.size() && (long long)r == v && c2 == ref && (size_t)in.tellg() == n, "read " << n << " bytes as " << (long long)r);
   if (ref.size() > 1) { string s = ref.substr(0, 1 + g.below(ref.size() - 1)); bool t = false, t2 = false; try { if (le || 1) { std::istringstream cut(s); MG x; x.read(cut, 0, 0, false, le); } } catch (Exception&) { t = true; } try { MG x; x.decode(s, 0, le); } catch (Exception&) { t2 = true; } REQUIRE(t && t2, "a number cut short was read " << t << t2); }
   long long w = genMg(g); MG y(w); REQUIRE((u < y) == (v < w) && (u <= y) == (v <= w) && (u == y) == (v == w) && (u != y) == (v != w) && (u > y) == (v > w) && (u >= y) == (v >= w), "comparison with " << w);
   long long big = mgTop + 1 + (long long)g.bits(g.range(1, 60)); if (g.flag()) big = -big; bool t = false; try { MG x(big); } catch (Exception&) { t = true; } REQUIRE(t, big << " was taken");
}

struct Field { int kind; unsigned long u; long long m; string s; size_t off; };
struct Rec { uint32_t id; uint8_t fl; string msg; vector<Field> f; BinexData d; };
static string genMsg(G& g, int kind)
{
   size_t n; switch (kind) { case 0: n = g.range(0, 20); break; case 1: n = g.range(110, 135); break; case 2: n = g.range(16370, 16390); break; case 3: n = g.range(4080, 4110); break; default: n = g.range(20, 700); }
   string s(n, 0); uint64_t x = g.bits(60) | 1; for (auto& c : s) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; c = (char)(x >> 56); }
   if (g.oneIn(4)) for (auto& c : s) c = g.flag() ? (char)0xff : 0;
   return s;
}
static Rec genRec(G& g, bool reverse)
{
   Rec r; r.id = g.flag(0.7) ? g.below(256) : genUb(g); r.fl = (g.flag() ? 0x20 : 0) | (g.flag() ? 0x08 : 0) | (reverse ? 0x10 : 0); bool le = !(r.fl & 0x20);
   r.d = BinexData(r.id, r.fl | (g.flag(0.2) ? 0xc7 : 0)); REQ_EQ(r.d.getRecordFlags(), r.fl, "flags"); REQ_EQ(r.d.getRecordID(), r.id, "record id");
   size_t off = 0; int n = g.range(0, 9); if (g.flag(0.3)) n = 0;
   for (int i = 0; i < n; ++i)
   {
      Field f; f.off = off; f.kind = g.below(8); string raw;
      switch (f.kind)
      {
         case 0: f.u = genUb(g); raw = ubRef(f.u, le); r.d.updateMessageData(off, UB(f.u)); break;
         case 1: f.m = genMg(g); raw = mgRef(f.m, le); r.d.updateMessageData(off, MG(f.m)); break;
         case 2: { f.s = genMsg(g, 0); size_t k = g.flag(0.7) ? f.s.size() : g.below(f.s.size() + 1); string t = f.s; f.s.resize(k); raw = f.s; r.d.updateMessageData(off, t, k); break; }
         case 3: f.s = genMsg(g, 0); raw = f.s; r.d.updateMessageData(off, f.s.data(), f.s.size()); break;
         case 4: { f.u = g.bits(8); uint8_t x = f.u; raw = string(1, (char)x); r.d.updateMessageData(off, x, 1); break; }
         case 5: { f.u = g.bits(16); uint16_t x = f.u; raw = string((char*)&x, 2); if (!le) raw = rev(raw); r.d.updateMessageData(off, x, 2); break; }
         case 6: { f.m = (long long)g.bits(32) - 2147483648LL; int32_t x = f.m; raw = string((char*)&x, 4); if (!le) raw = rev(raw); r.d.updateMessageData(off, x, 4); break; }
         default: { double x = g.real(-1e9, 1e9); f.s = string((char*)&x, 8); raw = f.s; if (!le) raw = rev(raw); r.d.updateMessageData(off, x, 8); }
      }
      r.msg += raw; r.f.push_back(f);
      REQUIRE(off == r.msg.size(), "offset " << off << " after field " << i << " of kind " << f.kind << ", expected " << r.msg.size());
   }
   if (n == 0 || g.flag(0.2)) { string t = genMsg(g, g.weighted({4, 3, 1, 1, 3})); r.d.updateMessageData(off, t, t.size()); r.msg += t; }
   REQUIRE(r.d.getMessageData() == r.msg && r.d.getMessageLength() == r.msg.size(), "message is " << hex(r.d.getMessageData()) << " expected " << hex(r.msg));
   return r;
}
static void readBack(BinexData& d, const Rec& r)
{
   size_t off = 0; int i = 0;
   for (auto& f : r.f)
   {
      off = f.off;
      switch (f.kind)
      {
         case 0: { UB x; d.extractMessageData(off, x); REQUIRE((unsigned long)x == f.u, "field " << i << ": UBNXI " << (unsigned long)x << " expected " << f.u); break; }
         case 1: { MG x; d.extractMessageData(off, x); REQUIRE((long long)x == f.m, "field " << i << ": MGFZI " << (long long)x << " expected " << f.m); break; }
         case 2: case 3: { string x; d.extractMessageData(off, x, f.s.size()); REQUIRE(x == f.s, "field " << i << ": bytes " << hex(x) << " expected " << hex(f.s)); break; }
         case 4: { uint8_t x = 0; d.extractMessageData(off, x, 1); REQUIRE(x == f.u, "field " << i << ": byte " << (int)x << " expected " << f.u); break; }
         case 5: { uint16_t x = 0; d.extractMessageData(off, x, 2); REQUIRE(x == f.u, "field " << i << ": " << x << " expected " << f.u); break; }
         case 6: { int32_t x = 0; d.extractMessageData(off, x, 4); REQUIRE(x == f.m, "field " << i << ": " << x << " expected " << f.m); break; }
         default: { double x = 0; d.extractMessageData(off, x, 8); REQUIRE(string((char*)&x, 8) == f.s, "field " << i << ": double " << pbt::d2s(x)); }
      }
      ++i; size_t next = i < (int)r.f.size() ? r.f[i].off : off; REQUIRE(off == next, "offset " << off << " after field " << i << " expected " << next);
   }
}
   // sizes and framing of a record
static string head(const Rec& r) { bool le = !(r.fl & 0x20); return string(1, (char)(r.fl | (r.fl & 8 ? 0xc0 : 0xc2))) + ubRef(r.id, le) + ubRef(r.msg.size(), le); }
static int crcLen(const Rec& r) { size_t n = head(r).size() - 1 + r.msg.size(); return r.fl & 8 ? (n < 128 ? 2 : 4) : n < 128 ? 1 : n < 4096 ? 2 : 4; }
static void frame(const Rec& r, const string& text)
{
   string h = head(r); int c = crcLen(r); size_t body = h.size() + r.msg.size() + c, n = body; bool le = !(r.fl & 0x20);
   string tail; if (r.fl & 0x10) { tail = rev(ubRef(body, le)) + string(1, r.fl == 0x10 ? (char)0xb4 : r.fl == 0x30 ? (char)0xb0 : r.fl == 0x18 ? (char)0xe4 : (char)0xe0); n += tail.size(); }
   REQUIRE(text.size() == n, "record of " << text.size() << " bytes, expected " << n);
   REQUIRE(text.compare(0, h.size(), h) == 0 && text.compare(h.size(), r.msg.size(), r.msg) == 0, "head " << hex(text.substr(0, h.size())) << " expected " << hex(h));
   REQUIRE(text.substr(body) == tail, "tail " << hex(text.substr(body)) << " expected " << hex(tail));
   if (c == 1) { char x = 0; for (size_t i = 1; i < h.size(); ++i) x ^= h[i]; for (char y : r.msg) x ^= y; REQUIRE(text[body - 1] == x, "checksum " << hex(text.substr(body - 1, 1))); }
   REQ_EQ(r.d.getRecordSize(), n, "getRecordSize"); REQ_EQ(r.d.getHeadLength(), h.size(), "getHeadLength"); REQ_EQ(r.d.getTailLength(), n - h.size() - r.msg.size(), "getTailLength");
}

PROP(records, 24000, 300000, "two or more records, one of them with a message of 128 bytes or more")
{
   int n = g.range(1, 6); vector<Rec> r; bool big = false, anyRev = false;
   string fn = pbt::scratch() + "/r.bnx", all; vector<size_t> at;
   for (int i = 0; i < n; ++i) { bool rv = g.flag(0.4); anyRev |= rv; r.push_back(genRec(g, rv)); g << " [" << r[i].id << " flags " << strf("%02x", r[i].fl) << " " << r[i].msg.size() << " bytes]"; big |= r[i].msg.size() > 127; }
   g.nontrivial(n > 1 && big); if (anyRev) g.label("with reversible records");
   bool viaOp = g.flag();
   {
      BinexStream o(fn.c_str(), std::ios::out | std::ios::binary | std::ios::trunc); o.exceptions(std::ios::failbit | std::ios::badbit);
      for (auto& x : r) { std::ostringstream s; x.d.putRecord(s); frame(x, s.str()); at.push_back(all.size()); all += s.str(); if (viaOp) o << x.d; else x.d.putRecord(o); }
      o.close();
   }
   REQUIRE(pbt::slurp(fn) == all, "the file has " << pbt::slurp(fn).size() << " bytes, " << all.size() << " were written");
   BinexStream in(fn.c_str(), std::ios::in | std::ios::binary); in.exceptions(std::ios::failbit);
   for (int i = 0; i < n; ++i)
   {
      BinexData d; if (g.flag()) d = BinexData(7, 0x28);
      string err; try { if (viaOp) in >> d; else { size_t k = d.getRecord(in); size_t w = (i + 1 < n ? at[i + 1] : all.size()) - at[i]; REQUIRE(k == w, "getRecord reports " << k << " bytes, expected " << w); } } catch (Exception& e) { err = e.getText(); }
      REQUIRE(err.empty(), "record " << i << ": " << err);
      REQUIRE(d == r[i].d && d.getRecordID() == r[i].id && d.getRecordFlags() == r[i].fl && d.getMessageData() == r[i].msg, "record " << i << " read has id " << d.getRecordID() << " flags " << (int)d.getRecordFlags() << " " << d.getMessageLength() << " bytes");
      readBack(d, r[i]);
   }
   BinexData d; bool more = true; try { more = (bool)(in >> d); } catch (Exception&) { more = false; } REQUIRE(!more, "one more record than was written");
}

PROP(backward, 12000, 150000, "two or more records, one of them with a message of 128 bytes or more")
{
      // reversible records read from the end of the file
   int n = g.range(1, 5); vector<Rec> r; string all; bool big = false;
   for (int i = 0; i < n; ++i) { r.push_back(genRec(g, true)); std::ostringstream s; r[i].d.putRecord(s); all += s.str(); g << " [" << r[i].id << " flags " << strf("%02x", r[i].fl) << " " << r[i].msg.size() << " bytes]"; big |= r[i].msg.size() > 127; }
   g.nontrivial(n > 1 && big);
   std::istringstream in(rev(all)); in.exceptions(std::ios::failbit);
   for (int i = n - 1; i >= 0; --i) { BinexData d; string err; try { d.getRecord(in); } catch (Exception& e) { err = e.getText(); } REQUIRE(err.empty(), "record " << i << " read backward: " << err); REQUIRE(d == r[i].d, "record " << i << " read backward has id " << d.getRecordID() << " flags " << (int)d.getRecordFlags() << " " << d.getMessageLength() << " bytes"); readBack(d, r[i]); }
}

PROP(damage, 40000, 500000, "a byte of the message or checksum was changed")
{
   Rec r = genRec(g, g.flag(0.3)); std::ostringstream s; r.d.putRecord(s); string t = s.str(), h = head(r); g << "id " << r.id << " flags " << strf("%02x", r.fl) << " " << r.msg.size() << " bytes";
   int c = crcLen(r);
   if (g.flag(0.3))
   {
      size_t cut = g.below(h.size() + r.msg.size() + c); g << ", cut to " << cut; std::istringstream in(t.substr(0, cut)); if (g.flag()) in.exceptions(std::ios::failbit); bool bad = false; BinexData d; try { d.getRecord(in); } catch (Exception&) { bad = true; }
      REQUIRE(bad, "a record cut to " << cut << " of " << t.size() << " bytes was read"); return;
   }
   size_t p = h.size() + g.below(r.msg.size() + c); char x = (char)(1 + g.below(255)); t[p] ^= x; g << ", byte " << p << " changed by " << strf("%02x", (unsigned char)x); g.nontrivial();
   std::istringstream in(t); bool bad = false; BinexData d; try { d.getRecord(in); } catch (Exception&) { bad = true; }
   REQUIRE(bad, "a damaged record was read");
}

PROP(history, 40000, 400000, "an update inside the message")
{
      // the message behaves as a byte string that is written into at an offset
   uint8_t fl = g.flag() ? 0x20 : 0; bool le = !fl; BinexData d(g.below(100), fl); string m; int n = g.range(1, 12); g << (le ? "little" : "big");
   for (int i = 0; i < n; ++i)
   {
      size_t off = g.flag(0.4) ? m.size() : g.below(m.size() + 1), was = off; string raw; if (off < m.size()) g.nontrivial();
      int k = g.below(8); g << " " << k << "@" << off;
      if (k == 0) { unsigned long v = genUb(g); raw = ubRef(v, le); d.updateMessageData(off, UB(v)); }
      else if (k == 1) { long long v = genMg(g); raw = mgRef(v, le); d.updateMessageData(off, MG(v)); }
      else if (k == 2) { raw = genMsg(g, 0); d.updateMessageData(off, raw, raw.size()); }
      else if (k == 3) { raw = genMsg(g, 0); d.updateMessageData(off, raw.data(), raw.size()); }
      else if (k == 4) { uint32_t v = g.bits(32); raw = string((char*)&v, 4); if (!le) raw = rev(raw); d.updateMessageData(off, v, 4); }
      else if (k == 5) { if (g.flag(0.3)) { d.clearMessage(); m.clear(); } continue; }
      else if (k == 6) { size_t far = m.size() + 1 + g.below(5), f0 = far; string b; bool t = false, t2 = false; try { UB x; if (g.flag()) d.extractMessageData(far, x); else { MG y; d.extractMessageData(far, y); } } catch (Exception&) { t = true; } try { string x; size_t o = g.below(m.size() + 1); d.extractMessageData(o, x, m.size() - o + 1); } catch (Exception&) { t2 = true; } REQUIRE(t && t2, "data outside the message was extracted"); REQUIRE(far == f0, "the offset moved"); continue; }
      else { bool t = false; size_t o = off; try { d.updateMessageData(o, string("abc"), 4); } catch (Exception&) { t = true; } REQUIRE(t && o == off, "more data than given was taken"); t = false; try { uint16_t x = 0; d.updateMessageData(o, x, 3); } catch (Exception&) { t = true; } REQUIRE(t && o == off, "more data than given was taken"); continue; }
      m.replace(was, raw.size(), raw);
      REQUIRE(off == was + raw.size(), "offset " << off << " expected " << was + raw.size()); REQUIRE(d.getMessageData() == m, "message " << hex(d.getMessageData()) << " expected " << hex(m));
   }
   BinexData e(d), f; f = d; REQUIRE(e == d && f == d, "a copy is not equal"); if (!m.empty()) { size_t o = g.below(m.size()); string x(1, (char)(m[o] ^ 1)); f.updateMessageData(o, x, 1); REQUIRE(!(f == d), "records with different messages are equal"); }
   size_t b = m.size(); e = d; e.setRecordID(d.getRecordID() + 1); REQUIRE(!(e == d) && b == e.getMessageLength(), "records with different ids are equal");
   bool t = false; try { e.setRecordID(536870912u + g.bits(30)); } catch (Exception&) { t = true; } REQUIRE(t, "a record id that is too large was taken");
}
PBT_MAIN
