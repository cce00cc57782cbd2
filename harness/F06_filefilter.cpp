// F06: record streams, file filters, file stores against list models.
#include "pbt.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <set>
#include <map>
#include <list>
#include <cstring>
#include "FFTextStream.hpp"
#include "FFBinaryStream.hpp"
#include "FFData.hpp"
#include "FileFilterFrameWithHeader.hpp"
#include "FileStore.hpp"
#include "FileUtils.hpp"
#include "YDSTime.hpp"
#include "CivilTime.hpp"
#include "RinexObsFilterOperators.hpp"
#include "RinexMetFilterOperators.hpp"
#include "Rinex3NavFilterOperators.hpp"
using pbt::G;
typedef std::string S;
using namespace gpstk;

// ------------------------------------------------------------ a tiny format
// header: "H name", record: "K key n txt" followed by n lines "C txt"
struct TRec : public FFData
{
   int key; std::vector<S> more;
   TRec() : key(0) {}
   bool operator==(const TRec& o) const { return key == o.key && more == o.more; }
   bool isData() const { return true; }
protected:
   void reallyGetRecord(FFStream& s)
   {
      FFTextStream& f = dynamic_cast<FFTextStream&>(s);
      S line; f.formattedGetLine(line, true);
      while (line.size() && line[0] == 'H') f.formattedGetLine(line, true);
      if (line.size() < 2 || line[0] != 'K') { FFStreamError e("no record: " + line); GPSTK_THROW(e); }
      int k, n, p = 0;
      if (sscanf(line.c_str(), "K %d %d %n", &k, &n, &p) < 2)
      { StringUtils::StringException e("bad record"); GPSTK_THROW(e); }
      if (n == 99) throw std::runtime_error("ninety-nine");
      std::vector<S> m;
      for (int i = 0; i < n; i++)
      {
         f.formattedGetLine(line);
         if (line.size() < 2 || line[0] != 'C') { FFStreamError e("no continuation"); GPSTK_THROW(e); }
         m.push_back(line.substr(2));
      }
      key = k; more = m;
   }
   void reallyPutRecord(FFStream& s) const
   {
      if (key == -999) { FFStreamError e("cannot write"); GPSTK_THROW(e); }
      s << "K " << key << " " << more.size() << endlpp;
      for (auto& m : more) s << "C " << m << endlpp;
   }
};
struct LRec : public FFData       // any one line
{
   S line;
protected:
   void reallyGetRecord(FFStream& s) { dynamic_cast<FFTextStream&>(s).formattedGetLine(line, true); }
   void reallyPutRecord(FFStream& s) const { s << line << endlpp; }
};
struct THdr : public FFData
{
   S name;
   bool isHeader() const { return true; }
   bool operator==(const THdr& o) const { return name == o.name; }
   void dump(std::ostream& o) const { o << "hdr " << name << std::endl; }
protected:
   void reallyGetRecord(FFStream& s)
   {
      S line; dynamic_cast<FFTextStream&>(s).formattedGetLine(line, true);
      if (line.size() < 2 || line[0] != 'H') { FFStreamError e("no header"); GPSTK_THROW(e); }
      name = line.substr(2);
   }
   void reallyPutRecord(FFStream& s) const { s << "H " << name << endlpp; }
};
struct TStream : public FFTextStream
{
   TStream() {}
   TStream(const char* fn, std::ios::openmode m = std::ios::in) : FFTextStream(fn, m) {}
   TStream(const S& fn, std::ios::openmode m = std::ios::in) : FFTextStream(fn, m) {}
};
static TRec genRec(G& g)
{
   TRec r; r.key = (int)g.range(0, 6) ; int n = g.flag(0.6) ? 0 : (int)g.range(1, 3);
   for (int i = 0; i < n; i++) r.more.push_back(g.str("ab c", 0, 5) + "x");
   return r;
}
static S recText(const TRec& r)
{
   S s = "K " + std::to_string(r.key) + " " + std::to_string(r.more.size()) + "\n";
   for (auto& m : r.more) s += "C " + m + "\n";
   return s;
}

// --------------------------------------------------------- text record stream
// model: what the next TRec read does at line i of the file
struct Outc { int kind; size_t next; TRec rec; };     // kind 0 ok, 1 error, 2 end of file
static bool printable(const S& l) { for (char c : l) if (!isprint((unsigned char)c)) return false; return true; }
static Outc readModel(const std::vector<S>& L, size_t i, bool bare)
{
   // bare: the last line has no newline (an empty last line then does not exist)
   Outc o; o.kind = 1; o.next = i;
   auto strip = [](S l) { while (l.size() && l.back() == '\r') l.pop_back(); return l; };
   size_t n = L.size();
   while (i < n && strip(L[i]).size() && strip(L[i])[0] == 'H' && printable(strip(L[i]))) i++;
   if (i >= n) { o.kind = 2; o.next = n; return o; }
   S l = strip(L[i]);
   if (!printable(l)) return o;
   if (l.empty() && bare && i + 1 == n) { o.kind = 2; o.next = n; return o; }
   if (l.size() < 2 || l[0] != 'K') return o;
   int k, c;
   if (sscanf(l.c_str(), "K %d %d", &k, &c) < 2 || c == 99) return o;
   std::vector<S> m;
   for (int j = 0; j < c; j++)
   {
      i++;
      if (i >= n) return o;
      S x = strip(L[i]);
      if (!printable(x) || x.size() < 2 || x[0] != 'C') return o;
      m.push_back(x.substr(2));
   }
   o.kind = 0; o.next = i + 1; o.rec.key = k; o.rec.more = m;
   return o;
}
PROP(text_stream, 24000, 480000, "at least one malformed record and two good ones")
{
   std::vector<S> L; int bad = 0;
   int nl = (int)g.range(1, 12);
   for (int i = 0; i < nl; i++)
   {
      switch (g.weighted({8, 1, 1, 1, 1, 1, 1, 1, 1}))
      {
         case 0: { std::istringstream is(recText(genRec(g))); S l; while (std::getline(is, l)) L.push_back(l); break; }
         case 1: L.push_back("K " + g.str("xyz", 0, 3)); bad++; break;
         case 2: L.push_back("C stray"); bad++; break;
         case 3: L.push_back(S("K 1 0 \x01")); bad++; break;
         case 4: L.push_back("K 3 99"); bad++; break;
         case 5: L.push_back("H hdr" + std::to_string(i)); break;
         case 6: L.push_back("K 4 2"); L.push_back("C one"); break;      // continuation missing
         case 7: L.push_back(S("K 1 0\t")); bad++; break;
         case 8: L.push_back(""); bad++; break;
      }
   }
   if (L.empty()) L.push_back("K 0 0");
   bool crlf = g.flag(0.2), bare = g.flag(0.3), thr = g.flag(0.4);
   S f = pbt::scratch() + "/t.txt", all;
   for (size_t i = 0; i < L.size(); i++)
   {
      if (crlf) L[i] += g.flag(0.2) ? "\r\r" : "\r";
      all += L[i]; if (i + 1 < L.size() || !bare) all += "\n";
   }
   if (bare && !crlf && L.back().empty()) { L.pop_back(); bare = false; }
   pbt::spit(f, all);
   g << "file " << pbt::q(all) << (thr ? " exceptions(failbit)" : "");
   TStream s;
   if (g.flag(0.3))
   {  // a stream used before on another file gives what a fresh one gives
      pbt::spit(pbt::scratch() + "/u.txt", "K 1 1\nC a\nK 2 0\nzzz\n");
      s.open((pbt::scratch() + "/u.txt").c_str(), std::ios::in);
      int n = (int)g.range(0, 4);
      for (int i = 0; i < n; i++) { TRec r; s >> r; }
      g << " reused after " << n;
   }
   s.open(f.c_str(), std::ios::in);
   REQ_EQ(s.recordNumber, 0u, "recordNumber after open");
   REQ_EQ(s.lineNumber, 0u, "lineNumber after open");
   REQ_EQ(s.filename, f, "file name");
   if (thr) s.exceptions(std::ios::failbit);
   size_t pos = 0; unsigned rn = 0; int good = 0, nb = 0;
   for (int step = 0; step < 40; step++)
   {
      Outc o = readModel(L, pos, bare);
      TRec r; r.key = -5;
      bool threw = false;
      try { s >> r; }
      catch (FFStreamError& e) { threw = true; REQUIRE(o.kind == 1, "FFStreamError at line " << pos << ": " << e.what()); }
      catch (StringUtils::StringException& e) { threw = true; REQUIRE(o.kind == 1, "StringException at line " << pos); }
      if (o.kind == 0)
      {
         REQUIRE(!!s, "reading record at line " << pos << " failed");
         REQUIRE(r == o.rec, "record at line " << pos << " is key " << r.key);
         rn++; good++; pos = o.next;
         REQ_EQ(s.recordNumber, rn, "recordNumber");
         REQ_EQ(s.lineNumber, (unsigned)pos, "lineNumber after record");
         continue;
      }
      REQUIRE(!s, "read at line " << pos << " did not fail");
      REQ_EQ(threw, thr && o.kind == 1, "exception thrown (kind " << o.kind << ")");
      REQ_EQ(s.recordNumber, rn, "recordNumber after failure");
      if (o.kind == 2) { REQUIRE(s.eof(), "no eof at end of file"); break; }
      REQUIRE(!s.eof(), "eof after a malformed record at line " << pos);
      nb++;
      REQ_EQ(s.lineNumber, (unsigned)pos, "lineNumber after failure");
      bool fn = false;
      for (size_t i = 0; i < s.mostRecentException.getTextCount(); i++)
         if (s.mostRecentException.getText(i).find(f) != S::npos) fn = true;
      REQUIRE(fn, "the exception does not name the file");
      // the stream is where the record begins
      s.clear();
      LRec lr;
      S want = L[pos]; while (want.size() && want.back() == '\r') want.pop_back();
      if (printable(want))
      {
         s >> lr; rn++;
         REQUIRE(!!s, "line " << pos << " not readable after a failed record");
         REQ_EQ(lr.line, want, "line after failed record");
      }
      else { S raw; std::getline(s, raw); s.lineNumber++; while (raw.size() && raw.back() == '\r') raw.pop_back(); REQ_EQ(raw, want, "raw line after failed record"); }
      pos++;
   }
   g.nontrivial(nb > 0 && good > 1);
   REQUIRE(FFStream::isFFStream(s), "isFFStream");
   std::istringstream is("x"); REQUIRE(!FFStream::isFFStream(is), "isFFStream of another stream");
}

PROP(text_write, 12000, 240000, "a record that cannot be written")
{
   S f = pbt::scratch() + "/w.txt"; ::unlink(f.c_str());
   bool thr = g.flag(0.4); unsigned rn = 0, ln = 0; S want; bool badseen = false;
   {
      TStream s(f.c_str(), std::ios::out | std::ios::trunc);
      if (thr) s.exceptions(std::ios::failbit);
      int n = (int)g.range(1, 8);
      for (int i = 0; i < n; i++)
      {
         TRec r = genRec(g); bool bad = g.flag(0.2);
         if (bad) { r.key = -999; badseen = true; }
         bool threw = false;
         try { if (g.flag(0.5)) s << r; else r.putRecord(s); } catch (FFStreamError&) { threw = true; }
         REQ_EQ(threw, bad && thr, "exception thrown when writing");
         REQ_EQ(!!s, !bad, "stream state after writing");
         if (!bad) { rn++; ln += 1 + r.more.size(); want += recText(r); }
         REQ_EQ(s.recordNumber, rn, "recordNumber when writing");
         REQ_EQ(s.lineNumber, ln, "lineNumber when writing");
         if (bad) s.clear();
      }
   }
   g.nontrivial(badseen);
   REQ_EQ(pbt::slurp(f), want, "file written");
}

// --------------------------------------------------------- binary stream
struct BStream : public FFBinaryStream
{
   bool le;
   BStream(const S& f, std::ios::openmode m, bool l) : FFBinaryStream(f.c_str(), m), le(l) {}
   bool isStreamLittleEndian() const throw() { return le; }
};
struct BVal { int t; uint64_t u; double d; S raw; };
static int bsize(const BVal& v) { static const int n[] = {1,2,4,8,1,2,4,8,4,8}; return v.t == 10 ? (int)v.raw.size() : n[v.t]; }
static void bwrite(FFBinaryStream& s, const BVal& v)
{
   switch (v.t)
   {
      case 0: s.writeData((uint8_t)v.u); break;   case 1: s.writeData((uint16_t)v.u); break;
      case 2: s.writeData((uint32_t)v.u); break;  case 3: s.writeData((uint64_t)v.u); break;
      case 4: s.writeData((int8_t)v.u); break;    case 5: s.writeData((int16_t)v.u); break;
      case 6: s.writeData((int32_t)v.u); break;   case 7: s.writeData((int64_t)v.u); break;
      case 8: s.writeData((float)v.d); break;     case 9: s.writeData(v.d); break;
      default: s.writeData(v.raw.data(), v.raw.size());
   }
}
static bool bread(FFBinaryStream& s, const BVal& v)     // true if equal
{
#define RD(T) { T x; s.getData(x); return x == (T)v.u; }
   switch (v.t)
   {
      case 0: RD(uint8_t) case 1: RD(uint16_t) case 2: RD(uint32_t) case 3: RD(uint64_t)
      case 4: RD(int8_t) case 5: RD(int16_t) case 6: RD(int32_t) case 7: RD(int64_t)
      case 8: { float x; s.getData(x); return memcmp(&x, std::vector<float>(1, (float)v.d).data(), 4) == 0; }
      case 9: { double x; s.getData(x); return memcmp(&x, &v.d, 8) == 0; }
   }
   std::vector<char> b(v.raw.size() + 1); s.getData(b.data(), v.raw.size());
   return memcmp(b.data(), v.raw.data(), v.raw.size()) == 0;
#undef RD
}
static S bbytes(const BVal& v, bool le)
{
   if (v.t == 10) return v.raw;
   int n = bsize(v); uint64_t u = v.u;
   if (v.t == 8) { float x = (float)v.d; uint32_t k; memcpy(&k, &x, 4); u = k; }
   if (v.t == 9) memcpy(&u, &v.d, 8);
   S s;
   for (int i = 0; i < n; i++) s += (char)(u >> (8 * (le ? i : n - 1 - i)));
   return s;
}
struct BRec : public FFData
{
   mutable std::vector<BVal> v; bool ok = true;
protected:
   void reallyGetRecord(FFStream& s) { for (auto& x : v) if (!bread(dynamic_cast<FFBinaryStream&>(s), x)) ok = false; }
   void reallyPutRecord(FFStream& s) const { for (auto& x : v) bwrite(dynamic_cast<FFBinaryStream&>(s), x); }
};
PROP(binary_stream, 20000, 400000, "several types and both ends of the range")
{
   bool le = g.flag(0.5); std::vector<BRec> R; S want; std::set<int> types;
   int nr = (int)g.range(1, 5);
   for (int i = 0; i < nr; i++)
   {
      BRec r; int n = (int)g.range(1, 6);
      for (int j = 0; j < n; j++)
      {
         BVal v; v.t = (int)g.range(0, 10); v.u = g.flag(0.2) ? 0 : g.flag(0.2) ? ~0ull : g.bits64(); v.d = g.flag(0.1) ? 0 : g.logReal(-30, 30);
         if (v.t == 10) { int k = (int)g.range(0, 20); for (int q = 0; q < k; q++) v.raw += (char)g.bits(8); }
         types.insert(v.t); want += bbytes(v, le); r.v.push_back(v);
      }
      R.push_back(r);
   }
   S f = pbt::scratch() + "/b.bin"; ::unlink(f.c_str());
   {
      BStream s(f, std::ios::out | std::ios::trunc, le);
      for (auto& r : R) { s << r; REQUIRE(!!s, "writing a binary record"); }
      REQ_EQ(s.recordNumber, (unsigned)nr, "records written");
   }
   S got = pbt::slurp(f);
   REQUIRE(got == want, "bytes written, " << (le ? "little" : "big") << " endian: size " << got.size() << " for " << want.size());
   g.nontrivial(types.size() > 3);
   {
      BStream s(f, std::ios::in, le);
      if (g.flag(0.5)) s.exceptions(std::ios::failbit);
      for (auto& r : R) { r.ok = true; s >> r; REQUIRE(!!s && r.ok, "value read back differs, " << (le ? "little" : "big") << " endian"); }
      REQ_EQ(s.recordNumber, (unsigned)nr, "records read");
      BRec x; BVal v; v.t = (int)g.range(0, 9); v.u = 0; v.d = 0; x.v.push_back(v);
      s >> x;
      REQUIRE(!s && s.eof(), "reading past the end");
   }
   // cut short: with exceptions enabled the reader is told where the data end
   if (want.size() > 0)
   {
      size_t cut = g.below(want.size());
      pbt::spit(f, want.substr(0, cut));
      BStream s(f, std::ios::in, le); s.exceptions(std::ios::failbit);
      size_t off = 0; bool stop = false;
      for (auto& r : R) for (auto& v : r.v)
      {
         if (stop) break;
         bool eof = false, okv = false;
         try { okv = bread(s, v); } catch (EndOfFile&) { eof = true; }
         off += bsize(v);
         REQ_EQ(eof, off > cut, "EndOfFile for a value ending at " << off << " in a file of " << cut);
         if (eof) stop = true; else REQUIRE(okv, "value read before the cut");
      }
      REQUIRE(stop, "cut not noticed");
   }
}

// --------------------------------------------------------- FileFilter
struct It { int a, id; bool operator==(const It& o) const { return a == o.a && id == o.id; } };
static std::ostream& operator<<(std::ostream& o, const It& i) { return o << i.a << "." << i.id; }
static S show(const std::list<It>& l) { std::ostringstream o; for (auto& i : l) o << " " << i; return o.str(); }
struct LtA { bool operator()(const It& x, const It& y) const { return x.a < y.a; } };
struct GtA { bool operator()(const It& x, const It& y) const { return x.a > y.a; } };
struct EqA { bool operator()(const It& x, const It& y) const { return x.a == y.a; } };
struct ModP { int m, r; bool operator()(const It& x) const { return x.a % m == r; } };
struct Bump { int lim; int calls; Bump(int l) : lim(l), calls(0) {} bool operator()(It& x) { calls++; if (x.a < lim) { x.a++; return true; } return false; } };
PROP(filter_ops, 32000, 800000, "an order, a uniqueness and a predicate operation on five or more items")
{
   FileFilter<It> F; std::list<It> M; int id = 0, filt = 0; std::set<int> used; size_t mx = 0;
   int n = (int)g.range(3, 25);
   auto mkl = [&](int k) { std::list<It> l; for (int i = 0; i < k; i++) l.push_back(It{(int)g.range(0, 7), id++}); return l; };
   for (int step = 0; step < n; step++)
   {
      int op = (int)g.weighted({5, 3, 2, 2, 2, 2, 2, 2, 1, 2, 1});
      used.insert(op); g << " op" << op;
      switch (op)
      {
         case 0: { It x{(int)g.range(0, 7), id++}; F.addData(x); M.push_back(x); break; }
         case 1: { auto l = mkl((int)g.range(0, 5)); F.addData(l); 
            // added as a block, in their order
            M.insert(M.begin(), l.begin(), l.end()); break; }
         case 2: if (g.flag(0.5)) { F.sort(LtA()); M.sort(LtA()); } else { F.sort(GtA()); M.sort(GtA()); } break;
         case 3: { FileFilter<It> R; auto l = mkl((int)g.range(0, 4)); for (auto& x : l) R.addData(x);
            if (g.flag(0.5)) { F.merge(R); M.insert(M.begin(), l.begin(), l.end()); }
            else { F.merge(R, LtA()); M.insert(M.begin(), l.begin(), l.end()); M.sort(LtA()); }
            REQUIRE(R.getData() == l, "merge changed the other filter"); break; }
         case 4: { size_t b = M.size(); F.unique(EqA()); M.unique(EqA()); filt = (int)(b - M.size()); break; }
         case 5: { ModP p{(int)g.range(2, 3), (int)g.range(0, 2)}; size_t b = M.size(); F.filter(p); M.remove_if(p); filt = (int)(b - M.size()); break; }
         case 6: { int lim = (int)g.range(0, 8); filt = 0;
            if (g.flag(0.5)) { Bump b(lim); F.touch(b); REQ_EQ(b.calls, (int)M.size(), "touch calls"); }
            else { const Bump b(lim); F.touch(b); }
            for (auto& x : M) if (x.a < lim) { x.a++; filt++; } break; }
         case 7: { ModP p{2, (int)g.range(0, 1)}; std::list<It> w; for (auto& x : M) if (p(x)) w.push_back(x);
            REQUIRE(F.findAll(p) == w, "findAll"); break; }
         case 8: if (g.flag(0.3)) { F.clear(); M.clear(); } break;
         case 9: { FileFilter<It> A = F, B; auto l = mkl((int)g.range(0, 6)); for (auto& x : l) B.addData(x);
            A.sort(LtA()); B.sort(LtA()); auto d = A.diff(B, LtA());
            std::multiset<int> sa, sb; for (auto& x : M) sa.insert(x.a); for (auto& x : l) sb.insert(x.a);
            std::multiset<int> wa, wb;
            for (int a = 0; a < 20; a++) { int k = (int)sa.count(a) - (int)sb.count(a); for (; k > 0; k--) wa.insert(a); for (; k < 0; k++) wb.insert(a); }
            std::multiset<int> ga, gb; for (auto& x : d.first) ga.insert(x.a); for (auto& x : d.second) gb.insert(x.a);
            REQUIRE(ga == wa && gb == wb, "diff of" << show(A.getData()) << " and" << show(B.getData()) << ":" << show(d.first) << " |" << show(d.second));
            REQUIRE(std::is_sorted(d.first.begin(), d.first.end(), LtA()) && std::is_sorted(d.second.begin(), d.second.end(), LtA()), "diff sorted");
            for (auto& x : d.first) REQUIRE(std::find(M.begin(), M.end(), x) != M.end(), "diff gives an element of the wrong side");
            break; }
         case 10: { FileFilter<It> C(F); C.clear(); REQUIRE(C.empty(), "clear of a copy"); break; }
      }
      mx = std::max(mx, M.size());
      REQUIRE(F.getData() == M, "after operation " << op << " the data are" << show(F.getData()) << " expected" << show(M));
      REQ_EQ(F.getFiltered(), filt, "getFiltered after operation " << op);
      REQ_EQ(F.size(), M.size(), "size"); REQ_EQ(F.getDataCount(), M.size(), "getDataCount"); REQ_EQ(F.empty(), M.empty(), "empty");
      const FileFilter<It>& cF = F;
      REQ_EQ((size_t)std::distance(cF.begin(), cF.end()), M.size(), "iterators"); REQ_EQ((size_t)std::distance(F.begin(), F.end()), M.size(), "iterators");
      REQUIRE(cF.getData() == M, "const getData");
      if (M.size())
      { REQUIRE(F.front() == M.front() && cF.front() == M.front() && F.back() == M.back() && cF.back() == M.back(), "front and back"); }
      else
      { bool t = false; try { F.front(); } catch (AssertionFailure&) { t = true; } REQUIRE(t, "front of an empty filter"); 
        t = false; try { cF.back(); } catch (AssertionFailure&) { t = true; } REQUIRE(t, "back of an empty filter"); }
   }
   g.nontrivial(used.count(2) && used.count(4) && (used.count(5) || used.count(6)) && mx >= 5);
}

// --------------------------------------------------------- frames on files
struct KLt { bool operator()(const TRec& a, const TRec& b) const { return a.key < b.key; } };
struct HCount { int n = 0; S all; bool operator()(const THdr& h) { n++; all += h.name + ";"; return true; } };
typedef FileFilterFrame<TStream, TRec> Frame;
typedef FileFilterFrameWithHeader<TStream, TRec, THdr> HFrame;
struct HLess   // third-form comparison of halfDiff
{ bool operator()(const TRec& l, const THdr&, const TRec& r, const THdr&, long double) const { return l.key < r.key; } };
[[maybe_unused]] static void rmTree(const S& d) { if (d.find("/w") == S::npos) return; S c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} }
PROP(frames, 5600, 120000, "several files, one with an error, and a file written")
{
   S dir = pbt::scratch() + "/fr"; rmTree(dir); mkdir(dir.c_str(), 0777);
   int nf = (int)g.range(1, 5); 
   struct FI { S path; S hdr; std::vector<TRec> recs; long day; bool bad; };
   std::vector<FI> F; bool anybad = false;
   long d0 = g.range(0, 300);
   for (int i = 0; i < nf; i++)
   {
      FI f; f.day = d0 + i + 1; f.path = dir + pbt::strf("/f2010_%03ld.txt", f.day); f.hdr = "h" + std::to_string(g.range(0, 9)); f.bad = g.flag(0.2); anybad |= f.bad;
      int n = (int)g.range(0, 4); S all = "H " + f.hdr + "\n";
      for (int k = 0; k < n; k++) { f.recs.push_back(genRec(g)); all += recText(f.recs.back()); }
      if (f.bad) { all += "garbage\nK 5 0\n"; }       // reading stops at the error
      pbt::spit(f.path, all); F.push_back(f);
   }
   auto addm = [](std::list<TRec>& M, const FI& f) { for (auto& r : f.recs) M.push_back(r); };
   std::list<TRec> M; std::list<S> H;
   HFrame W; Frame P;
   auto day = [](long d) { return CommonTime(YDSTime(2010, d, 0)); };
   S mode;
   switch (g.below(5))
   {
      case 0: mode = "default"; break;
      case 1: { mode = "one file"; const FI& f = F[g.below(F.size())]; W = HFrame(f.path); P = Frame(f.path); addm(M, f); H.push_back(f.hdr); break; }
      case 2: { mode = "list"; std::vector<S> l; int k = (int)g.range(0, 4);
         for (int i = 0; i < k; i++) { const FI& f = F[g.below(F.size())]; l.push_back(f.path); addm(M, f); H.push_back(f.hdr); }
         W = HFrame(l); P = Frame(l); break; }
      default: { mode = "spec"; FileSpec fs(dir + "/f%4Y_%03j.txt"); long a = d0 + g.range(0, nf), b = a + g.range(0, nf);
         if (g.flag(0.3)) { W = HFrame(fs); P = Frame(fs); a = 0; b = 4000; } else { W = HFrame(fs, day(a + 1), day(b + 1)); P = Frame(fs, day(a + 1), day(b + 1)); a++; b++; mode += pbt::strf(" %ld to %ld", a, b); }
         for (auto& f : F) if (f.day >= a && f.day <= b) { bool in = f.day < b || a == b; if (in) { addm(M, f); H.push_back(f.hdr); } }
      }
   }
   if (g.flag(0.5))
   {
      mode += "+newSource";
      if (g.flag(0.5)) { const FI& f = F[g.below(F.size())]; W.newSource(f.path); P.newSource(f.path); addm(M, f); H.push_back(f.hdr); }
      else if (g.flag(0.5)) { std::vector<S> l; for (auto& f : F) { l.push_back(f.path); addm(M, f); H.push_back(f.hdr); } W.newSource(l); P.newSource(l); }
      else { FileSpec fs(dir + "/f%4Y_%03j.txt"); mode += " spec"; W.newSource(fs); P.newSource(fs); for (auto& f : F) { addm(M, f); H.push_back(f.hdr); } }
   }
   g << mode << " files"; for (auto& f : F) g << " " << f.day << ":" << f.hdr << "/" << f.recs.size() << (f.bad ? "!" : ""); g.label(mode.substr(0, 4));
   auto txt = [](const std::list<TRec>& l) { S s; for (auto& r : l) s += recText(r); return s; };
   if (mode.find("spec") != S::npos)
   {  // the order in which a search finds the files is not fixed
      auto key = [](const TRec& a, const TRec& b) { return recText(a) < recText(b); };
      std::list<TRec> a = W.getData(), b = P.getData(); std::list<S> h; for (auto& x : W.getHeaderData()) h.push_back(x.name);
      REQUIRE(a == b, "frames with and without header differ");
      M.sort(key); a.sort(key); REQUIRE(a == M, "data of the frame: " << pbt::q(txt(a)) << " expected " << pbt::q(txt(M)));
      M = b; std::list<S> hs = h; hs.sort(); H.sort(); if (hs == H) H = h;
   }
   REQUIRE(W.getData() == M, "data of the frame with headers: " << pbt::q(txt(W.getData())) << " expected " << pbt::q(txt(M)));
   REQUIRE(P.getData() == M, "data of the frame: " << P.getData().size() << " for " << M.size());
   std::list<S> gh; for (auto& h : W.getHeaderData()) gh.push_back(h.name);
   { S a, b; for (auto& x : gh) a += x + ";"; for (auto& x : H) b += x + ";"; REQUIRE(gh == H, "headers read " << a << " expected " << b); } REQ_EQ(W.getHeaderCount(), H.size(), "getHeaderCount"); REQ_EQ(W.sizeHeader(), H.size(), "sizeHeader"); REQ_EQ(W.emptyHeader(), H.empty(), "emptyHeader");
   if (H.size())
   {
      REQ_EQ(W.frontHeader().name, H.front(), "frontHeader"); REQ_EQ(W.backHeader().name, H.back(), "backHeader");
      REQ_EQ((size_t)std::distance(W.beginHeader(), W.endHeader()), H.size(), "header iterators");
   }
   else
   {
      int t = 0; try { W.frontHeader(); } catch (InvalidRequest&) { t++; } try { W.backHeader(); } catch (InvalidRequest&) { t++; }
      try { W.beginHeader(); } catch (InvalidRequest&) { t++; } try { W.endHeader(); } catch (InvalidRequest&) { t++; }
      REQ_EQ(t, 4, "header requests refused without headers");
   }
   HCount hc; W.touchHeader(hc); S all; for (auto& h : H) all += h + ";"; REQ_EQ(hc.all, all, "touchHeader");
   if (g.flag(0.6)) { W.sort(KLt()); P.sort(KLt()); M.sort(KLt()); }
   // written files hold the data in order
   S sub = dir + "/out" + (g.flag(0.5) ? "/deep/er" : ""), o1 = sub + "/p.txt", o2 = sub + "/w.txt";
   S text; for (auto& r : M) text += recText(r);
   bool pre = g.flag(0.3), app = g.flag(0.5); S old;
   if (pre) { FileUtils::makeDir(sub, 0755); old = "K 6 0\n"; pbt::spit(o1, old); }
   bool rc = P.writeFile(o1, app);
   REQUIRE(rc, "writeFile");
   if (M.empty()) { REQ_EQ(FileUtils::fileAccessCheck(o1), pre, "empty frame writes no file"); if (pre) REQ_EQ(pbt::slurp(o1), old, "empty frame leaves the file"); }
   else REQ_EQ(pbt::slurp(o1), (pre && app ? old : S()) + text, "file written, append " << app);
   if (!M.empty() && g.flag(0.5)) { P.writeFile(o1, true); REQ_EQ(pbt::slurp(o1), (pre && app ? old : S()) + text + text, "file appended"); }
   THdr h; h.name = "new";
   W.writeFile(o2, h);
   REQ_EQ(pbt::slurp(o2), "H new\n" + text, "file written with header");
   HFrame back(o2); REQUIRE(back.getData() == M, "frame read back"); REQ_EQ(back.frontHeader().name, S("new"), "header read back");
   g.nontrivial(nf > 1 && anybad && M.size() > 1);
   rmTree(dir);
}

// --------------------------------------------------------- FileStore
PROP(store, 12000, 320000, "a duplicate and a missing name")
{
   FileStore<THdr> F; std::map<S, S> M; bool dup = false, miss = false;
   std::ostringstream sink; auto old = std::cout.rdbuf(sink.rdbuf());
   struct Restore { std::streambuf* b; ~Restore() { std::cout.rdbuf(b); } } rest{old};
   int n = (int)g.range(1, 20);
   for (int i = 0; i < n; i++)
   {
      S nm = g.str("ab/", 0, 3);
      switch (g.weighted({5, 3, 1}))
      {
         case 0: { THdr h; h.name = "h" + std::to_string(i); bool t = false; try { F.addFile(nm, h); } catch (InvalidRequest&) { t = true; }
            REQ_EQ(t, M.count(nm) > 0, "adding " << pbt::q(nm)); dup |= t; M.insert({nm, h.name}); break; }
         case 1: { bool t = false; S v; try { v = F.getHeader(nm).name; } catch (InvalidRequest&) { t = true; }
            REQ_EQ(t, M.count(nm) == 0, "header of " << pbt::q(nm)); miss |= t; if (!t) REQ_EQ(v, M[nm], "header of " << pbt::q(nm)); break; }
         case 2: if (g.flag(0.3)) { F.clear(); M.clear(); } break;
      }
      REQ_EQ(F.size(), (unsigned)M.size(), "size"); REQ_EQ(F.nfiles(), (unsigned)M.size(), "nfiles");
      std::vector<S> w; for (auto& m : M) w.push_back(m.first);
      REQUIRE(F.getFileNames() == w, "getFileNames");
      std::ostringstream d; F.dump(d, 1);
      for (auto& m : M) REQUIRE(d.str().find("hdr " + m.second + "\n") != S::npos, "dump leaves out a header");
   }
   g.nontrivial(dup && miss);
}

// --------------------------------------------------------- directories
PROP(make_dir, 4000, 80000, "part of the hierarchy exists already")
{
   S base = pbt::scratch() + "/md"; rmTree(base); mkdir(base.c_str(), 0777);
   S p = base; int n = (int)g.range(1, 5), have = (int)g.range(0, n); std::vector<S> parts;
   for (int i = 0; i < n; i++)
   {
      p += (g.flag(0.2) ? "//" : "/") + g.str("abc.-_ ", 1, 4) + "x"; parts.push_back(p);
      if (i < have) mkdir(p.c_str(), 0777);
   }
   S f = p + "/file";
   REQ_EQ(FileUtils::fileAccessCheck(f), false, "access of a missing file");
   S arg = p + (g.flag(0.2) ? "/" : "");
   int rc = g.flag(0.5) ? FileUtils::makeDir(arg, 0755) : FileUtils::makeDir(arg.c_str(), 0755);
   REQ_EQ(rc, 0, "makeDir returns 0");
   for (auto& q : parts) { struct stat st; REQUIRE(stat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "no directory " << pbt::q(q) << " after makeDir of " << pbt::q(arg)); }
   pbt::spit(f, "x");
   REQ_EQ(FileUtils::fileAccessCheck(f), true, "access of an existing file");
   REQ_EQ(FileUtils::fileAccessCheck(f.c_str(), std::ios::in | std::ios::out), true, "write access");
   REQ_EQ(pbt::slurp(f), S("x"), "access check changed the file");
   g.nontrivial(have > 0 && have < n);
   rmTree(base);
}

// --------------------------------------------------------- record orders
template <class T, class C> static void strictWeak(const std::vector<T>& v, C c, const char* what)
{
   size_t n = v.size();
   for (size_t i = 0; i < n; i++)
   {
      REQUIRE(!c(v[i], v[i]), what << " is not irreflexive");
      for (size_t j = 0; j < n; j++)
      {
         bool ij = c(v[i], v[j]);
         REQUIRE(!(ij && c(v[j], v[i])), what << ": both records " << i << " and " << j << " come first");
         for (size_t k = 0; k < n; k++)
         {
            if (ij && c(v[j], v[k])) REQUIRE(c(v[i], v[k]), what << " is not transitive");
            if (!ij && !c(v[j], v[i]) && !c(v[j], v[k]) && !c(v[k], v[j]))
               REQUIRE(!c(v[i], v[k]) && !c(v[k], v[i]), what << ": equivalence is not transitive");
         }
      }
   }
}
PROP(obs_order, 12000, 320000, "records of one epoch that differ in the second value or satellite")
{
   const std::vector<RinexObsType> T = {RinexObsHeader::C1, RinexObsHeader::L1, RinexObsHeader::P2};
   std::set<RinexObsType> set; for (auto& t : T) if (g.flag(0.7)) set.insert(t);
   std::vector<RinexObsData> v; int n = (int)g.range(2, 6); bool flags = g.flag(0.5);
   for (int i = 0; i < n; i++)
   {
      RinexObsData d; d.time = YDSTime(2010, 5, 30.0 * g.range(0, 1)); d.epochFlag = (short)(g.flag(0.1) ? 1 : 0); d.clockOffset = g.flag(0.8) ? 0 : 1e-6 * g.range(0, 2);
      int ns = (int)g.range(1, 3);
      for (int s = 0; s < ns; s++)
      {
         SatID sat((int)g.range(1, 4), SatelliteSystem::GPS);
         for (auto& t : T) { RinexDatum x; x.data = g.flag(0.5) ? 2e7 : 2e7 + g.range(-1, 1); x.lli = flags ? (short)g.range(1, 2) : 0; x.ssi = flags ? (short)g.range(1, 3) : 0; d.obs[sat][t] = x; }
      }
      d.numSvs = (short)d.obs.size();
      v.push_back(d);
   }
   strictWeak(v, RinexObsDataOperatorLessThanFull(set), "RinexObsDataOperatorLessThanFull");
   strictWeak(v, RinexObsDataOperatorLessThanSimple(), "RinexObsDataOperatorLessThanSimple");
   RinexObsDataOperatorLessThanFull c(set); bool same = false;
   for (auto& a : v) for (auto& b : v)
   {
      REQ_EQ(RinexObsDataOperatorEqualsSimple()(a, b), a.time == b.time, "EqualsSimple");
      REQ_EQ(RinexObsDataOperatorLessThanSimple()(a, b), a.time < b.time, "LessThanSimple");
      if (a.time != b.time) { REQ_EQ(c(a, b), a.time < b.time, "order by time"); continue; }
      bool eq = a.epochFlag == b.epochFlag && a.clockOffset == b.clockOffset && a.obs.size() == b.obs.size();
      if (eq) for (auto& s : a.obs)
      {
         auto q = b.obs.find(s.first);
         if (q == b.obs.end()) { eq = false; break; }
         for (auto& t : set) { auto x = s.second.find(t)->second, y = q->second.find(t)->second; if (x.data != y.data || x.lli != y.lli || x.ssi != y.ssi) eq = false; }
      }
      if (&a != &b && !eq) same = true;
      REQ_EQ(!c(a, b) && !c(b, a), eq, "records neither of which comes first are equal in the shared fields");
   }
   g.nontrivial(same);
}
PROP(nav_met_order, 6400, 160000, "records of one epoch")
{
   std::vector<Rinex3NavData> v; int n = (int)g.range(2, 6); bool one = false;
   for (int i = 0; i < n; i++)
   {
      Rinex3NavData d; d.time = YDSTime(2010, 5, 7200.0 * g.range(0, 1)); d.PRNID = (short)g.range(1, 3); d.weeknum = (short)g.range(1565, 1566); d.xmitTime = 7200 * g.range(10, 11);
      d.ecc = 0.01 * g.range(0, 1); d.af0 = 1e-6 * g.range(-1, 1); d.M0 = g.flag(0.8) ? 1. : 1. + 1e-12; d.Toe = 7200.; d.Toc = 7200.; d.IODC = (double)g.range(1, 2); d.IODE = d.IODC.val;
      d.codeflgs = d.health = 0; d.L2Pdata = 0; d.accuracy = 2.; d.af1 = d.af2 = d.Tgd = d.Cuc = d.Cus = d.Crc = d.Crs = d.Cic = d.Cis = d.dn = 0.; d.Ahalf = 5153.; d.OMEGA0 = d.i0 = d.w = d.OMEGAdot = d.idot = 0.; d.fitint = 4.;
      if (i && g.flag(0.2)) d = v[g.below(v.size())];
      v.push_back(d);
   }
   strictWeak(v, Rinex3NavDataOperatorLessThanFull(), "Rinex3NavDataOperatorLessThanFull");
   for (auto& a : v) for (auto& b : v)
   {
      bool eq = a.time == b.time && a.toList() == b.toList();
      REQ_EQ(Rinex3NavDataOperatorEqualsFull()(a, b), eq, "EqualsFull");
      Rinex3NavDataOperatorLessThanFull c; REQ_EQ(!c(a, b) && !c(b, a), eq, "records neither of which comes first are equal");
      if (!eq && a.time == b.time) one = true;
      long xa = a.weeknum * 604800L + a.xmitTime, xb = b.weeknum * 604800L + b.xmitTime;
      if (xa != xb) REQ_EQ(c(a, b), xa < xb, "order by transmit time");
      REQ_EQ(Rinex3NavDataOperatorLessThanSimple()(a, b), xa < xb, "LessThanSimple");
   }
   std::list<long> prns; for (long p = 1; p <= 3; p++) if (g.flag(0.5)) prns.push_back(p);
   FileFilter<Rinex3NavData> ff; size_t keep = 0;
   for (auto& a : v) { ff.addData(a); keep += std::find(prns.begin(), prns.end(), (long)a.PRNID) != prns.end(); }
   ff.filter(Rinex3NavDataFilterPRN(prns)); REQ_EQ(ff.size(), keep, "filter by PRN keeps the listed");

   std::vector<RinexMetData> m; std::set<RinexMetHeader::RinexMetType> T = {RinexMetHeader::PR, RinexMetHeader::TD, RinexMetHeader::HR}, sh;
   for (auto& t : T) if (g.flag(0.7)) sh.insert(t);
   for (int i = 0; i < n; i++) { RinexMetData d; d.time = CommonTime(YDSTime(2010, 5, 30.0 * g.range(0, 2))); for (auto& t : T) d.data[t] = (double)g.range(0, 2); m.push_back(d); }
   strictWeak(m, RinexMetDataOperatorLessThanFull(sh), "RinexMetDataOperatorLessThanFull");
   for (auto& a : m) for (auto& b : m)
   {
      RinexMetDataOperatorLessThanFull c(sh); bool eq = a.time == b.time; for (auto& t : sh) if (a.data[t] != b.data[t]) eq = false;
      REQ_EQ(!c(a, b) && !c(b, a), eq, "met records neither of which comes first");
      REQ_EQ(RinexMetDataOperatorEqualsSimple()(a, b), a.time == b.time, "met EqualsSimple");
   }
   CommonTime t0(YDSTime(2010, 5, 10.0 * g.range(0, 4))), t1(YDSTime(2010, 5, 10.0 * g.range(2, 8)));
   RinexMetDataFilterTime ft(t0, t1); for (auto& a : m) REQ_EQ(ft(a), a.time < t0 || a.time >= t1, "filter by time");
   g.nontrivial(one);
}
PROP(header_merge, 6400, 160000, "two or more headers with comments in common")
{
   int n = (int)g.range(1, 4); RinexObsHeaderTouchHeaderMerge mo; Rinex3NavHeaderTouchHeaderMerge mn; RinexMetHeaderTouchHeaderMerge mm;
   std::set<S> com; size_t tot = 0; std::set<S> ot; std::set<int> mt; std::vector<S> firstC;
   const std::vector<RinexObsType> T = {RinexObsHeader::C1, RinexObsHeader::L1, RinexObsHeader::P2, RinexObsHeader::S1};
   for (int i = 0; i < n; i++)
   {
      RinexObsHeader o; Rinex3NavHeader nh; RinexMetHeader mh; std::vector<S> c; int k = (int)g.range(0, 3);
      for (int j = 0; j < k; j++) c.push_back("c" + std::to_string(g.range(0, 4)));
      tot += k; com.insert(c.begin(), c.end()); if (!i) firstC = c;
      o.commentList = c; nh.commentList = c; mh.commentList = c; o.markerName = "m" + std::to_string(i);
      std::set<S> ts; for (auto& t : T) if (g.flag(0.7)) { o.obsTypeList.push_back(t); ts.insert(t.type); }
      std::set<int> ms; for (auto t : {RinexMetHeader::PR, RinexMetHeader::TD, RinexMetHeader::HR, RinexMetHeader::ZW}) if (g.flag(0.7)) { mh.obsTypeList.push_back(t); ms.insert(t); }
      if (!i) { ot = ts; mt = ms; } else
      { std::set<S> x; for (auto& t : ts) if (ot.count(t)) x.insert(t); ot = x; std::set<int> y; for (int t : ms) if (mt.count(t)) y.insert(t); mt = y; }
      mo(o); mn(nh); mm(mh);
   }
   std::vector<S> want(com.begin(), com.end()); if (n == 1) want = firstC;
   REQUIRE(mo.theHeader.commentList == want && mn.theHeader.commentList == want && mm.theHeader.commentList == want, "comments of the merged header");
   REQ_EQ(mo.theHeader.markerName, S("m0"), "other fields are those of the first header");
   std::set<S> got; for (auto& t : mo.theHeader.obsTypeList) got.insert(t.type); REQUIRE(got == ot && got.size() == mo.theHeader.obsTypeList.size(), "observation types in common");
   std::set<int> gm(mm.theHeader.obsTypeList.begin(), mm.theHeader.obsTypeList.end()); REQUIRE(gm == mt && gm.size() == mm.theHeader.obsTypeList.size(), "met types in common");
   if (n > 1) { std::set<S> os; for (auto& t : mo.obsSet) os.insert(t.type); REQUIRE(os == ot, "obsSet"); }
   g.nontrivial(n > 1 && com.size() < tot);
}
PBT_MAIN
