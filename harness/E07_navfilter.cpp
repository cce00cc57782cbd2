// E07: navigation message filters: what each filter accepts, against its documented rule, and the manager over histories: every message comes out once, accepted or rejected
#include "gp.hpp"
#include "NavFilterMgr.hpp"
#include "LNavParityFilter.hpp"
#include "LNavCookFilter.hpp"
#include "LNavEmptyFilter.hpp"
#include "LNavTLMHOWFilter.hpp"
#include "LNavAlmValFilter.hpp"
#include "LNavCrossSourceFilter.hpp"
#include "LNavOrderFilter.hpp"
#include "NavOrderFilter.hpp"
#include "LNavEphMaker.hpp"
#include "LNavFilterData.hpp"
#include "CNavCookFilter.hpp"
#include "CNavEmptyFilter.hpp"
#include "CNavParityFilter.hpp"
#include "CNavTOWFilter.hpp"
#include "CNavCrossSourceFilter.hpp"
#include "CNav2SanityFilter.hpp"
#include "CNavFilterData.hpp"
#include "NavMsgDataBits.hpp"
#include "NavMsgDataPNB.hpp"
#include "NavMsgDataWords.hpp"
#include "GPSWeekSecond.hpp"
#include <memory>
#include <deque>
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map; using std::set; using std::deque;
typedef uint32_t U; typedef NavFilter::NavMsgList L;
static const vector<vector<int> > equations = { {29, 1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 17, 18, 20, 23}, {30, 2, 3, 4, 6, 7, 11, 12, 13, 14, 15, 18, 19, 21, 24}, {29, 1, 3, 4, 5, 7, 8, 12, 13, 14, 15, 16, 19, 20, 22}, {30, 2, 4, 5, 6, 8, 9, 13, 14, 15, 16, 17, 20, 21, 23}, {30, 1, 3, 5, 6, 7, 9, 10, 14, 15, 16, 17, 18, 21, 22, 24}, {29, 3, 5, 6, 8, 9, 10, 11, 13, 15, 19, 22, 23, 24} };
static int bit(U w, int n) { return (w >> (30 - n)) & 1; }
static U parity(U data, U prev) { U p = 0; for (auto& e : equations) { int b = bit(prev, e[0]); for (size_t k = 1; k < e.size(); k++) b ^= bit(data, e[k]); p = p << 1 | b; } return p; }
static U encode(U data, U prev, bool nib) { data &= 0x3fffffc0; if (nib) for (int t = 0; t < 4; t++) { U d = (data & ~0xc0u) | (t << 6); if (!(parity(d, prev) & 3)) { data = d; break; } } return data | parity(data, prev); }
static void setBits(U* sf, int b, int n, U v) { for (int k = 0; k < n; k++) { int x = b - 1 + k; U m = 1u << (29 - x % 30); if ((v >> (n - 1 - k)) & 1) sf[x / 30] |= m; else sf[x / 30] &= ~m; } }
static U getB(const U* sf, int b, int n) { U v = 0; for (int k = 0; k < n; k++) v = v << 1 | bit(sf[(b - 1 + k) / 30], (b - 1 + k) % 30 + 1); return v; }

struct Sub : LNavFilterData { U w[10]; Sub() { sf = w; for (U& x : w) x = 0; prn = 0; } };
   // the data of a subframe, upright, with parity
static void genSub(G& g, U* w, int sfid, U tow)
{
   int kind = g.below(8); for (int k = 0; k < 10; k++) w[k] = kind == 0 ? 0 : kind <= 2 ? 0x2aaaaa80 : g.bits(32) & 0x3fffffff;
   if (kind == 1) { int n = g.range(0, 2); for (int i = 0; i < n; i++) { int k = g.range(2, 9), b = g.range(1, 24); w[k] ^= 1u << (30 - b); } }
   if (kind) { setBits(w, 1, 8, g.oneIn(10) ? g.pick(vector<U>{0x8a, 0x74, 0x0b, 0}) : 0x8b); setBits(w, 31, 17, tow); setBits(w, 50, 3, sfid); if (sfid > 3 && g.flag() && kind != 1) setBits(w, 61, 8, g.bits(8)); for (int k = 0; k < 10; k++) w[k] = encode(w[k], k ? w[k - 1] : 0, k == 1 || k == 9); }
   int errs = g.oneIn(3) ? g.range(1, 3) : 0; for (int k = 0; k < errs; k++) w[g.below(10)] ^= 1u << g.below(30);
}
   // the words as transmitted, or all of them inverted
static void uncook(U* w) { for (int k = 9; k > 0; k--) if (w[k - 1] & 1) w[k] ^= 0x3fffffc0; }
static void flip(U* w) { for (int k = 0; k < 10; k++) w[k] ^= 0x3fffffff; }
static bool refParity(const U* w) { for (int k = 0; k < 10; k++) if ((w[k] & 63) != parity(w[k] & 0x3fffffc0, k ? w[k - 1] : 0)) return false; return true; }
static void refCook(U* w) { if (getB(w, 1, 8) == 0x74) flip(w); if (getB(w, 1, 8) != 0x8b) return; for (int k = 1; k < 10; k++) if (w[k - 1] & 1) w[k] ^= 0x3fffffc0; }
static bool refEmpty(const U* w) { bool z = true; for (int k = 0; k < 10; k++) z &= w[k] == 0; if (z) return true; U id = getB(w, 50, 3); if (id != 4 && id != 5) return false; for (int b = 69; b <= 300; b++) { int i = (b - 1) % 30 + 1; if (i <= 24 && bit(w[(b - 1) / 30], i) != i % 2) return false; } return true; }
static bool refHow(const U* w) { U id = getB(w, 50, 3); return getB(w, 1, 8) == 0x8b && (w[1] & 3) == 0 && getB(w, 31, 17) < 100800 && id >= 1 && id <= 5; }
static string show(const U* w) { string s; for (int k = 0; k < 10; k++) s += pbt::strf(" %08x", w[k]); return s; }

PROP(lnav, 125000, 1250000, "a subframe that some filter rejects")
{
   int n = g.range(1, 6); deque<Sub> sub(n), cooked; L in; bool rej = false;
   for (auto& s : sub) { genSub(g, s.w, g.oneIn(8) ? g.range(0, 7) : g.range(1, 5), g.oneIn(6) ? g.range(100790, 131071) : g.range(0, 100799)); if (g.oneIn(4)) uncook(s.w); if (g.oneIn(4)) flip(s.w); in.push_back(&s); g << show(s.w) << ";"; rej |= !refParity(s.w) || refEmpty(s.w) || !refHow(s.w); } g.nontrivial(rej); cooked = sub;
   auto run = [&](NavFilter& f, const string& what, bool (*ok)(const U*)) { L out, wantOut, wantRej; f.rejected.clear(); L copy = in; f.validate(copy, out); for (auto& s : sub) (ok(s.w) ? wantOut : wantRej).push_back(&s); if (out != wantOut || f.rejected != wantRej) pbt::fail(pbt::strf("%s accepts %d of %d, wanted %d (or other ones)", what.c_str(), (int)out.size(), n, (int)wantOut.size())); L fin; f.finalize(fin); REQUIRE(fin.empty(), what << ": finalize gives messages"); REQ_EQ(f.processingDepth(), 0u, what << " depth"); int k = 0; for (auto& s : sub) { for (int i = 0; i < 10; i++) REQ_EQ(s.w[i], cooked[k].w[i], what << " changed a word"); k++; } };
   LNavParityFilter par; LNavEmptyFilter emp; LNavTLMHOWFilter how; LNavAlmValFilter alm; run(par, "parity", refParity); run(emp, "empty", [](const U* w) { return !refEmpty(w); }); run(how, "TLM and HOW", refHow); run(alm, "almanac values", [](const U*) { return true; });
   LNavCookFilter cook; L out; cook.validate(in, out); REQUIRE(out == in && cook.rejected.empty(), "the cook filter passes all"); for (auto& s : cooked) refCook(s.w); for (int k = 0; k < n; k++) for (int i = 0; i < 10; i++) REQ_EQ(sub[k].w[i], cooked[k].w[i], "cooked word " << i << " of " << k);
}
PROP(cooking, 100000, 1000000, "a subframe received inverted")
{
   Sub a, b; int sfid = g.range(1, 5); U tow = g.range(0, 100799); for (int k = 0; k < 10; k++) a.w[k] = g.bits(32); setBits(a.w, 1, 8, 0x8b); setBits(a.w, 31, 17, tow); setBits(a.w, 50, 3, sfid); for (int k = 0; k < 10; k++) a.w[k] = encode(a.w[k], k ? a.w[k - 1] : 0, k == 1 || k == 9); b = a; b.sf = b.w; g << show(a.w); uncook(b.w); bool inv = g.flag(); if (inv) flip(b.w); g.nontrivial(inv); NavFilterMgr m; LNavCookFilter c; LNavParityFilter p; LNavTLMHOWFilter h; m.addFilter(&c); m.addFilter(&p); m.addFilter(&h); L out = m.validate(&b); REQUIRE(out.size() == 1 && out.front() == &b && m.rejected.empty(), "a subframe as transmitted passes"); for (int i = 0; i < 10; i++) REQ_EQ(b.w[i], a.w[i], "word " << i << " after cooking");
}
   // voting over a history of epochs, subframes or CNAV messages
static CommonTime base() { return GPSWeekSecond(2000, 302400, TimeSystem::GPS); }
template <class D, class F, class Mk> static void voting(G& g, F& f, size_t least, size_t total, Mk mk)
{
   int epochs = g.range(1, 6), contents = g.range(1, 4); deque<D> pool; bool tie = false; vector<vector<D*> > all; vector<D*> order;
   int t = 0; for (int e = 0; e < epochs; e++) { int n = g.range(1, 9), prns = g.range(1, 3); all.emplace_back(); for (int k = 0; k < n; k++) { pool.emplace_back(); D& d = pool.back(); d.prn = g.range(1, prns); d.timeStamp = base() + 6.0 * t; d.stationID = pbt::strf("s%d", k); mk(d, g.below(contents)); all.back().push_back(&d); order.push_back(&d); g << "(" << t << " " << (int)d.prn << " " << mk(d, -1) << ")"; } t += g.oneIn(4) ? g.range(-3, -1) : g.range(1, 3); }
   size_t at = 0; set<NavFilterKey*> seen; vector<L> got; size_t released = 0, epochEnd = 0; vector<size_t> ends; for (auto& v : all) { epochEnd += v.size(); ends.push_back(epochEnd); }
   L acc, rej; auto checkCount = [&](size_t should, const char* what) { size_t have = acc.size() + rej.size(); REQ_EQ(have, should, what); };
   while (at < order.size()) { int n = g.range(1, 6); L in, out; for (int k = 0; k < n && at < order.size(); k++) in.push_back(order[at++]); f.rejected.clear(); f.validate(in, out); acc.insert(acc.end(), out.begin(), out.end()); rej.insert(rej.end(), f.rejected.begin(), f.rejected.end()); size_t cur = 0; while (ends[cur] < at) cur++; checkCount(cur ? ends[cur - 1] : 0, "messages out: those of the epochs before the last"); (void)released; }
   L out; f.rejected.clear(); f.finalize(out); acc.insert(acc.end(), out.begin(), out.end()); rej.insert(rej.end(), f.rejected.begin(), f.rejected.end()); checkCount(order.size(), "messages out after finalize"); for (auto* p : acc) REQUIRE(seen.insert(p).second, "a message twice"); for (auto* p : rej) REQUIRE(seen.insert(p).second, "a message twice");
   set<NavFilterKey*> ok(acc.begin(), acc.end()); bool nt = false;
   for (auto& v : all) { map<U, map<int, vector<D*> > > by; for (D* d : v) by[d->prn][mk(*d, -1)].push_back(d); for (auto& p : by) { size_t n = 0, best = 0; for (auto& c : p.second) { n += c.second.size(); best = std::max(best, c.second.size()); } bool any = n >= total && best >= least; int winners = 0, tied = 0; for (auto& c : p.second) { size_t in = 0; for (D* d : c.second) in += ok.count(d); REQUIRE(in == 0 || in == c.second.size(), "identical messages treated differently"); if (in) { winners++; REQUIRE(c.second.size() == best && any, "a minority of " << in << " of " << n << " accepted"); } if (c.second.size() == best) tied++; } REQ_EQ(winners, any ? 1 : 0, "winning contents of " << n << " messages, most votes " << best); tie |= tied > 1; nt |= any && p.second.size() > 1; } } (void)tie; g.nontrivial(nt); out.clear(); f.rejected.clear(); f.finalize(out); REQUIRE(out.empty() && f.rejected.empty(), "a second finalize gives nothing");
}
PROP(lnavVote, 60000, 600000, "a vote won against other contents")
{
   LNavCrossSourceFilter f; voting<Sub>(g, f, 2, 3, [](Sub& s, int c) { if (c >= 0) { s.sf = s.w; for (int k = 0; k < 10; k++) s.w[k] = 5; s.w[c * 3] ^= 1u << (7 * c); } for (int k = 0; k < 4; k++) if (s.w[k * 3] != 5) return k; return -1; }); REQ_EQ(f.processingDepth(), 1u, "depth");
}
struct Msg : CNavFilterData { std::unique_ptr<PackedNavBits> own; int content; Msg() : content(0) { pnb = 0; prn = 0; } void make(const vector<bool>& b, const CommonTime& t, int prn) { own.reset(new PackedNavBits(SatID(prn, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L2, TrackingCode::L2CML), "rx", t)); for (bool x : b) own->addUnsignedLong(x, 1, 1); own->trimsize(); loadData(own.get()); } };
static vector<bool> bitsOf(const PackedNavBits& p) { vector<bool> v; for (size_t k = 0; k < p.getNumBits(); k++) v.push_back(p.asBool(k)); return v; }
static void put(vector<bool>& b, int at, int n, U v) { for (int k = 0; k < n; k++) b[at + k] = (v >> (n - 1 - k)) & 1; }
static U get(const vector<bool>& b, int at, int n) { U v = 0; for (int k = 0; k < n; k++) v = v << 1 | b[at + k]; return v; }
PROP(cnavVote, 40000, 400000, "a vote won against other contents")
{
   CNavCrossSourceFilter f; size_t least = 2; if (g.flag()) { least = g.range(1, 4); f.setMinIdentical(least); } REQ_EQ(f.getMinIdentical(), least, "minimum"); g << "minimum " << least; voting<Msg>(g, f, least, least, [](Msg& s, int c) { if (c >= 0) { vector<bool> b(300); put(b, 40, 8, 0x5a); b[c * 99] = true; CommonTime t = s.timeStamp; int p = s.prn; s.make(b, t, p); s.content = c; } return s.content; });
}
static U crc(const vector<bool>& b) { U r = 0; for (bool x : b) { r ^= (U)x << 23; r = r & 0x800000 ? (r << 1) ^ 0x1864cfb : r << 1; } return r & 0xffffff; }
PROP(cnav, 40000, 400000, "a message that some filter rejects")
{
   int n = g.range(1, 4); deque<Msg> msg(n); vector<vector<bool> > bits; L in; bool rej = false;
   for (auto& m : msg)
   {
      vector<bool> b(300); int kind = g.below(6); for (int k = 0; k < 300; k++) b[k] = kind == 0 ? 0 : kind == 1 ? k % 2 != 0 : kind == 2 ? k % 2 == 0 : g.flag(); if (kind && g.flag()) { b[0] = b[0]; put(b, 0, 8, 0x8b); } if (g.oneIn(6)) b[g.range(36, 279)].flip(); put(b, 8, 6, g.range(1, 32)); put(b, 14, 6, g.flag() ? g.range(0, 63) : g.pick(vector<int>{0, 10, 15, 30, 39, 9, 16, 29, 40, 12, 33})); put(b, 20, 17, g.oneIn(4) ? g.range(100790, 131071) : g.range(0, 100799)); put(b, 0, 8, g.oneIn(8) ? g.bits(8) : 0x8b); vector<bool> d(b.begin(), b.begin() + 276); put(b, 276, 24, crc(d)); if (g.oneIn(3)) { int e = g.range(1, 3); for (int k = 0; k < e; k++) b[g.below(300)].flip(); } if (g.oneIn(5)) b.flip(); if (g.oneIn(20)) b.resize(g.range(277, 299)); m.make(b, base(), 7); bits.push_back(b); in.push_back(&m); for (size_t k = 0; k < b.size(); k += 30) g << get(b, k, std::min<int>(30, b.size() - k)) << " "; g << "; ";
   }
   auto empty = [](const vector<bool>& b) { bool z = true, a = true; for (int k = 38; k < 276; k++) { z &= !b[k]; a &= b[k] == ((k % 2) != 0); } return z || a; }; auto tow = [](const vector<bool>& b) { U t = get(b, 14, 6); return get(b, 0, 8) == 0x8b && get(b, 20, 17) < 100800 && (t == 0 || (t >= 10 && t <= 15) || (t >= 30 && t <= 39)); };
   auto run = [&](NavFilter& f, const string& what, std::function<bool(const vector<bool>&)> ok) { L out, wantOut, wantRej, copy = in; f.rejected.clear(); f.validate(copy, out); for (int k = 0; k < n; k++) (ok(bits[k]) ? wantOut : wantRej).push_back(&msg[k]); rej |= wantRej.size(); if (out != wantOut || f.rejected != wantRej) pbt::fail(pbt::strf("%s accepts %d of %d, wanted %d (or other ones)", what.c_str(), (int)out.size(), n, (int)wantOut.size())); for (int k = 0; k < n; k++) REQUIRE(bitsOf(*msg[k].pnb) == bits[k], what << " changed a message"); L fin; f.finalize(fin); REQUIRE(fin.empty(), what << " finalize"); };
   CNavParityFilter par; CNavEmptyFilter emp; CNavTOWFilter tw; run(par, "parity", [](const vector<bool>& b) { return crc(b) == 0; }); run(emp, "empty", [&](const vector<bool>& b) { return !empty(b); }); run(tw, "TOW", tow); g.nontrivial(rej); CNavCookFilter cook; L out; cook.validate(in, out); REQUIRE(out == in && cook.rejected.empty(), "the cook filter passes all"); for (int k = 0; k < n; k++) { if (get(bits[k], 0, 8) != 0x8b) bits[k].flip(); REQUIRE(bitsOf(*msg[k].pnb) == bits[k], "cooked message"); }
}
PROP(cnav2, 50000, 500000, "a message that is accepted")
{
   int prn = g.range(1, 63), week = g.oneIn(10) ? g.range(8100, 8191) : g.range(0, 8000), itow = g.oneIn(5) ? g.pick(vector<int>{0, 83}) : g.range(0, 83), toi = g.oneIn(4) ? g.pick(vector<int>{0, 1, 399}) : g.range(0, 399), page = g.range(1, 6); int sow = (7200 * itow + 18 * toi - 18 + 604800) % 604800; vector<bool> b(883); for (auto x : b) x = g.flag(); put(b, 0, 9, toi); put(b, 9, 13, week); put(b, 22, 8, itow); put(b, 609, 8, prn); int xw = week, xs = sow, xp = prn; bool ok = true; switch (g.below(7)) { case 0: page = g.pick(vector<int>{0, 7, 63, 33}); ok = false; break; case 1: xp = prn % 63 + 1; ok = false; break; case 2: xw = week ? week - 1 : 1; ok = false; break; case 3: xs = (sow + g.pick(vector<int>{18, 604782, 6, 1})) % 604800; ok = false; break; default:; } put(b, 617, 6, page); g << "prn " << prn << " week " << week << " itow " << itow << " toi " << toi << " page " << page << " sent " << xw << " " << xs << " by " << xp; g.nontrivial(ok); Msg m; m.make(b, GPSWeekSecond(xw, xs, TimeSystem::GPS), xp); CNav2SanityFilter f; L in{&m}, out; f.validate(in, out); REQ_EQ(out.size(), (size_t)ok, "accepted"); REQ_EQ(f.rejected.size(), (size_t)!ok, "rejected");
}
   // the two order filters
template <class F> static void ordering(G& g, F& f, unsigned depth, unsigned epoch)
{
   int n = g.range(1, 40); deque<Sub> pool; vector<Sub*> in; double t = 0; for (int k = 0; k < n; k++) { pool.emplace_back(); Sub& s = pool.back(); s.sf = s.w; t += g.oneIn(8) ? g.range(0, 4) * (double)epoch : g.oneIn(3) ? epoch : 0; double late = g.oneIn(2) ? g.range(0, depth + 1) * (double)epoch : 0; if (g.oneIn(9)) late += g.pick(vector<double>{-0.5, 0.5, 0.25}); s.timeStamp = base() + (t - late); s.prn = k; in.push_back(&s); g << (t - late) << " "; }
   vector<Sub*> held; size_t at = 0; bool dropped = false, reorder = false; double last = -1e9, span = depth * (double)epoch; auto tm = [&](NavFilterKey* p) { return p->timeStamp - base(); }; auto newest = [&] { double m = -1e18; for (Sub* s : held) m = std::max(m, tm(s)); return m; };
   while (at <= in.size())
   {
      L batch, out; bool fin = at == in.size(); f.rejected.clear(); vector<Sub*> wantRej; set<NavFilterKey*> wantOut;
      if (fin) { f.finalize(out); for (Sub* s : held) wantOut.insert(s); held.clear(); at++; }
      else { int m = g.oneIn(3) ? g.range(1, 5) : 1; double limit = held.empty() ? -1e18 : newest() - span; for (int k = 0; k < m && at < in.size(); k++) { Sub* s = in[at++]; batch.push_back(s); if (tm(s) < limit) { wantRej.push_back(s); dropped = true; } else held.push_back(s); } f.validate(batch, out); double lim = newest() - span; vector<Sub*> keep; for (Sub* s : held) if (tm(s) <= lim) wantOut.insert(s); else keep.push_back(s); held = keep; }
      REQUIRE(vector<NavFilterKey*>(f.rejected.begin(), f.rejected.end()) == vector<NavFilterKey*>(wantRej.begin(), wantRej.end()), "rejected " << f.rejected.size() << " wanted " << wantRej.size()); REQUIRE(set<NavFilterKey*>(out.begin(), out.end()) == wantOut && out.size() == wantOut.size(), "given " << out.size() << " wanted " << wantOut.size()); for (auto* p : out) { REQUIRE(tm(p) >= last, "messages out of order: " << tm(p) << " after " << last); last = tm(p); }
   }
   for (size_t k = 1; k < in.size(); k++) reorder |= tm(in[k]) < tm(in[k - 1]); g.nontrivial(reorder && dropped); REQ_EQ(f.processingDepth(), depth, "depth");
}
PROP(order, 60000, 600000, "messages out of order, some too late")
{
   unsigned depth = g.range(1, 5), epoch = g.pick(vector<int>{6, 6, 12, 18, 1, 30}); bool generic = g.flag(); g << (generic ? "NavOrder" : "LNavOrder") << " depth " << depth << " epoch " << epoch << ": "; if (generic) { NavOrderFilter f(depth, epoch); ordering(g, f, depth, epoch); } else { if (depth == 3 && epoch == 6) { LNavOrderFilter f; ordering(g, f, 3, 6); } else { LNavOrderFilter f(depth, epoch); ordering(g, f, depth, epoch); } }
}
   // ephemerides put together from the subframes of several sources
PROP(ephmaker, 60000, 600000, "an ephemeris completed after one that was not")
{
   LNavEphMaker f; deque<Sub> pool; struct Src { string st, rx; U prn; int carrier, code; Sub* sf[3]; }; vector<Src> src; int ns = g.range(1, 4); for (int k = 0; k < ns; k++) src.push_back(Src{g.flag() ? "a" : "b", g.flag() ? "x" : "y", (U)g.range(1, 2), g.range(0, 1), g.range(0, 1), {0, 0, 0}}); int n = g.range(1, 40); vector<U> tow(ns, 1 + 5 * g.range(0, 20000)), iod(ns, g.range(0, 255)); vector<int> next(ns, 1); map<string, vector<Sub*> > groups; bool bad = false, nt = false; int done = 0;
   while (done < n)
   {
      int m = g.range(1, 4); L in, out; vector<Sub*> others; vector<string> complete; for (int k = 0; k < m; k++)
      {
         int s = g.below(ns); if (g.oneIn(10)) { tow[s]++; next[s] = next[s] % 5 + 1; } if (next[s] == 1 && g.oneIn(3)) iod[s] = g.range(0, 255); int id = next[s]; pool.emplace_back(); Sub& b = pool.back(); b.sf = b.w; for (U& x : b.w) x = g.bits(32) & 0x3fffffff; setBits(b.w, 31, 17, tow[s]); setBits(b.w, 50, 3, id); if (id == 1) setBits(b.w, 211, 8, iod[s]); if (id == 2) setBits(b.w, 61, 8, g.oneIn(8) ? iod[s] ^ 1 : iod[s]); if (id == 3) setBits(b.w, 271, 8, g.oneIn(8) ? iod[s] ^ 128 : iod[s]); tow[s] = (tow[s] + 1) % 100800; next[s] = next[s] % 5 + 1; Src& c = src[s]; b.stationID = c.st; b.rxID = c.rx; b.prn = c.prn; b.carrier = c.carrier ? CarrierBand::L2 : CarrierBand::L1; b.code = c.code ? TrackingCode::Y : TrackingCode::CA; g << "(" << s << " " << id << " " << tow[s] << " " << iod[s] << ")"; in.push_back(&b); done++; if (id > 3) { others.push_back(&b); continue; }
         string key = pbt::strf("%s/%s/%d/%d/%d", c.st.c_str(), c.rx.c_str(), (int)c.prn, c.carrier, c.code); auto& gr = groups[key]; if (gr.empty()) gr.resize(3, 0); gr[id - 1] = &b; if (!gr[0] || !gr[1] || !gr[2]) continue; U t1 = getB(gr[0]->w, 31, 17), t2 = getB(gr[1]->w, 31, 17), t3 = getB(gr[2]->w, 31, 17), i1 = getB(gr[0]->w, 211, 8); if (t2 != t1 + 1 || t3 != t2 + 1 || getB(gr[1]->w, 61, 8) != i1 || getB(gr[2]->w, 271, 8) != i1) { bad = true; continue; } complete.push_back(key); nt |= bad;
      }
      f.rejected.clear(); f.validate(in, out); REQUIRE(f.rejected.empty(), "nothing is rejected"); REQUIRE(vector<NavFilterKey*>(out.begin(), out.end()) == vector<NavFilterKey*>(others.begin(), others.end()), "the other subframes pass"); REQ_EQ(f.completeEphs.size(), complete.size(), "complete ephemerides"); int i = 0; for (auto* e : f.completeEphs) { auto& w = groups[complete[i++]]; REQUIRE(e->size() == 3 && (*e)[0] == w[0] && (*e)[1] == w[1] && (*e)[2] == w[2], "the subframes of ephemeris " << i); }
   }
   g.nontrivial(nt); L out; f.finalize(out); REQUIRE(out.empty() && f.completeEphs.empty() && f.ephemerides.empty(), "finalize");
}
   // the manager with filters that hold, drop and pass by rules of their own
struct Rule : NavFilter
{
   int drop, delay; deque<NavFilterKey*> held; string name; Rule(int d, int l) : drop(d), delay(l) {}
   bool bad(NavFilterKey* p) const { return drop && p->prn % drop == 0; }
   void validate(NavMsgList& in, NavMsgList& out) override { for (auto* p : in) { held.push_back(p); } while ((int)held.size() > delay) { auto* p = held.front(); held.pop_front(); if (bad(p)) reject(p); else accept(p, out); } }
   void finalize(NavMsgList& out) override { while (!held.empty()) { auto* p = held.front(); held.pop_front(); if (bad(p)) reject(p); else accept(p, out); } }
   unsigned processingDepth() const throw() override { return delay; } string filterName() const throw() override { return "Rule"; }
};
PROP(manager, 75000, 750000, "two filters that hold messages and reject some")
{
   NavFilterMgr m; deque<Rule> f; int nf = g.range(0, 4); unsigned depth = 1; int hold = 0; for (int k = 0; k < nf; k++) { f.emplace_back(g.flag() ? g.range(2, 5) : 0, g.flag() ? g.range(1, 4) : 0); m.addFilter(&f.back()); depth += f.back().delay; hold += f.back().delay && f.back().drop; g << "[drop " << f.back().drop << " hold " << f.back().delay << "] "; } g.nontrivial(hold >= 2); REQ_EQ(m.processingDepth(), depth, "depth"); int n = g.range(0, 25), rounds = g.range(1, 2); deque<LNavFilterData> d; vector<U> passed; vector<map<U, int> > rejected(nf);
      // the model: each filter is a queue
   vector<deque<U> > q(nf); vector<set<U> > mrej; std::function<void(int, U, vector<U>&)> push = [&](int k, U p, vector<U>& out) { if (k == nf) { out.push_back(p); return; } q[k].push_back(p); while ((int)q[k].size() > f[k].delay) { U x = q[k].front(); q[k].pop_front(); if (f[k].drop && x % f[k].drop == 0) mrej[k].insert(x); else push(k + 1, x, out); } };
   auto compare = [&](const L& out, const vector<U>& want, const char* what) { vector<U> got; for (auto* p : out) got.push_back(p->prn); REQUIRE(got == want, what << ": " << got.size() << " messages pass, wanted " << want.size()); set<NavFilter*> listed; for (int k = 0; k < nf; k++) { set<U> r; for (auto* p : f[k].rejected) REQUIRE(r.insert(p->prn).second, what << ": rejected twice"); REQUIRE(r == mrej[k], what << ": filter " << k << " has rejected " << r.size() << " wanted " << mrej[k].size()); if (!r.empty()) listed.insert(&f[k]); } REQUIRE(m.rejected == listed, what << ": " << m.rejected.size() << " filters listed with rejected messages, wanted " << listed.size()); };
   U id = 1; for (int r = 0; r < rounds; r++) { for (int k = 0; k < n; k++) { d.emplace_back(); d.back().prn = id++; vector<set<U> > before; mrej.assign(nf, set<U>()); vector<U> want; push(0, d.back().prn, want); L out = m.validate(&d.back());
            // a filter that got nothing in this call keeps its list of before: only those the manager lists count
         for (int j = 0; j < nf; j++) if (!m.rejected.count(&f[j])) f[j].rejected.clear(); compare(out, want, "validate"); } mrej.assign(nf, set<U>()); vector<U> want; for (int k = 0; k < nf; k++) { while (!q[k].empty()) { U x = q[k].front(); q[k].pop_front(); if (f[k].drop && x % f[k].drop == 0) mrej[k].insert(x); else push(k + 1, x, want); } } L out = m.finalize(); vector<U> got; for (auto* p : out) got.push_back(p->prn); compare(out, want, "finalize"); }
}
PROP(chain, 30000, 300000, "a message rejected in finalize")
{
      // real filters in the usual order; what goes in comes out once
   NavFilterMgr m; LNavCookFilter cook; LNavParityFilter par; LNavEmptyFilter emp; LNavTLMHOWFilter how; LNavCrossSourceFilter vote; LNavOrderFilter ord; vector<NavFilter*> fs{&ord, &cook, &par, &emp, &how, &vote}; vector<NavFilter*> use; for (auto* x : fs) if (g.oneIn(5) == false) use.push_back(x); if (g.oneIn(3)) g.shuffle(use); for (auto* x : use) { m.addFilter(x); g << x->filterName() << " "; } deque<Sub> pool; map<NavFilterKey*, int> times; int n = g.range(1, 40); int t = 0; bool late = false; auto take = [&](const L& out, bool fin) { for (auto* p : out) times[p]++; for (auto* x : m.rejected) for (auto* p : x->rejected) { times[p]++; late |= fin; } };
   vector<Sub> last; for (int k = 0; k < n; k++) { if (g.oneIn(3)) t += g.range(1, 2); pool.emplace_back(); Sub& s = pool.back(); s.sf = s.w; if (!last.empty() && g.flag()) { for (int i = 0; i < 10; i++) s.w[i] = last.back().w[i]; } else { genSub(g, s.w, 1 + t % 5, (1000 + t) % 100800); last.push_back(s); } s.prn = g.range(1, 2); s.timeStamp = base() + 6.0 * (t - (g.oneIn(8) ? g.range(0, 5) : 0)); g << t << show(s.w) << ";"; take(m.validate(&s), false); } take(m.finalize(), true); g.nontrivial(late); for (auto& s : pool) REQ_EQ(times[&s], 1, "times a message came out, accepted or rejected"); REQ_EQ(times.size(), pool.size(), "messages");
}
   // the three ways the data of a message can be kept
PROP(getbits, 150000, 1500000, "bits over a word boundary")
{
   int n = 300; vector<bool> b(n); for (auto x : b) x = g.flag(); int num = g.range(1, 32), start = g.range(1, n - num + 1); if (g.flag()) start = std::max(1, std::min<int>(n - num + 1, 30 * (int)g.range(1, 10) + (int)g.range(-num - 1, 1))); g << "start " << start << " num " << num; U want = get(b, start - 1, num); g.nontrivial((start - 1) / 30 != (start - 2 + num) / 30); vector<int8_t> bytes(b.begin(), b.end()); NavMsgDataBits mb; mb.sf = bytes.data(); REQ_EQ(mb.getBits(start, num), want, "bits"); vector<U> w30(10), w32(10); for (int k = 0; k < n; k++) { if (b[k]) { w30[k / 30] |= 1u << (29 - k % 30); w32[k / 32] |= 1u << (31 - k % 32); } } NavMsgDataWords<30> m30; m30.sf = w30.data(); REQ_EQ(m30.getBits(start, num), want, "words of 30 bits"); NavMsgDataWords<32> m32; m32.sf = w32.data(); REQ_EQ(m32.getBits(start, num), want, "words of 32 bits"); Msg m; m.make(b, base(), 1); NavMsgDataPNB mp; mp.sf = m.pnb; REQ_EQ(mp.getBits(start, num), want, "packed bits");
}
PBT_MAIN
