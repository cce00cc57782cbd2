// T06: TimeRange as a set of instants.
#include "timegen.hpp"
#include "TimeRange.hpp"
#include "CivilTime.hpp"
#include "TimeString.hpp"
using namespace gpstk; using namespace tg; using pbt::G;

   // instants on a grid of milliseconds, so that equality of times is not a matter of rounding
struct R { long a, b; bool ia, ib; bool empty() const { return a == b && !(ia && ib); } bool has(long x) const { return (x > a || (x == a && ia)) && (x < b || (x == b && ib)) ; }
      // on the half grid: 2x denotes x, odd numbers lie strictly between
   bool has2(long x2) const { return (x2 > 2 * a || (x2 == 2 * a && ia)) && (x2 < 2 * b || (x2 == 2 * b && ib)); } };
static CommonTime at(long ms, const Inst& o, TimeSystem ts) { CommonTime t = make(o, ts); t.addMilliseconds(ms); return t; }
static std::string s(const R& r) { return pbt::strf("%c%ld, %ld%c", r.ia ? '[' : '(', r.a, r.b, r.ib ? ']' : ')'); }
static R gen(G& g, const R* other, long span)
{
   R r; r.ia = g.flag(); r.ib = g.flag();
   auto end = [&]() -> long { if (other && g.flag(2, 3)) { long e = g.flag() ? other->a : other->b; return g.flag() ? e : e + g.rangeO(-2, 2, 0); } return g.range(0, span); };
   long x = end(), y = end(); r.a = std::min(x, y); r.b = std::max(x, y); return r;
}
static Inst origin(G& g) { Inst i; i.jd = genDay(g, 1000000, 3400000); i.sod = genSod(g); i.frac = g.flag() ? 0 : g.range(0, 999) / 1000.0; return i; }

PROP(membership_and_relations, 300000, 4000000, "two non-empty ranges sharing an end instant")
{
   Inst o = origin(g); TimeSystem ts = g.pick(gp::systems()); long span = g.pick<long>({5, 20, 1000, 86400000, 3000000000L});
   R p = gen(g, nullptr, span), q = gen(g, &p, span); g << "origin " << str(o) << " P=" << s(p) << " Q=" << s(q) << " (ms)";
   CommonTime pa = at(p.a, o, ts), pb = at(p.b, o, ts), qa = at(q.a, o, ts), qb = at(q.b, o, ts);
   TimeRange P = g.flag() ? TimeRange(pa, pb, p.ia, p.ib) : TimeRange(std::make_pair(pa, pb), p.ia, p.ib), Q; Q.set(qa, qb, q.ia, q.ib);
   REQUIRE(P.getStart() == pa && P.getEnd() == pb, "ends");
   for (int k = 0; k < 6; ++k)
   {
      long x = k < 4 ? (k & 1 ? p.a : p.b) + g.rangeO(-1, 1, 0) : g.range(-5, span + 5);
      REQUIRE(P.inRange(at(x, o, ts)) == p.has(x) || p.empty(), "instant " << x << " in " << s(p) << " expected " << p.has(x));
      REQUIRE(Q.inRange(at(x, o, ts)) == q.has(x) || q.empty(), "instant " << x << " in " << s(q) << " expected " << q.has(x));
   }
   REQUIRE((P == Q) == (p.a == q.a && p.b == q.b && p.ia == q.ia && p.ib == q.ib), "equality"); TimeRange C(P); REQUIRE(C == P, "copy");
      // documented: start not before and end not after, whatever the inclusion flags
   REQUIRE(P.isSubsetOf(Q) == (p.a >= q.a && p.b <= q.b), "isSubsetOf");
   if (!p.empty() && !q.empty())
   {
         // a witness of a common instant can only be at an end or strictly between neighbouring ends
      bool common = false, before = true, after = true; std::vector<long> c; for (long e : {p.a, p.b, q.a, q.b}) for (int d = -1; d <= 1; ++d) c.push_back(2 * e + d);
      for (long x : c) if (p.has2(x) && q.has2(x)) common = true;
      for (long x : c) for (long y : c) if (p.has2(x) && q.has2(y)) { if (!(x < y)) before = false; if (!(x > y)) after = false; }
      REQUIRE(P.overlaps(Q) == common, "overlaps expected " << common); REQUIRE(Q.overlaps(P) == common, "overlaps is symmetric");
      REQUIRE(P.isPriorTo(Q) == before, "isPriorTo expected " << before); REQUIRE(P.isAfter(Q) == after, "isAfter expected " << after);
      REQUIRE(Q.isPriorTo(P) == after && Q.isAfter(P) == before, "converse");
      REQUIRE(P.isPriorTo(Q) + P.overlaps(Q) + P.isAfter(Q) == 1, "exactly one relation");
      if (p.a == q.a || p.a == q.b || p.b == q.a || p.b == q.b) g.nontrivial();
   }
      // ordering of starts (an inclusive start comes before an exclusive one at the same instant)
   auto key = [](const R& r) { return 2 * r.a + (r.ia ? 0 : 1); };
   REQUIRE((P < Q) == (key(p) < key(q)) && (Q < P) == (key(q) < key(p)), "operator<");
}
PROP(set_of_ranges, 20000, 100000, "two ranges with different starts")
{
   Inst o = origin(g); int n = g.range(1, 12); std::set<TimeRange> S; std::set<std::pair<long, int>> K; bool two = false;
   for (int k = 0; k < n; ++k) { R r = gen(g, nullptr, 30); g << s(r) << " "; S.insert(TimeRange(at(r.a, o, TimeSystem::GPS), at(r.b, o, TimeSystem::GPS), r.ia, r.ib)); K.insert({r.a, r.ia ? 0 : 1}); if (K.size() > 1) two = true; }
   g.nontrivial(two); REQUIRE(S.size() == K.size(), "a set of ranges holds " << S.size() << " of " << K.size() << " distinct starts");
   auto k = K.begin(); for (auto& r : S) { REQUIRE(r.getStart() == at(k->first, o, TimeSystem::GPS), "order"); ++k; }
}
PROP(refusal, 60000, 300000, "always")
{
   g.nontrivial(); Inst o = origin(g); long d = g.pick<long>({1, 2, 1000, 86400000, 1}); if (g.flag()) d = g.range(1, 100000000);
   CommonTime a = at(0, o, TimeSystem::GPS), b = at(d, o, TimeSystem::GPS); g << "end " << d << " ms before start";
   int threw = 0; TimeRange keep(a, b, true, false), t(keep);
   try { TimeRange x(b, a, g.flag(), g.flag()); } catch (TimeRange::TimeRangeException&) { ++threw; }
   try { TimeRange x(std::make_pair(b, a)); } catch (TimeRange::TimeRangeException&) { ++threw; }
   try { t.set(b, a, g.flag(), g.flag()); } catch (TimeRange::TimeRangeException&) { ++threw; }
   REQUIRE(threw == 3, "end before start must be refused, refused " << threw << " of 3"); REQUIRE(t == keep, "a refused set() leaves the range");
}
PROP(text_round_trip, 60000, 400000, "an exclusive end and spaces or missing brackets")
{
   Inst o; o.jd = genDay(g, 2440588, 2465442); o.sod = genSod(g); o.frac = 0; long len = g.flag() ? g.range(0, 100) : g.range(0, 1000000000L); TimeSystem ts = g.pick({TimeSystem::GPS, TimeSystem::UTC, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::GLO, TimeSystem::TAI});
   CommonTime a = make(o, ts), b(a); b.addSeconds(len); bool ia = g.flag(), ib = g.flag(); TimeRange r(a, b, ia, ib);
   std::string fmt = g.pick<std::string>({"%04Y/%02m/%02d %02H:%02M:%02S %P", "%04Y %03j %05.0s %P", "%02m/%02d/%04Y %02H:%02M:%02S %P", "%04Y-%b-%02d %02H:%02M:%02S %P"});
   std::string p = r.printf(fmt), text; g << pbt::q(p);
   std::string want = (ia ? "[" : "(") + printTime(a, fmt) + ", " + printTime(b, fmt) + (ib ? "]" : ")"); REQ_EQ(p, want, "printed form");
   text = p; if (g.flag()) text = g.str(" \t\n", 0, 4) + text; if (ia && g.oneIn(3)) { text = text.substr(text.find('[') + 1); g.nontrivial(); } if (ib && g.oneIn(3)) { text = text.substr(0, text.size() - 1); g.nontrivial(); }
   if (g.flag()) { size_t c = text.find(", "); text = text.substr(0, c + 1) + g.str(" ", 0, 3) + text.substr(c + 2); }
   if (g.oneIn(4) && (text.back() == 93 || text.back() == 41)) text += g.str(" \n", 0, 2);
   g << " from " << pbt::q(text); g.nontrivial(!ib || !ia);
   TimeRange back; REQUIRE(&back.setToString(text, fmt) == &back, ""); 
   REQUIRE(back.getStart() == a && back.getEnd() == b && back.getStart().getTimeSystem() == ts && back.getEnd().getTimeSystem() == ts, "read " << back.printf(fmt));
   TimeRange exact(a, b, ia, ib); REQUIRE(back == exact, "inclusion flags: " << back.printf(fmt));
      // end before start in text is refused
   if (len > 0) { std::string bad = "[" + printTime(b, fmt) + ", " + printTime(a, fmt) + "]"; bool threw = false; try { TimeRange x; x.setToString(bad, fmt); } catch (TimeRange::TimeRangeException&) { threw = true; } REQUIRE(threw, pbt::q(bad) << " must be refused"); }
}
PBT_MAIN
