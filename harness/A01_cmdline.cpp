// A01: command lines: CommandOptionParser, CommandLine and the application frames.
#include "timegen.hpp"
#include "CommandOptionParser.hpp"
#include "CommandOptionWithTimeArg.hpp"
#include "CommandOptionWithCommonTimeArg.hpp"
#include "CommandOptionWithPositionArg.hpp"
#include "CommandLine.hpp"
#include "BasicFramework.hpp"
#include "LoopedFramework.hpp"
#include "InOutFramework.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "logstream.hpp"
#include <array>
#include <fstream>
#include <memory>
#include <sstream>
#include <cstring>
using namespace gpstk; using namespace tg; using pbt::G;
typedef std::vector<std::string> VS;

   // the strings stay allocated: getopt keeps a pointer into the last argument vector, as with the one of main
struct Argv { std::vector<char*> p; VS s;
   Argv(const VS& v) : s(v) { for (auto& x : v) { char* m = (char*)malloc(x.size() + 1); memcpy(m, x.c_str(), x.size() + 1); p.push_back(m); } p.push_back(nullptr); }
   int n() const { return (int)s.size(); }
   bool same() const { for (size_t k = 0; k < s.size(); ++k) if (s[k] != p[k]) return false; return true; } };
static std::string squeeze(const std::string& s) { std::istringstream i(s); std::string w, r; while (i >> w) r += (r.empty() ? "" : " ") + w; return r; }
static std::string joined(const VS& v) { std::string r; for (auto& x : v) r += " " + pbt::q(x); return r; }
static VS linesOf(const std::string& s) { VS r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }

   // ---- the reference: GNU conventions for options, stopping at the first argument that is none
enum Kind { NoArg, Any, Number, Decimal, Alpha, STime, CTime, Pos, Help, HelpText, NKinds };
struct Opt { Kind k; char sh; std::string lo, desc; bool req; unsigned long maxc = 0; std::shared_ptr<CommandOption> o;
      // expectations
   VS val; std::vector<unsigned long> ord; unsigned long cnt = 0;
   bool arg() const { return k != NoArg && k != Help && k != HelpText; }
   std::string shown() const { return sh ? std::string("-") + sh + (lo.empty() ? "" : " | --" + lo) : "--" + lo; }
   std::string full() const { static const char* an[] = {"", "ARG", "NUM", "DEC", "<alpha>", "TIME", nullptr, "POSITION", "", ""}; std::string a = k == CTime ? ctarg : an[k] ? an[k] : "";
      std::string r = sh ? std::string("-") + sh + (lo.empty() ? arg() ? " " + a : "" : ", --" + lo + (arg() ? "=" + a : "")) : "--" + lo + (arg() ? "=" + a : ""); return r; }
   static std::string ctarg; };
std::string Opt::ctarg;
static bool digits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }
static bool decimal(const std::string& s0) { std::string s = s0; if (!s.empty() && (s[0] == '-' || s[0] == '+')) s.erase(0, 1); size_t p = s.find('.'); if (p != std::string::npos) s.erase(p, 1); return digits(s); }
static bool alpha(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) return false; return true; }
   // one argument for an option, good or bad
struct Tm { int y, mo, d, doy; double sod; int form; std::string txt; };
static Tm genTm(G& g) { Tm t; t.y = g.range(1980, 2079); t.form = g.below(3); t.mo = g.range(1, 12); t.d = g.range(1, gp::mdays(t.y, t.mo, true)); t.sod = 0; t.doy = t.d; for (int m = 1; m < t.mo; ++m) t.doy += gp::mdays(t.y, m, true);
   if (t.form == 2) t.sod = g.range(0, 86399);
   t.txt = t.form == 0 ? pbt::strf("%02d/%02d/%04d", t.mo, t.d, t.y) : t.form == 1 ? pbt::strf("%04d %03d", t.y, t.doy) : pbt::strf("%04d %03d %05d", t.y, t.doy, (int)t.sod); return t; }
static std::string word(G& g) { return g.str("abcdefghijklmnopqrstuvwxyzABCXYZ", 1, 8); }
static std::string genArg(G& g, Kind k, bool& good)
{
   good = !g.oneIn(12);
   switch (k)
   {
      case Number: return good ? g.str("0123456789", 1, 9) : g.pick<std::string>({"12a", "x", "1.5", "1 2", "1e3", "0x10", "-", "+", "--5", "5-"});
      case Decimal: { std::string s = (g.oneIn(3) ? "-" : "") + g.str("0123456789", 1, 6); if (g.flag()) s += "." + g.str("0123456789", 0, 5); return good ? s : g.pick<std::string>({"-", ".", "+.", "1.2.3", "abc", "1e5", "1,5", "1.5x", "1-2"}); }
      case Alpha: return good ? word(g) : g.pick<std::string>({"ab1", "a b", "7", "a-b", "a.b"});
      case STime: return good ? genTm(g).txt : g.pick<std::string>({"1 2 3 4", "2001 100 0 5 6"});
      case CTime: good = true; return pbt::strf("%04d %03d %05d", (int)g.range(1980, 2079), (int)g.range(1, 365), (int)g.range(0, 86399));
      case Pos: return good ? pbt::strf("%d,%s%d,%s%d", (int)g.range(1000000, 5000000), g.flag() ? "-" : "", (int)g.range(1000000, 5000000), g.flag() ? "-" : "", (int)g.range(1000000, 5000000)) : g.pick<std::string>({"here"});
      default: good = true; return g.weighted({8, 1, 1, 1}) == 0 ? g.str("abcXYZ0129._/:=+ ", 1, 10) : g.pick<std::string>({"-", "--", "-x", "--foo", "a=b", ""});
   }
}
   // 1 a value of the kind, 0 not, -1 not said
static int judge(Kind k, const std::string& s)
{
   auto fits = [](const std::string& s, const char* f) { size_t i = 0; for (; f[i]; ++i) if (i >= s.size() || (f[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != f[i])) return false; return i == s.size(); };
   if (k == STime) { if (s == "1 2 3 4" || s == "2001 100 0 5 6") return 0; if (fits(s, "dd/dd/dddd")) return s < "13" && s > "01" && s[3] < '3' && s.substr(3, 2) > "00" && s.substr(6) >= "1980" && s.substr(6) < "2080" && s.substr(3, 2) < "29" ? 1 : -1; }
   if ((k == STime || k == CTime) && fits(s, k == CTime ? "dddd ddd ddddd" : s.size() > 8 ? "dddd ddd ddddd" : "dddd ddd")) return s >= "1980" && s < "2080" && s.substr(5, 3) > "000" && s.substr(5, 3) < "366" && (s.size() < 10 || s.substr(9) < "86400") ? 1 : -1;
   if (k == Pos) { if (s == "here") return 0; int n = 0; size_t i = 0; for (;; ++i) { if (i < s.size() && s[i] == '-') ++i; size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i - b != 7) return -1; ++n; if (i == s.size()) return n == 3 ? 1 : -1; if (s[i] != ',') return -1; } }
   return -1;
}
static std::shared_ptr<CommandOption> build(const Opt& o, const std::string& timeSpec)
{
   typedef std::shared_ptr<CommandOption> P;
   switch (o.k)
   {
      case NoArg: return P(new CommandOptionNoArg(o.sh, o.lo, o.desc, o.req));
      case Any: return P(new CommandOptionWithAnyArg(o.sh, o.lo, o.desc, o.req));
      case Number: return P(new CommandOptionWithNumberArg(o.sh, o.lo, o.desc, o.req));
      case Decimal: return P(new CommandOptionWithDecimalArg(o.sh, o.lo, o.desc, o.req));
      case Alpha: return P(new CommandOptionWithStringArg(o.sh, o.lo, o.desc, o.req));
      case STime: return P(new CommandOptionWithSimpleTimeArg(o.sh, o.lo, o.desc, o.req));
      case CTime: return P(new CommandOptionWithCommonTimeArg(o.sh, o.lo, timeSpec, o.desc, o.req));
      case Pos: return P(new CommandOptionWithPositionArg(o.sh, o.lo, "%x,%y,%z", o.desc, o.req));
      case Help: return P(new CommandOptionHelpUsage(o.sh, o.lo, o.desc));
      default: return P(new CommandOptionHelpSimple(o.sh, o.lo, o.desc, "help text of " + o.desc + "\n"));
   }
}
static std::vector<Opt> genOpts(G& g, int nmax, const std::vector<int>& kinds)
{
   int n = g.range(0, nmax); std::vector<Opt> v; std::string used; VS usedL;
   for (int k = 0; k < n; ++k)
   {
      Opt o; o.k = (Kind)g.pick(kinds); o.req = o.k < Help && g.oneIn(7); o.sh = 0; int form = g.below(4);
      if (form != 0) { char c = g.pick<char>({'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'A', 'B', 'C', '1', '9', '@', '%', '_', ','}); if (used.find(c) == std::string::npos) { o.sh = c; used += c; } }
      if (form != 1 || !o.sh)
      {
            // some names begin like others; an exact name wins, an unambiguous beginning will do
         std::string l = g.oneIn(4) && !usedL.empty() ? g.pick(usedL) + g.str("abc-", 1, 3) : g.pick<std::string>({"alpha", "beta", "gamma", "delta", "input", "output", "in-put", "time", "to", "x", "y1", "file_name", "max.count"}); bool dup = false; for (auto& u : usedL) dup |= u == l; if (dup) l += std::to_string(k) + "z"; o.lo = l; usedL.push_back(l);
      }
      int w = g.range(1, 9); for (int i = 0; i < w; ++i) o.desc += (i ? " " : "") + word(g);
      if (g.oneIn(5)) o.maxc = g.range(1, 2);
      v.push_back(o);
   }
   return v;
}
struct Expect { VS err; VS help; std::vector<std::string> rest; std::vector<unsigned long> restOrd; bool amb = false; };
   // which long option a name denotes: exact, else the only one that begins with it; -2 if several do
static int longOf(const std::vector<Opt>& v, const std::string& n) { int f = -1; for (size_t k = 0; k < v.size(); ++k) if (v[k].lo == n && !n.empty()) return k; for (size_t k = 0; k < v.size(); ++k) if (!v[k].lo.empty() && v[k].lo.compare(0, n.size(), n) == 0) { if (f >= 0) return -2; f = k; } return f; }
static Expect reference(std::vector<Opt>& v, const VS& a, bool rest)
{
   Expect e; unsigned long ord = 0; size_t i = 1;
   auto found = [&](Opt& o, const std::string* val) { o.cnt++; o.ord.push_back(ord); if (val) o.val.push_back(*val); if (o.k >= Help) e.help.push_back(o.k == Help ? "" : "help text of " + o.desc + "\n"); };
   for (; i < a.size(); ++i)
   {
      const std::string& s = a[i];
      if (s.size() < 2 || s[0] != '-') break;
      if (s == "--") { ++i; break; }
      if (s[1] == '-')
      {
         ++ord; size_t q = s.find('='); std::string n = s.substr(2, q == std::string::npos ? q : q - 2); int k = longOf(v, n);
         if (k == -2) { e.amb = true; return e; }
         if (k == -1) e.err.push_back(s);
         else if (!v[k].arg()) { if (q != std::string::npos) e.err.push_back(s); else found(v[k], nullptr); }
         else if (q != std::string::npos) { std::string x = s.substr(q + 1); found(v[k], &x); }
         else if (i + 1 < a.size()) { ++i; found(v[k], &a[i]); }
         else e.err.push_back(s);
         continue;
      }
      std::string c = s;
      for (size_t j = 1; j < c.size(); ++j)
      {
         ++ord; int k = -1; for (size_t q = 0; q < v.size(); ++q) if (v[q].sh == c[j]) k = q;
         if (k == -1) { e.err.push_back(std::string(1, c[j])); continue; }
         if (!v[k].arg()) { found(v[k], nullptr); continue; }
         if (j + 1 < c.size()) { std::string x = c.substr(j + 1); found(v[k], &x); }
         else if (i + 1 < a.size()) { ++i; found(v[k], &a[i]); }
         else e.err.push_back(std::string(1, c[j]));
         break;
      }
   }
   if (i < a.size()) { if (rest) for (; i < a.size(); ++i) { e.rest.push_back(a[i]); e.restOrd.push_back(++ord); } else e.err.push_back("Excess"); }
   return e;
}
static std::string argErr(const Opt& o)
{
   if (o.req && o.cnt == 0) return o.shown();
   for (auto& s : o.val)
      if ((o.k == Number && !digits(s[0] == '-' || s[0] == '+' ? s.substr(1) : s)) || (o.k == Decimal && !decimal(s)) || (o.k == Alpha && !alpha(s))) return o.shown();
   return "";
}
   // arguments for the options declared
static VS genArgs(G& g, const std::vector<Opt>& v, bool& allGood)
{
   VS a; allGood = true; int n = g.range(0, 8);
   for (int k = 0; k < n; ++k)
   {
      int f = g.weighted({10, v.empty() ? 0 : 1, 1, 1});
      if (f == 0 && !v.empty())
      {
         const Opt& o = g.pick(v); bool good; std::string x = o.arg() ? genArg(g, o.k, good) : ""; if (o.arg()) allGood &= good;
         bool useS = o.sh && (o.lo.empty() || g.flag());
         if (useS)
         {
            std::string s = std::string("-"); if (g.oneIn(4)) for (auto& p : v) if (p.sh && !p.arg() && g.flag()) s += p.sh;
            s += o.sh; if (!o.arg()) a.push_back(s); else if (g.flag() && !x.empty()) a.push_back(s + x); else { a.push_back(s); if (!g.oneIn(20)) a.push_back(x); }
         }
         else
         {
            std::string l = o.lo; if (g.oneIn(5)) { size_t c = g.range(1, (long)l.size()); l = l.substr(0, c); }
            if (!o.arg()) a.push_back("--" + l + (g.oneIn(15) ? "=x" : "")); else if (g.flag()) a.push_back("--" + l + "=" + x); else { a.push_back("--" + l); if (!g.oneIn(20)) a.push_back(x); }
         }
      }
      else if (f == 1) a.push_back(g.pick<std::string>({"--nosuch", "-z", "-Q", "--nosuch=5"}));
      else if (f == 2) { if (g.oneIn(3)) a.push_back("--"); }
      else if (g.oneIn(2)) a.push_back(g.pick<std::string>({"file", "-", "x.y", "", "a b"}));
   }
   return a;
}

PROP(parser, 600000, 6000000, "at least three options set or an error in an otherwise valid line")
{
   defaultCommandOptionList.clear(); std::string spec = "%Y %j %s"; Opt::ctarg = "TIME";
   auto v = genOpts(g, 7, {NoArg, NoArg, NoArg, Any, Any, Number, Decimal, Alpha, STime, CTime, Pos, Help, HelpText}); bool rest = g.flag(), restReq = g.oneIn(3);
   for (auto& o : v) { o.o = build(o, spec); if (o.maxc) o.o->setMaxCount(o.maxc); }
   std::unique_ptr<CommandOptionRest> R; size_t restPos = g.range(0, (long)v.size());
   if (rest) { defaultCommandOptionList.clear(); std::unique_ptr<CommandOptionRest> r(new CommandOptionRest("REST of it", restReq)); R = std::move(r); CommandOptionVec l; for (size_t k = 0; k <= v.size(); ++k) { if (k == restPos) l.push_back(R.get()); if (k < v.size()) l.push_back(v[k].o.get()); } defaultCommandOptionList = l; }
      // meta options
   struct Meta { int k; std::vector<int> m; unsigned long n, mx; bool req; std::shared_ptr<CommandOption> o; std::vector<std::shared_ptr<CommandOption>> grp; };
   std::vector<Meta> ms; int nm = v.size() >= 2 ? g.weighted({3, 2, 1}) : 0;
   for (int k = 0; k < nm; ++k)
   {
      Meta m; m.k = g.below(6); int c = g.range(2, (long)std::min<size_t>(4, v.size())); std::vector<int> idx; for (size_t q = 0; q < v.size(); ++q) idx.push_back(q); g.shuffle(idx); idx.resize(c); m.m = idx; m.req = g.flag(); m.n = g.range(0, 2); m.mx = m.n;
      switch (m.k)
      {
         case 0: { auto* p = new CommandOptionMutex(m.req); m.o.reset(p); for (int q : idx) p->addOption(v[q].o.get()); break; }
         case 1: { auto* p = new CommandOptionOneOf(); m.o.reset(p); for (int q : idx) p->addOption(v[q].o.get()); break; }
         case 2: { auto* p = new CommandOptionNOf(m.n); m.o.reset(p); for (int q : idx) p->addOption(v[q].o.get()); if (g.flag()) { m.mx = m.n + g.range(1, 2); p->setMaxCount(m.mx); } break; }
         case 3: { auto* p = new CommandOptionAllOf(); m.o.reset(p); for (int q : idx) p->addOption(v[q].o.get()); break; }
         case 4: m.m.resize(2); m.o.reset(new CommandOptionDependent(v[idx[0]].o.get(), v[idx[1]].o.get())); break;
         default: { // mutual exclusion of a group (any of, or all of) with another option
            m.m.clear(); auto* grp = m.req ? (CommandOptionGroupOr*)new CommandOptionGroupAnd() : new CommandOptionGroupOr(); m.grp.emplace_back(grp); for (size_t q = 1; q < idx.size(); ++q) grp->addOption(v[idx[q]].o.get()); auto* p = new CommandOptionMutex(false); m.o.reset(p); p->addOption(v[idx[0]].o.get()); p->addOption(grp); m.m = idx; }
      }
      ms.push_back(m);
   }
   bool allGood; VS a = genArgs(g, v, allGood); a.insert(a.begin(), g.pick<std::string>({"prog", "/usr/bin/prog", "./a/prog"}));
   g << joined(a) << " options:"; for (auto& o : v) g << " " << o.shown() << "/" << (int)o.k << (o.req ? "!" : "") << (o.maxc ? "m" : ""); for (auto& m : ms) { g << " meta" << m.k << "("; for (int q : m.m) g << q << ","; g << ")n" << m.n; } if (rest) g << " rest" << restReq;
   Expect e = reference(v, a, rest); g.assume(!e.amb);
   for (auto& o : v) if (o.k == STime || o.k == CTime || o.k == Pos) for (auto& s : o.val) g.assume(judge(o.k, s) >= 0);
      // what the checks of the options add
   auto cnt = [&](int q) { return v[q].cnt; }; VS checks;
   auto optErr = [&](size_t k) { auto& o = v[k]; std::string x = argErr(o); if (x.empty() && (o.k == STime || o.k == CTime || o.k == Pos)) for (auto& s : o.val) if (!judge(o.k, s)) x = s;
      if (!x.empty()) checks.push_back(x); if (o.maxc && o.cnt > o.maxc) checks.push_back(o.shown()); };
   for (size_t k = 0; k <= v.size(); ++k) { if (rest && k == restPos && restReq && e.rest.empty()) checks.push_back("trailing"); if (k < v.size()) optErr(k); }
   for (auto& m : ms)
   {
      int set = 0; unsigned long tot = 0; for (int q : m.m) { set += cnt(q) > 0; tot += cnt(q); } bool bad = false;
      switch (m.k) { case 0: bad = set > 1 || (m.req && !set); break; case 1: bad = !set; break; case 2: bad = tot < m.n || tot > m.mx; break; case 3: bad = set && set < (int)m.m.size(); break; case 4: bad = cnt(m.m[1]) && !cnt(m.m[0]); break;
         default: { bool grp = m.req ? true : false; for (size_t q = 1; q < m.m.size(); ++q) grp = m.req ? grp && cnt(m.m[q]) : grp || cnt(m.m[q]); bad = grp && cnt(m.m[0]); } }
      if (bad) checks.push_back(v[m.m[0]].shown());
   }
   VS want = e.err; want.insert(want.end(), checks.begin(), checks.end());
   Argv A(a); CommandOptionParser P("This is the program"); P.parseOptions(A.n(), A.p.data());
   REQUIRE(A.same(), "the arguments were changed");
   for (auto& o : v)
   {
      REQ_EQ(o.o->getCount(), o.cnt, "count of " << o.shown()); REQUIRE(o.o->getValue() == o.val, "values of " << o.shown() << ":" << joined(o.o->getValue()) << " expected" << joined(o.val));
      for (size_t k = 0; k < o.ord.size(); ++k) REQ_EQ(o.o->getOrder(k), o.ord[k], "order of " << o.shown()); REQ_EQ(o.o->getOrder(o.ord.size()), 0ul, "order beyond the last"); REQ_EQ(o.o->getOrder(), o.ord.empty() ? 0ul : o.ord.back(), "order of the last");
      if (o.k == NoArg) REQUIRE((bool)*static_cast<CommandOptionNoArg*>(o.o.get()) == (o.cnt > 0), "truth"); std::ostringstream d; o.o->dumpValue(d); std::string dv; for (auto& s : o.val) dv += s + "\n"; REQ_EQ(d.str(), dv, "dumpValue");
   }
   if (rest) { REQUIRE(R->getValue() == e.rest, "trailing arguments" << joined(R->getValue()) << " expected" << joined(e.rest)); REQ_EQ(R->getCount(), e.rest.size(), "count of trailing"); for (size_t k = 0; k < e.rest.size(); ++k) REQ_EQ(R->getOrder(k), e.restOrd[k], "order of trailing"); }
   REQUIRE(P.hasErrors() == !want.empty(), "errors expected: " << joined(want)); std::ostringstream es; P.dumpErrors(es); VS got = linesOf(es.str());
   REQUIRE(got.size() == want.size(), "errors" << joined(got) << " expected about" << joined(want)); for (size_t k = 0; k < want.size(); ++k) REQUIRE(got[k].find(want[k]) != std::string::npos, "error " << pbt::q(got[k]) << " expected about " << pbt::q(want[k]));
   REQUIRE(P.helpRequested() == !e.help.empty(), "help requested");
   { std::ostringstream h, u, all; P.printHelp(h); P.displayUsage(u); P.printHelp(all, true, false); std::string w; for (auto& x : e.help) w += x.empty() ? u.str() : x; REQ_EQ(h.str(), e.help.empty() ? "" : e.help[0].empty() ? u.str() : e.help[0], "first help"); REQ_EQ(all.str(), w, "all help"); }
   for (auto& m : ms)
   {
      int first = -1, set = 0; unsigned long tot = 0; for (int q : m.m) { if (cnt(q)) { if (first < 0) first = q; ++set; } tot += cnt(q); }
      if (m.k == 0) REQUIRE(static_cast<CommandOptionMutex*>(m.o.get())->whichOne() == (first < 0 ? nullptr : v[first].o.get()), "whichOne of a mutex");
      if (m.k == 1) REQUIRE(static_cast<CommandOptionOneOf*>(m.o.get())->whichOne() == (first < 0 ? nullptr : v[first].o.get()), "whichOne");
      if (m.k == 2) { std::vector<CommandOption*> w; for (int q : m.m) if (cnt(q)) w.push_back(v[q].o.get()); REQUIRE(static_cast<CommandOptionNOf*>(m.o.get())->which() == w, "which"); }
      if (m.k == 3) REQ_EQ(m.o->getCount(), set == (int)m.m.size() ? tot : 0ul, "count of all-of");
      if (m.k == 5) { bool all = true; unsigned long s = 0; for (size_t q = 1; q < m.m.size(); ++q) { all &= cnt(m.m[q]) > 0; s += cnt(m.m[q]); } REQ_EQ(m.grp[0]->getCount(), m.req && !all ? 0ul : s, "count of group"); }
   }
   int set = 0; for (auto& o : v) set += o.cnt > 0; g.nontrivial(set >= 3 || (!want.empty() && e.err.empty())); g.label(want.empty() ? "no error" : "errors"); if (!ms.empty()) g.label("meta options"); if (e.help.size()) g.label("help"); if (e.rest.size()) g.label("trailing arguments");
}
PROP(typedArguments, 300000, 2000000, "two or more values")
{
   defaultCommandOptionList.clear(); CommandOptionWithSimpleTimeArg st('s', "simple", "d"); CommandOptionWithTimeArg tt('t', "time", "%Y/%m/%d-%H:%M:%S", "d"); CommandOptionWithCommonTimeArg ct('c', "common", "%F %g", "d"); CommandOptionWithPositionArg px('p', "pos", "%x,%y,%z", "d"), pg('g', "geo", "%A,%L,%h", "d");
   VS a{"prog"}; std::vector<CommonTime> es, et, ec; std::vector<std::array<double, 3>> ex, eg; int n = g.range(1, 5);
   for (int k = 0; k < n; ++k)
   {
      Tm t = genTm(g); std::string o, x;
      switch (g.below(5))
      {
         case 0: o = "-s"; x = t.txt; es.push_back(YDSTime(t.y, t.doy, t.sod, TimeSystem::Any).convertToCommonTime()); break;
         case 1: { int h = g.below(24), mi = g.below(60), s = g.below(60); o = "--time"; x = pbt::strf("%04d/%02d/%02d-%02d:%02d:%02d", t.y, t.mo, t.d, h, mi, s); et.push_back(CivilTime(t.y, t.mo, t.d, h, mi, s, TimeSystem::Any).convertToCommonTime()); break; }
         case 2: { long w = g.range(0, 4000), s = g.range(0, 604799); o = "-c"; x = pbt::strf("%ld %ld", w, s); CommonTime c; c.set(2444245 + w * 7 + s / 86400, (s % 86400) / 3600 * 3600 + s % 3600, 0.0, TimeSystem::Any); ec.push_back(c); break; }
         case 3: { double p[3]; p[0] = g.range(1000000, 5000000) + 0.25; p[1] = g.range(-5000000, 5000000); p[2] = g.range(-5000000, 5000000) + 0.5; o = "-p"; x = pbt::strf("%.2f,%.2f,%.2f", p[0], p[1], p[2]); ex.push_back({p[0], p[1], p[2]}); break; }
         default: { double p[3] = {g.range(-89, 89) + 0.5, g.range(0, 359) + 0.25, g.range(-100, 9000) + 0.125}; o = "-g"; x = pbt::strf("%.2f,%.2f,%.3f", p[0], p[1], p[2]); eg.push_back({p[0], p[1], p[2]}); }
      }
      a.push_back(o); a.push_back(x);
   }
   g << joined(a); Argv A(a); CommandOptionParser P("x"); P.parseOptions(A.n(), A.p.data()); { std::ostringstream es2; P.dumpErrors(es2); REQUIRE(!P.hasErrors(), es2.str()); }
      // times scanned have the default system of the scanner: compare the instants
   auto cmp = [&](const std::vector<CommonTime>& x, const std::vector<CommonTime>& y, const char* w) { REQ_EQ(x.size(), y.size(), w); for (size_t k = 0; k < x.size(); ++k) { CommonTime p = x[k], q = y[k]; p.setTimeSystem(TimeSystem::Any); q.setTimeSystem(TimeSystem::Any); REQ_NEAR(p - q, 0.0, 1e-6, w); } };
   cmp(st.getTime(), es, "simple times"); cmp(tt.getTime(), et, "times"); cmp(ct.getTime(), ec, "week times");
   auto p = px.getPosition(); REQ_EQ(p.size(), ex.size(), "positions"); for (size_t k = 0; k < p.size(); ++k) { REQ_NEAR(p[k].X(), ex[k][0], 1e-6, "x"); REQ_NEAR(p[k].Y(), ex[k][1], 1e-6, "y"); REQ_NEAR(p[k].Z(), ex[k][2], 1e-6, "z"); }
   auto q = pg.getPosition(); REQ_EQ(q.size(), eg.size(), "geodetic positions"); for (size_t k = 0; k < q.size(); ++k) { REQ_NEAR(q[k].geodeticLatitude(), eg[k][0], 1e-9, "latitude"); REQ_NEAR(q[k].longitude(), eg[k][1], 1e-9, "longitude"); REQ_NEAR(q[k].height(), eg[k][2], 1e-6, "height"); }
   g.nontrivial(n > 1);
}
PROP(declarations, 300000, 1200000, "a refused declaration")
{
   defaultCommandOptionList.clear(); auto v = genOpts(g, 5, {NoArg, Any, Number}); int bad = g.below(7); g << "case " << bad; for (auto& o : v) g << " " << o.shown();
   for (auto& o : v) o.o = build(o, "");
   REQ_EQ(defaultCommandOptionList.size(), v.size(), "options put themselves on the list");
   auto refusedCtor = [&](char s, const std::string& l) { try { CommandOption o(CommandOption::noArgument, CommandOption::stdType, s, l, "d"); return false; } catch (InvalidParameter&) { return true; } };
   std::string good = "good"; char c = (char)g.pick<int>({1, 9, 10, 32, 127}); bool refused = false;
   if (bad == 0) REQUIRE(refused = refusedCtor(0, ""), "an option without a name is refused");
   if (bad == 1) REQUIRE(refused = refusedCtor(c, "long"), "short option " << (int)c << " is refused");
   if (bad == 2) { std::string l = g.str("abcdef", 1, 8); l.insert(l.begin() + g.range(0, (long)l.size()), c); REQUIRE(refused = refusedCtor('q', l) && refusedCtor(0, l), "long option " << pbt::q(l) << " is refused"); }
   REQ_EQ(defaultCommandOptionList.size(), v.size(), "refused options are not on the list");
   CommandOptionVec mine; CommandOption own(CommandOption::hasArgument, CommandOption::stdType, 'q', "quite", "d", g.flag(), mine); REQUIRE(mine.size() == 1 && mine[0] == &own && defaultCommandOptionList.size() == v.size(), "own list");
   CommandOptionParser P("d"); bool dup = false; CommandOptionVec l3;
   if (bad >= 3 && !v.empty())
   {
      const Opt& o = g.pick(v); char s = 'Z'; std::string l = "zulu"; if (bad == 3 && o.sh) { s = o.sh; dup = true; } if (bad == 4 && !o.lo.empty()) { l = o.lo; dup = true; }
      CommandOption x(CommandOption::noArgument, CommandOption::stdType, s, l, "d", false, l3); bool r = false; try { P.addOption(x); } catch (InvalidParameter&) { r = true; } REQUIRE(r == dup, "an option with a name in use " << pbt::q(std::string(1, s)) << " " << l << " refused: " << r); refused |= r;
      if (!r) { VS a{"p", "-Z"}; Argv A(a); P.parseOptions(A.n(), A.p.data()); REQ_EQ(x.getCount(), 1ul, "an added option is parsed"); }
      CommandOptionVec both = defaultCommandOptionList; if (dup) { both.push_back(&x); bool r2 = false; try { CommandOptionParser Q("d", both); } catch (InvalidParameter&) { r2 = true; } REQUIRE(r2, "a list with a name twice is refused"); }
   }
   if (bad == 5) { defaultCommandOptionList.clear(); CommandOptionRest a("a"), b("b"); bool r = false; try { CommandOptionParser Q("d"); } catch (InvalidParameter&) { r = true; } REQUIRE(r, "two trailing options are refused"); refused = true; }
   if (bad == 6) { CommandOptionOneOf one; CommandOptionNOf nof(1); int r = 0; try { one.addOption(nullptr); } catch (InvalidParameter&) { ++r; } try { nof.addOption(nullptr); } catch (InvalidParameter&) { ++r; } try { CommandOptionDependent d(nullptr, &own); } catch (InvalidParameter&) { ++r; } try { CommandOptionDependent d(&own, nullptr); } catch (InvalidParameter&) { ++r; } REQ_EQ(r, 4, "null options are refused"); refused = true; }
   g.nontrivial(refused);
}
PROP(usage, 200000, 800000, "required and optional options")
{
   defaultCommandOptionList.clear(); Opt::ctarg = "TIME"; auto v = genOpts(g, 8, {NoArg, Any, Number, Decimal, Alpha, STime, Pos, Help}); for (auto& o : v) { o.o = build(o, ""); if (o.maxc) o.o->setMaxCount(o.maxc); }
   bool rest = g.flag(); std::unique_ptr<CommandOptionRest> R; if (rest) R.reset(new CommandOptionRest("FILE [FILE]...")); std::string text; int w = g.range(1, 40); for (int k = 0; k < w; ++k) text += (k ? " " : "") + word(g);
   int cols = g.oneIn(3) ? 80 : g.range(60, 200); if (cols == 80) unsetenv("COLUMNS"); else setenv("COLUMNS", std::to_string(cols).c_str(), 1); g << "columns " << cols; for (auto& o : v) g << " " << o.shown() << (o.req ? "!" : "");
   VS a{g.flag() ? "/bin/tool" : "tool"}; Argv A(a); CommandOptionParser P(text); P.parseOptions(A.n(), A.p.data()); std::ostringstream u; P.displayUsage(u); unsetenv("COLUMNS");
   bool hr = false, ho = false; for (auto& o : v) (o.req ? hr : ho) = true; std::string want = "Usage: tool"; if (hr || ho) want += " [OPTION] ..."; if (rest) want += " FILE [FILE]..."; want += " " + text;
   for (int r = 1; r >= 0; --r) { if (r ? hr : ho) want += r ? " Required arguments:" : " Optional arguments:"; for (auto& o : v) if (o.req == (r == 1)) want += " " + o.full() + " " + o.desc; }
   REQ_EQ(squeeze(u.str()), squeeze(want), "usage, white space aside"); size_t lim = 0; for (auto& o : v) lim = std::max(lim, o.full().size() + 6); for (auto& l : linesOf(u.str())) REQUIRE((long)l.size() <= std::max<long>(cols, lim + 9) || l.substr(0, 5) == "Usage", "line of " << l.size() << " characters: " << pbt::q(l));
   for (auto& o : v) { REQ_EQ(o.o->getOptionString(), o.shown(), "getOptionString"); REQ_EQ(squeeze(o.o->getFullOptionString()), o.full(), "getFullOptionString"); std::string d = (o.sh ? std::string("-") + o.sh + (o.lo.empty() ? "" : " | ") : "") + (o.lo.empty() ? "" : "--" + o.lo); if (o.arg()) { static const char* an[] = {"", "ARG", "NUM", "DEC", "<alpha>", "TIME", "TIME", "POSITION"}; d += std::string(" ") + an[o.k]; } d += " " + o.desc; if (o.maxc) d += " Up to " + std::to_string(o.maxc) + " may be used on the command line."; REQ_EQ(squeeze(o.o->getDescription()), squeeze(d), "getDescription"); }
   g.nontrivial(hr && ho);
}
   // ---- application frames
template <class F> struct Probe : F
{
   std::string trace; int failAt = 0, failHow = 0, loops = 1;
   template <class... A> Probe(A... a) : F(a...) {}
   void step(int n, const char* c) { trace += c; if (n == failAt) { if (failHow == 0) { Exception e("probe"); GPSTK_THROW(e); } if (failHow == 1) throw std::runtime_error("probe"); throw 5; } }
   void additionalSetup() override { step(1, "a"); } void spinUp() override { step(2, "u"); } void process() override { step(3, "p"); --loops; done(this); } void shutDown() override { trace += "d"; }
   void done(LoopedFramework* l) { if (loops <= 0) timeIs(l); } void done(BasicFramework*) {} void timeIs(LoopedFramework*) { die(); } virtual void die() {}
   int dbg() const { return this->debugLevel; } int verb() const { return this->verboseLevel; }
};
struct Loop : Probe<LoopedFramework> { using Probe::Probe; void die() override { timeToDie = true; } };
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(o); } };
template <class F> static void frame(G& g, bool looped)
{
   defaultCommandOptionList.clear(); F f(std::string("app"), std::string("Application")); f.failAt = g.oneIn(3) ? g.range(1, 3) : 0; f.failHow = g.below(3); f.loops = looped ? g.range(1, 4) : 1; int loops = f.loops;
   CommandOptionWithNumberArg num('n', "number", "a number", g.oneIn(4)); int d = 0, vb = 0, h = 0; bool bad = false, n = false; VS a{"app"}; int k = g.range(0, 6);
   for (int i = 0; i < k; ++i) switch (g.weighted({3, 3, 1, 2, 1})) { case 0: a.push_back(g.flag() ? "-d" : "--debug"); ++d; break; case 1: a.push_back(g.flag() ? "-v" : "--verbose"); ++vb; break; case 2: a.push_back(g.flag() ? "-h" : "--help"); ++h; break; case 3: a.push_back("-n"); a.push_back(g.oneIn(5) ? (bad = true, "x") : "7"); n = true; break; default: if (g.oneIn(3)) { a.push_back("--nosuch"); bad = true; } }
   std::ostringstream un; CommandOptionParser probe("p"); std::string desc = joined(a); g << desc << " fail at " << f.failAt << "/" << f.failHow << " loops " << loops;
   { Argv B(a); bool req = false; for (auto* o : defaultCommandOptionList) req |= o == &num && o->checkArguments() != ""; if (req && !n) bad = true; }
   Argv A(a); bool ok; { Quiet q; ok = f.initialize(A.n(), A.p.data()); if (h) REQUIRE(q.s.str().find("Usage") != std::string::npos, "usage is shown on request"); else if (bad) REQUIRE(!q.s.str().empty(), "errors are shown"); }
   if (h) { REQUIRE(!ok && f.exitCode == 0, "help ends the program without error: " << ok << " code " << f.exitCode); return; }
   if (bad) { REQUIRE(!ok && f.exitCode == BasicFramework::OPTION_ERROR, "bad options are an error"); return; }
   REQUIRE(ok && f.exitCode == 0, "initialize"); REQ_EQ(f.dbg(), d, "debug level"); REQ_EQ(f.verb(), vb, "verbosity");
   bool r; { Quiet q; r = f.run(); } std::string want = "a"; if (f.failAt != 1) { want += "u"; if (f.failAt != 2) { if (f.failAt == 3) want += "p"; else want += std::string(loops, 'p') + "d"; } }
   REQ_EQ(f.trace, want, "steps run"); REQUIRE(r == (f.failAt == 0) && f.exitCode == (f.failAt ? (int)BasicFramework::EXCEPTION_ERROR : 0), "result " << r << " code " << f.exitCode); g.nontrivial(f.failAt || d + vb > 1);
}
PROP(frames, 200000, 800000, "a failing step or several levels") { if (g.flag()) frame<Probe<BasicFramework>>(g, false); else frame<Loop>(g, true); }
typedef InOutFramework<std::ifstream, std::ofstream> IOF;
struct Copy : IOF { using IOF::IOF; void process() override { std::string l; if (!std::getline(input, l)) { timeToDie = true; return; } output << l << "\n"; } };
PROP(inOutFrame, 30000, 120000, "input of two or more lines")
{
   defaultCommandOptionList.clear(); std::string d = pbt::scratch(), in = d + "/in", out = d + "/out", text; int n = g.range(0, 5); for (int k = 0; k < n; ++k) text += g.str("abc xyz019", 0, 20) + "\n"; pbt::spit(in, text); bool noIn = g.oneIn(6), noOut = !noIn && g.oneIn(6);
   VS a{"copy", g.flag() ? "-i" : "--input", noIn ? d + "/nosuch/in" : in, g.flag() ? "-o" : "--output", noOut ? d + "/nosuch/out" : out}; if (g.flag()) { std::swap(a[1], a[3]); std::swap(a[2], a[4]); } g << joined(a); Argv A(a);
   { Copy c("copy", "Copies"); Quiet q; bool ok = c.initialize(A.n(), A.p.data()); if (noIn || noOut) { REQUIRE(!ok && c.exitCode == (noIn ? (int)BasicFramework::EXIST_ERROR : (int)IOF::OUTPUT_ERROR), "a file that cannot be opened: code " << c.exitCode); return; } REQUIRE(ok && c.run(), "run"); }
   REQ_EQ(pbt::slurp(out), text, "copied"); g.nontrivial(n > 1);
}

   // ---- CommandLine
enum CK { CBool, CToggle, CInt, CVInt, CDouble, CString, CVString, CSat, CVSat };
struct CO { CK k; char sh; std::string lo, arg, pre, desc; bool rep, req, expand = true, doc = true; bool b = false; int i = 0; std::vector<int> vi; double d = 0; std::string s; VS vs; RinexSatID sat; std::vector<RinexSatID> vsat;
   VS raw; };
static bool isVec(CK k) { return k == CVInt || k == CVString || k == CVSat; }
static std::string satText(G& g) { return std::string(1, g.pick<char>({'G', 'R', 'E', 'C', 'J'})) + pbt::strf("%02d", (int)g.range(1, 24)); }
static std::string sciText(G& g) { std::string s = (g.oneIn(3) ? "-" : "") + g.str("0123456789", 1, 4) + (g.flag() ? "." + g.str("0123456789", 1, 4) : ""); if (g.oneIn(3)) s += std::string(1, g.pick<char>({'e', 'E', 'd', 'D'})) + g.pick<std::string>({"3", "-2", "+1", "0"}); return s; }
static double sciValue(std::string s) { for (char& c : s) if (c == 'd' || c == 'D') c = 'e'; return strtod(s.c_str(), nullptr); }
static void declare(CommandLine& L, std::vector<CO>& v) { for (auto& o : v) { switch (o.k) { case CBool: case CToggle: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.b, o.pre, o.desc, o.doc); break; case CInt: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.i, o.pre, o.desc, o.doc); break; case CVInt: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.vi, o.pre, o.desc, o.doc); break; case CDouble: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.d, o.pre, o.desc, o.doc); break; case CString: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.s, o.pre, o.desc, o.doc); break; case CVString: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.vs, o.pre, o.desc, o.doc); break; case CSat: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.sat, o.pre, o.desc, o.doc); break; default: L.Add(o.sh, o.lo, o.arg, o.rep, o.req, &o.vsat, o.pre, o.desc, o.doc); }
   if (o.k == CToggle) L.setToggle(o.lo); if (!o.expand) L.noExpansion(o.lo); } }
static std::vector<CO> genCO(G& g)
{
   std::vector<CO> v; int n = g.range(1, 7); std::string used; const VS names{"alpha", "beta", "gamma", "input", "in", "output", "out-put", "sat", "time", "max", "zulu"}; VS nm = names; g.shuffle(nm);
   for (int k = 0; k < n; ++k)
   {
      CO o; o.k = (CK)g.below(9); o.sh = 0; if (g.flag()) { char c = g.pick<char>({'a', 'b', 'c', 'i', 'o', 's', 't', 'A', 'B', '1'}); if (used.find(c) == std::string::npos) { o.sh = c; used += c; } }
      o.lo = nm[k]; o.arg = o.k <= CToggle ? "" : g.pick<std::string>({"fn", "n", "val"}); o.pre = g.oneIn(4) ? "# group " + word(g) + ":" : ""; o.desc = "Does " + word(g) + " and " + word(g); o.rep = g.flag(); o.req = g.oneIn(8); o.doc = !g.oneIn(6); if (isVec(o.k) && g.oneIn(4)) o.expand = false;
      o.b = g.flag(); o.i = g.range(-99, 99); o.d = g.range(-500, 500) / 4.0; o.s = g.flag() ? word(g) : ""; if (o.k == CVInt && g.flag()) o.vi = {1, -5}; if (o.k == CVString && g.flag()) o.vs = {"u", "w"}; if (o.k == CSat && g.flag()) o.sat = RinexSatID("G07"); if (o.k == CVSat && g.flag()) o.vsat = {RinexSatID("E11")}; v.push_back(o);
   }
   return v;
}
static std::string oneVal(G& g, CK k, bool& bad) { bool b = g.oneIn(14); switch (k) { case CInt: case CVInt: if (b) { bad = true; return g.pick<std::string>({"x", "1.5", "2e3", "7z"}); } return std::to_string(g.range(-9999, 9999)); case CDouble: if (b) { bad = true; return g.pick<std::string>({"x", "1.5.2", "1e2e3", "abc"}); } return sciText(g); case CSat: case CVSat: return satText(g); default: return g.str("abcXYZ019._/:=+", 1, 8); } }
static std::string show(const std::vector<CO>& v) { std::string r; for (auto& o : v) { r += std::string(" ") + (o.sh ? std::string("-") + o.sh + "|" : "") + "--" + o.lo + "/" + std::to_string(o.k); if (o.rep) r += "r"; if (o.req) r += "!"; if (!o.expand) r += "n"; } return r; }

PROP(commandLine, 400000, 3200000, "three options given, or errors")
{
   setenv("HOME", "/nonexistent", 1); static std::ostringstream nul; nul.str(""); ConfigureLOG::Stream() = &nul; ConfigureLOG::ReportingLevel() = ConfigureLOG::Level("ERROR"); std::string dir = pbt::scratch();
   auto v = genCO(g); std::vector<CO> want = v; CommandLine L; declare(L, v);
   bool ign = g.oneIn(3), dep = g.oneIn(4), needArg = !g.oneIn(4); if (ign) { L.Add_ignore("--dull"); L.Add_ignore("--dullarg", true); L.Add_ignore_on("--off"); L.Add_ignore_off("--on"); } int depI = g.below(v.size()); if (dep) L.Add_deprecated("--old", "--" + v[depI].lo); if (!needArg) L.noArgsRequired();
      // the command line as pieces, each an option with its value or something else
   VS flat; VS unrec; int errs = 0; VS errAbout; bool help = false, verbose = false; int debug = -1; int n = g.range(0, 7); size_t fileNo = 0; bool usedFile = false; size_t pieces = 0;
   std::vector<VS> P; std::vector<VS> listFiles;
   bool off = false; int given = 0;
   for (int k = 0; k < n; ++k)
   {
      VS p; int f = g.weighted({12, 1, 1, ign ? 2 : 0, 1});
      if (f == 0)
      {
         int oi = g.below(v.size()); CO& o = want[oi]; std::string name = dep && oi == depI && g.flag() ? "--old" : o.sh && g.flag() ? std::string("-") + o.sh : "--" + o.lo; p.push_back(name); bool bad = false, miss = false; std::string val;
         if (o.k > CToggle)
         {
            if (!isVec(o.k)) val = oneVal(g, o.k, bad);
            else { int m = g.range(1, 4); for (int q = 0; q < m; ++q) { if (o.expand && g.oneIn(6)) { std::string fn = dir + "/list" + std::to_string(fileNo++), body; int e = g.range(0, 5); for (int w = 0; w < e; ++w) { if (g.oneIn(5)) body += "# comment , here\n"; body += (g.flag() ? " " : "") + oneVal(g, o.k, bad) + (g.flag() ? "\n" : g.oneIn(4) ? " # the rest\r\n" : "  "); } pbt::spit(fn, body); usedFile = true; val += (q ? "," : "") + ("@" + fn); } else { std::string x = oneVal(g, o.k, bad); val += (q ? "," : "") + x; } } }
            miss = g.oneIn(30); if (!miss) p.push_back(val);
         }
         if (!off) { ++given; if (!miss) o.raw.push_back(o.k <= CToggle ? "T" : val); else p.push_back("--" + std::string("nosuchafter")); }
         if (miss && !off) { ++errs; errAbout.push_back(dep && name == "--old" ? "--" + o.lo : name); unrec.push_back("--nosuchafter"); }
      }
      else if (f == 1) { std::string x = g.pick<std::string>({"file", "--nosuch", "-z", "x=1,2", "-"}); p.push_back(x); if (!off) unrec.push_back(x); }
      else if (f == 2) { int w = g.below(3); if (w == 0 && g.oneIn(3)) { p.push_back(g.flag() ? "-h" : "--help"); help |= !off; } else if (w == 1) { p.push_back(g.flag() ? "-v" : "--verbose"); verbose |= !off; } else { int d = g.range(0, 3); p.push_back(d ? (g.flag() ? "-d" : "--debug") + std::to_string(d) : g.flag() ? "-d" : "--debug"); if (!off) debug = d, verbose = true; } }
      else if (f == 3) { switch (g.below(4)) { case 0: p.push_back("--dull"); break; case 1: p.push_back("--dullarg"); p.push_back(g.pick<std::string>({"x", "--" + v[0].lo})); break; case 2: p.push_back("--off"); off = true; break; default: p.push_back("--on"); off = false; } }
      else { std::string x = word(g); p.push_back(x); if (!off) unrec.push_back(x); }
      P.push_back(p); ++pieces;
   }
   if (off) P.push_back({"--on"});
      // some of it in a file of options, perhaps nested
   bool nested = false; VS args{"/x/prog"}; size_t cut = P.size(), end = P.size(); bool quotesOk = true;
   if (!P.empty() && g.flag()) { cut = g.below(P.size()); end = g.range(cut, (long)P.size()); }
   bool inFile = end > cut; std::string body, inner;
   auto put = [&](std::string& b, const VS& p) { for (auto& x : p) { if (g.oneIn(8)) b += "# a comment --nothing\n"; bool quote = g.oneIn(6); if (g.oneIn(4)) b += "   "; b += quote ? "\"" + x + "\"" : x; b += g.flag() ? "\n" : g.oneIn(5) ? " # tail\n" : g.oneIn(5) ? "\r\n" : " "; } };
   bool offAt = false; for (size_t k = 0; k < P.size(); ++k) { for (auto& x : P[k]) { if (x == "--off" && ign) offAt = true; if (x == "--on" && ign) offAt = false; } if (k + 1 == cut || k + 1 == end) if (offAt) inFile = false; }
   for (size_t k = 0; k < P.size(); ++k)
   {
      if (inFile && k == cut) { args.push_back(g.flag() ? "-f" : "--file"); args.push_back(dir + "/opts"); usedFile = true; }
      if (inFile && k >= cut && k < end) { put(body, P[k]); if (g.oneIn(6) && k + 1 < end && !nested && !ign) { nested = true; for (++k; k < end; ++k) put(inner, P[k]); body += std::string(body.empty() || body.back() == '\n' ? "" : "\n") + (g.flag() ? "-f " : "--file ") + dir + "/inner" + (g.flag() ? "\n" : ""); --k; } }
      else for (auto& x : P[k]) args.push_back(x);
   }
   if (inFile) { pbt::spit(dir + "/opts", body); if (nested) pbt::spit(dir + "/inner", inner); }
      // empty strings and values that look like the built-in options are not used; so the plain words remain
   g << joined(args) << " | " << show(v) << (inFile ? " opts: " + pbt::q(body) : "") << (nested ? " inner: " + pbt::q(inner) : "") << (ign ? " ign" : "") << (dep ? " old=" + v[depI].lo : "");
   Argv A(args); std::string U, E; VS un; int rc = L.ProcessCommandLine(A.n(), A.p.data(), "Program description", U, E, un);
      // what should come out
   bool any = false; for (auto& o : want) any |= !o.raw.empty(); any |= !unrec.empty() || errs; if (needArg && !any) help = true;
   std::vector<std::string> about = errAbout;
   for (auto& o : want)
   {
      if (o.req && o.raw.empty()) about.push_back(o.lo); if (!o.rep && o.raw.size() > 1) about.push_back(o.lo);
      if (o.raw.empty()) continue;
      VS val; if (isVec(o.k) && o.expand) { for (auto r : o.raw) { std::istringstream i(r); std::string x; while (std::getline(i, x, ',')) { if (x.empty()) continue; if (x[0] == '@') { std::istringstream b(pbt::slurp(x.substr(1))); std::string l; while (std::getline(b, l)) { if (!l.empty() && l.back() == '\r') l.pop_back(); std::istringstream lw(l); std::string w; while (lw >> w) { if (w[0] == '#') break; val.push_back(w); } } } else val.push_back(x); } } } else val = o.raw;
      auto isInt = [](std::string s) { if (!s.empty() && (s[0] == '-' || s[0] == '+')) s.erase(0, 1); return digits(s); }; auto isSci = [](const std::string& s) { size_t p = s.find_first_of("eEdD"); return decimal(s.substr(0, p)) && (p == std::string::npos || decimal(s.substr(p + 1))); };
      switch (o.k)
      {
         case CBool: o.b = true; break; case CToggle: o.b = !o.b; break;
         case CInt: if (isInt(val[0])) o.i = atoi(val[0].c_str()); else about.push_back(o.lo); break; case CVInt: for (auto& x : val) if (isInt(x)) o.vi.push_back(atoi(x.c_str())); else about.push_back(o.lo); break;
         case CDouble: if (isSci(val[0])) o.d = sciValue(val[0]); else about.push_back(o.lo); break; case CString: o.s = val[0]; break; case CVString: for (auto& x : val) o.vs.push_back(x); break; case CSat: o.sat = RinexSatID(val[0]); break; case CVSat: for (auto& x : val) o.vsat.push_back(RinexSatID(x)); break;
      }
   }
   REQUIRE(un == unrec, "unrecognised:" << joined(un) << " expected" << joined(unrec));
   for (size_t k = 0; k < v.size(); ++k)
   {
      CO &x = v[k], &w = want[k]; REQ_EQ(L.count(x.lo), w.raw.size(), "count of --" << x.lo);
      REQUIRE(x.b == w.b, "--" << x.lo << " is " << x.b); REQ_EQ(x.i, w.i, "--" << x.lo); REQUIRE(x.vi == w.vi, "integers of --" << x.lo << " " << x.vi.size() << " expected " << w.vi.size()); REQ_EQ(x.d, w.d, "--" << x.lo); REQ_EQ(x.s, w.s, "--" << x.lo); REQUIRE(x.vs == w.vs, "strings of --" << x.lo << joined(x.vs) << " expected" << joined(w.vs)); REQUIRE(x.sat == w.sat, "satellite of --" << x.lo); REQUIRE(x.vsat == w.vsat, "satellites of --" << x.lo << " " << x.vsat.size() << " expected " << w.vsat.size());
   }
   REQ_EQ(L.count("nosuch"), 0u, "count of an unknown option"); VS el = linesOf(E); REQUIRE(el.size() == about.size(), "errors" << joined(el) << " expected about" << joined(about)); for (auto& x : about) { bool f = false; for (auto& l : el) f |= l.find(x) != std::string::npos; REQUIRE(f, "an error about " << x << " expected in" << joined(el)); }
   REQUIRE(rc == (help ? 1 : about.empty() ? 0 : -1), "return value " << rc << " help " << help << " errors " << about.size()); REQUIRE(L.hasHelp() == help && (help || L.hasErrors() == !about.empty()), "hasHelp, hasErrors");
   { size_t from = 0; REQUIRE(U.compare(0, 11, "Usage: prog") == 0 && U.find("Program description") != std::string::npos, "begin of the usage"); for (auto& o : v) { size_t p = U.find(" --" + o.lo + " ", from); if (o.doc) { REQUIRE(p != std::string::npos && U.compare(0, p, "") >= 0, "--" << o.lo << " in the usage, in order"); size_t nl = U.find('\n', p); std::string line = U.substr(p, nl - p); REQUIRE(line.find(o.desc) != std::string::npos && (line.find("[repeatable]") != std::string::npos) == o.rep && (o.arg.empty() || line.find("<" + o.arg + ">") != std::string::npos), "usage line " << pbt::q(line)); from = p + 1; } else { bool twin = false; REQUIRE(twin || U.find(" --" + o.lo + " ") == std::string::npos, "undocumented option is not in the usage"); } } for (const char* x : {" --verbose", " --debug<n>", " --help"}) REQUIRE(U.find(x, from) != std::string::npos, x); }
   { std::ostringstream d; L.DumpConfiguration(d); std::string s = d.str(); auto has = [&](const std::string& o, const std::string& val) { std::string k = " (--" + o + ") : " + val + "\n"; REQUIRE(s.find(k) != std::string::npos, "configuration lacks " << pbt::q(k) << " in " << pbt::q(s)); };
     for (auto& o : want) { std::string t; switch (o.k) { case CBool: case CToggle: t = o.b ? "true" : "false"; break; case CInt: t = std::to_string(o.i); break; case CVInt: for (size_t k = 0; k < o.vi.size(); ++k) t += (k ? "," : "") + std::to_string(o.vi[k]); break; case CString: t = o.s; break; case CVString: for (size_t k = 0; k < o.vs.size(); ++k) t += (k ? "," : "") + o.vs[k]; break; case CVSat: for (size_t k = 0; k < o.vsat.size(); ++k) t += (k ? "," : "") + o.vsat[k].toString(); break; case CSat: if (o.sat.id != -1) t = o.sat.toString(); break; default: continue; } if (t.empty()) t = "<none>"; has(o.lo, t); } }
   g.nontrivial(given >= 3 || !about.empty()); if (usedFile) g.label("files"); if (nested) g.label("nested file"); if (ign) g.label("ignored options"); if (help) g.label("help"); (void)verbose; (void)debug; (void)quotesOk; (void)flat; (void)pieces;
}
PROP(badDefinitions, 100000, 200000, "a definition refused")
{
   setenv("HOME", "/nonexistent", 1); static std::ostringstream nul; nul.str(""); ConfigureLOG::Stream() = &nul; ConfigureLOG::ReportingLevel() = ConfigureLOG::Level("ERROR");
   auto v = genCO(g); for (auto& o : v) o.req = false; int how = g.below(9); CommandLine L; const std::string l = g.pick(v).lo; char sh = 0; for (auto& o : v) if (o.sh) sh = o.sh; bool bad = how < 7; declare(L, v); bool b; int i;
   switch (how) { case 0: L.Add_ignore("--" + l); break; case 1: L.Add_ignore("--" + l, true); break; case 2: L.Add_ignore_on("--" + l); break; case 3: L.Add_ignore_off("--" + l); break; case 4: L.Add('Z', l, "", false, false, &b, "", "again"); break; case 5: if (sh) L.Add(sh, "unique", "n", false, false, &(i = 0), "", "again"); else bad = false; break; case 6: L.Add_deprecated("--old", "--nothere"); break; case 7: L.Add_deprecated("--old", "--" + l); break; default: L.Add_ignore("--other"); }
   g << "case " << how << show(v); VS a{"prog", "word"}; Argv A(a); std::string U, E; VS un; b = false; int rc = L.ProcessCommandLine(A.n(), A.p.data(), "d", U, E, un); REQUIRE(rc == (bad ? -3 : 0) && E.empty() != bad, "definition case " << how << " returned " << rc << " " << pbt::q(E)); g.nontrivial(bad);
}
PBT_MAIN
