// F07: file specifications and file search against a listing model.
#include "pbt.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <set>
#include <map>
#include <list>
#include "FileSpec.hpp"
#include "FileSpecFind.hpp"
#include "FileHunter.hpp"
#include "YDSTime.hpp"
#include "CivilTime.hpp"
#include "CommonTime.hpp"
using pbt::G;
using gpstk::FileSpec;
using gpstk::FileSpecFind;
using gpstk::FileHunter;
using gpstk::CommonTime;
typedef std::string S;
typedef FileSpec::FileSpecType FT;

// ------------------------------------------------------------- time model
struct YD { int y, doy, mon, day, sod; };
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long days(int y, int doy)        // days since 1970-01-01
{
   long n = 0;
   for (int k = 1970; k < y; k++) n += leap(k) ? 366 : 365;
   return n + doy - 1;
}
static YD mk(int y, int doy, int sod)
{
   static const int ml[12] = {31,28,31,30,31,30,31,31,30,31,30,31};
   YD t; t.y = y; t.doy = doy; t.sod = sod;
   int d = doy, m = 0;
   for (m = 0; m < 12; m++) { int L = ml[m] + (m == 1 && leap(y)); if (d <= L) break; d -= L; }
   t.mon = m + 1; t.day = d;
   return t;
}
static YD fromSec(long s)
{
   long dn = s / 86400; int sod = (int)(s - dn * 86400), y = 1970;
   while (dn >= (leap(y) ? 366 : 365)) { dn -= leap(y) ? 366 : 365; y++; }
   return mk(y, (int)dn + 1, sod);
}
static long secOf(const YD& t) { return days(t.y, t.doy) * 86400L + t.sod; }
static CommonTime ct(const YD& t, double frac = 0) { return gpstk::YDSTime(t.y, t.doy, t.sod + frac); }
static CommonTime ct(long s, double frac = 0) { return ct(fromSec(s), frac); }

// ------------------------------------------------------------- spec model
struct El { char c; int w; bool zero; S lit; };     // c==0: literal
struct Fld { FT t; char c; };
static const Fld FLD[] = {
   {FileSpec::station,'n'},{FileSpec::receiver,'r'},{FileSpec::prn,'p'},{FileSpec::selected,'t'},
   {FileSpec::sequence,'I'},{FileSpec::version,'v'},{FileSpec::clock,'k'},{FileSpec::text,'x'},
   {FileSpec::year,'Y'},{FileSpec::year,'y'},{FileSpec::month,'m'},{FileSpec::dayofmonth,'d'},
   {FileSpec::hour,'H'},{FileSpec::minute,'M'},{FileSpec::second,'S'},{FileSpec::fsecond,'f'},
   {FileSpec::gpsweek,'G'},{FileSpec::fullgpsweek,'F'},{FileSpec::gpssecond,'g'},{FileSpec::mjd,'Q'},
   {FileSpec::dayofweek,'w'},{FileSpec::day,'j'},{FileSpec::doysecond,'s'},{FileSpec::zcount,'Z'},
   {FileSpec::zcountfloor,'z'},{FileSpec::unixsec,'U'},{FileSpec::unixusec,'u'},{FileSpec::fullzcount,'C'}};
static FT ftOf(char c) { for (auto& f : FLD) if (f.c == c) return f.t; return FileSpec::unknown; }
static bool isTime(char c) { return c && ftOf(c) >= FileSpec::firstTime; }
static S tok(const El& e) { return !e.c ? e.lit : S("%") + (e.zero ? "0" : "") + std::to_string(e.w) + e.c; }
static S specOf(const std::vector<El>& v) { S s; for (auto& e : v) s += tok(e); return s; }
static S num(long v, int w) { S s = std::to_string(v); while ((int)s.size() < w) s = "0" + s; return s; }
static S tval(char c, int w, const YD& t)
{
   switch (c)
   {
      case 'Y': return num(t.y, w);
      case 'y': return num(t.y % 100, w);
      case 'm': return num(t.mon, w);
      case 'd': return num(t.day, w);
      case 'j': return num(t.doy, w);
      case 'H': return num(t.sod / 3600, w);
      case 'M': return num(t.sod / 60 % 60, w);
      case 'S': return num(t.sod % 60, w);
   }
   return "";
}
static int width(char c) { return c == 'Y' ? 4 : c == 'j' ? 3 : 2; }
static El T(char c) { return El{c, width(c), true, ""}; }
static El L(const S& s) { return El{0, 0, false, s}; }
static const char* LIT = "abcdQZ_-.XY7";

// chains of time units: 0 year, 1 day, 2 hour, 3 minute, 4 second
static long unitSec(int u) { return u == 2 ? 3600 : u == 3 ? 60 : 1; }
static long truncTo(long s, int u)
{
   YD t = fromSec(s);
   if (u < 0) return 0;
   if (u == 0) return secOf(mk(t.y, 1, 0));
   if (u == 1) return secOf(mk(t.y, t.doy, 0));
   return s - s % unitSec(u);
}
static void addUnit(std::vector<El>& v, int u, bool civil, bool y2)
{
   if (u == 0) v.push_back(T(y2 ? 'y' : 'Y'));
   else if (u == 1) { if (civil) { v.push_back(T('m')); v.push_back(T('d')); } else v.push_back(T('j')); }
   else v.push_back(T(u == 2 ? 'H' : u == 3 ? 'M' : 'S'));
}
static S render(const std::vector<El>& v, const YD& t, const std::map<char,S>& vals)
{
   S s;
   for (auto& e : v)
      s += !e.c ? e.lit : isTime(e.c) ? tval(e.c, e.w, t) : vals.at(e.c);
   return s;
}
static long genSec(G& g)
{
   switch (g.below(4))
   {
      case 0: return secOf(mk((int)g.range(1980, 2068), 1, 0)) + g.range(-3, 3);
      case 1: return secOf(mk((int)g.range(1980, 2068), (int)g.range(1, 365), (int)g.range(0, 86399)));
      case 2: return secOf(mk((int)g.range(1980, 2068), (int)g.range(1, 365), 0)) + g.range(-2, 2) * 3600;
      default: return secOf(mk((int)(1980 + 4 * g.range(0, 21)), 366, (int)g.range(0, 86399)));
   }
}

// ------------------------------------------------------------------ 1
PROP(names, 40000, 600000, "a specification with at least one time field and one other field")
{
   int nU = (int)g.range(0, 5);
   bool civil = g.flag(0.4), y2 = g.flag(0.3);
   std::vector<El> v;
   S taken;
   bool nonTime = false;
   auto lit = [&] { if (g.flag(0.6)) v.push_back(L(g.str(LIT, 1, 4))); };
   auto other = [&] {
      if (g.flag(0.5))
      {
         char c = S("nrptIvkx")[g.below(8)];
         if (taken.find(c) != S::npos) return;
         taken += c; nonTime = true;
         v.push_back(El{c, (int)g.range(1, 7), g.flag(0.7), ""});
      }
   };
   lit(); other();
   for (int u = 0; u < nU; u++) { lit(); addUnit(v, u, civil, y2); lit(); other(); }
   lit(); other();
   g.assume(!v.empty());
   S spec = specOf(v);
   long s = genSec(g);
   double frac = g.flag(0.3) ? (double)g.range(1, 9) / 10 : 0;
   YD t = fromSec(s);
   std::map<char,S> vals, given;
   FileSpec::FSTStringMap m;
   for (auto& e : v) if (e.c && !isTime(e.c))
   {
      S val = e.c == 'x' || e.c == 't' ? g.str("ABCdef019", 1, e.w) : g.str("0123456789", 1, e.w);
      m[ftOf(e.c)] = val;
      S full = val;
      while ((int)full.size() < e.w) full = (e.c == 'x' ? " " : "0") + full;
      vals[e.c] = full;
   }
   bool leaveOut = g.oneIn(5);
   FileSpec::FSTStringMap m2(m);
   std::map<char,S> inName(vals);
   if (leaveOut) for (auto& e : v) if (e.c && !isTime(e.c) && e.c != 'I' && g.flag())
   { m2.erase(ftOf(e.c)); inName[e.c] = tok(e); }      // the token stays in the name
   g << "spec=" << spec << " time=" << t.y << "/" << t.doy << " " << t.sod << "+" << frac;
   for (auto& k : vals) g << " " << S(1, k.first) << "=" << k.second;
   if (nonTime && nU) g.nontrivial();
   FileSpec fs(spec);
   REQ_EQ(fs.getSpecString(), spec, "getSpecString");
   S want = render(v, t, vals);
   REQ_EQ(fs.toString(ct(t, frac), m), want, "toString");
   if (leaveOut) REQ_EQ(fs.toString(ct(t, frac), m2), render(v, t, inName), "toString with unspecified fields");
   // search string
   S q;
   for (auto& e : v) q += e.c ? S(e.w, '?') : e.lit;
   REQ_EQ(fs.createSearchString(), q, "createSearchString");
   // fields (the first of its type)
   std::set<FT> have;
   size_t off = 0;
   for (auto& e : v)
   {
      size_t w = e.c ? e.w : e.lit.size();
      if (e.c && have.insert(ftOf(e.c)).second)
         REQ_EQ(fs.extractField(want, ftOf(e.c)), want.substr(off, w), "extractField " << S(1, e.c));
      off += w;
   }
   bool anyT = false, anyN = false;
   for (auto& f : FLD)
   {
      REQ_EQ(fs.hasField(f.t), have.count(f.t) > 0, "hasField " << S(1, f.c));
      if (have.count(f.t)) (f.t >= FileSpec::firstTime ? anyT : anyN) = true;
      if (!have.count(f.t))
      {
         bool threw = false;
         try { fs.extractField(want, f.t); } catch (gpstk::FileSpecException&) { threw = true; }
         REQUIRE(threw, "extractField of a field that is not in the specification: " << S(1, f.c));
      }
   }
   REQ_EQ(fs.hasTimeField(), anyT, "hasTimeField");
   REQ_EQ(fs.hasNonTimeField(), anyN, "hasNonTimeField");
   // time
   if (nU >= 1 && t.y >= 1969 && t.y < 2069)
   {
      CommonTime x = fs.extractCommonTime(want), e = ct(truncTo(s, nU - 1));
      REQUIRE(std::fabs(x - e) < 1e-6, "extractCommonTime(" << want << ") = " << gpstk::CivilTime(x) << " expected " << gpstk::CivilTime(e));
   }
   // reuse of an object
   std::vector<El> w0; w0.push_back(L("p")); w0.push_back(El{S("nrptvkxYjH")[g.below(10)], 3, true, ""});
   FileSpec r(specOf(w0));
   FileSpec& rr = r.newSpec(spec);
   REQUIRE(&rr == &r, "newSpec returns the object");
   for (auto& f : FLD)
      REQ_EQ(r.hasField(f.t), have.count(f.t) > 0, "hasField after newSpec " << S(1, f.c));
   REQ_EQ(r.hasTimeField(), anyT, "hasTimeField after newSpec");
   REQ_EQ(r.hasNonTimeField(), anyN, "hasNonTimeField after newSpec");
   REQ_EQ(r.toString(ct(t, frac), m), fs.toString(ct(t, frac), m), "toString after newSpec");
   REQ_EQ(r.createSearchString(), q, "createSearchString after newSpec");
   REQ_EQ(r.getSpecString(), spec, "getSpecString after newSpec");
}

// ------------------------------------------------------------------ 2
PROP(tokens, 300, 3000, "a letter that is a token")
{
   char c = (char)g.range(33, 126);
   if (g.flag()) c = FLD[g.below(sizeof FLD / sizeof *FLD)].c;
   g << "char " << S(1, c);
   bool known = c == 'c';
   for (auto& f : FLD) if (f.c == c) known = true;
   if (known)
   {
      g.nontrivial();
      FT t = FileSpec::convertFileSpecType(S(1, c));
      REQ_EQ((int)t, (int)(c == 'c' ? FileSpec::fullzcount : ftOf(c)), "type of " << S(1, c));
      REQ_EQ((int)FileSpec::convertFileSpecType(FileSpec::convertFileSpecType(t)), (int)t, "type to string and back");
      FileSpec fs(S("a%3") + c + "b");
      REQUIRE(fs.hasField(t), "hasField");
      int w = c == 'Y' ? 4 : 3;
      REQ_EQ(fs.createSearchString(), "a" + S(w, '?') + "b", "createSearchString");
   }
   else if (!isdigit(c))
   {
      bool threw = false;
      try { FileSpec::convertFileSpecType(S(1, c)); } catch (gpstk::FileSpecException&) { threw = true; }
      REQUIRE(threw, "convertFileSpecType accepts " << S(1, c));
      threw = false;
      try { FileSpec fs(S("a%3") + c + "b"); } catch (gpstk::FileSpecException&) { threw = true; }
      REQUIRE(threw, "FileSpec accepts %3" << S(1, c));
   }
}

// ------------------------------------------------------------------ 3
struct Cmp
{
   const std::vector<El>* v; bool asc;
   bool operator()(const S& a0, const S& b0) const
   {
      S a = a0.substr(a0.rfind('/') == S::npos ? 0 : a0.rfind('/') + 1);
      S b = b0.substr(b0.rfind('/') == S::npos ? 0 : b0.rfind('/') + 1);
      for (int ft = FileSpec::unknown + 1; ft < FileSpec::end; ft++)
      {
         size_t off = 0;
         for (auto& e : *v)
         {
            size_t w = e.c ? e.w : e.lit.size();
            if (e.c && ftOf(e.c) == ft)
            {
               int k = a.compare(off, w, b, off, w);
               if (k) return asc ? k < 0 : k > 0;
            }
            off += w;
         }
      }
      return false;
   }
};
PROP(sorting, 20000, 300000, "at least three names and two field types")
{
   std::vector<El> v;
   int n = (int)g.range(1, 5); S taken;
   bool ver = false;
   for (int i = 0; i < n; i++)
   {
      if (g.flag()) v.push_back(L(g.str("ab_.", 1, 3)));
      char c = S("nrptIvkxYmdHj")[g.below(13)];
      if (c == 'v' && (ver || !g.flag(0.5))) continue;
      if (c == 'v') ver = true;
      taken += c;
      v.push_back(El{c, c == 'Y' ? 4 : (int)g.range(1, 2), true, ""});
   }
   if (g.flag()) v.push_back(L(g.str("ab_.", 1, 3)));
   g.assume(!taken.empty());
   int N = (int)g.range(0, 12), alpha = (int)g.range(1, 3);
   bool paths = g.flag(0.3);
   std::vector<S> list;
   for (int i = 0; i < N; i++)
   {
      S s;
      for (auto& e : v) s += e.c ? g.str(S("0123").substr(0, alpha + 1), e.w, e.w) : e.lit;
      list.push_back(s);
   }
   if (paths)
      for (auto& s : list) s = (s[s.size() / 2] == '0' ? "/x/yy/" : "z/") + s;
   bool asc = g.flag();
   FileSpec fs(specOf(v));
   g << "spec=" << specOf(v) << (asc ? " ascending" : " descending") << " list:";
   for (auto& s : list) g << " " << s;
   if (N >= 3 && taken.size() >= 2) g.nontrivial();
   std::vector<S> got(list), want(list);
   fs.sortList(got, asc ? FileSpec::ascending : FileSpec::descending);
   std::stable_sort(want.begin(), want.end(), Cmp{&v, asc});
   S sig = paths ? "sort-with-paths" : "sort";
   if (ver)
   {
      sig = "sort-versions";
      size_t off = 0, w = 0;
      for (auto& e : v) { if (e.c == 'v') { w = e.w; break; } off += e.c ? e.w : e.lit.size(); }
      std::map<S, S> best;    // key without version -> version
      auto base = [](const S& s) { size_t p = s.rfind('/'); return p == S::npos ? s : s.substr(p + 1); };
      auto key = [&](const S& s) { S b = base(s); return b.erase(off, w); };
      for (auto& s : list) { S& b = best[key(s)]; b = std::max(b, base(s).substr(off, w)); }
      std::multiset<S> a, b;
      for (auto& k : best) a.insert(k.first + "|" + k.second);
      for (auto& s : got) b.insert(key(s) + "|" + base(s).substr(off, w));
      REQUIRE_SIG(sig, a == b, "the latest versions are not what is kept (" << b.size() << " names, expected " << a.size() << ")");
      for (size_t i = 1; i < got.size(); i++)
         REQUIRE_SIG(sig, !(Cmp{&v, asc}(got[i], got[i-1])), "names of the latest versions are not in order: " << got[i-1] << " before " << got[i]);
   }
   else
      REQUIRE_SIG(sig, got == want, "sorted list differs from the stable sort by fields");
}

// ------------------------------------------------------------------ trees
static void mkdirs(const S& p)
{
   for (size_t i = 1; i <= p.size(); i++)
      if (i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755);
}
static void touch(const S& p)
{
   mkdirs(p.substr(0, p.rfind('/')));
   FILE* f = fopen(p.c_str(), "w"); if (f) fclose(f);
}
static void rmTree(const S& p)
{
   S c = "rm -rf '" + p + "'";
   if (p.find("..") == S::npos && p.size() > 8) { int k = system(c.c_str()); (void)k; }
}
struct Tree
{
   std::vector<std::vector<El>> lev;      // per level
   int unit;                              // finest unit, -1 none
   bool civil, y2;
   S fields;                              // non time fields used
   mutable std::map<char,int> w;
   std::vector<El> all() const
   {
      std::vector<El> a;
      for (size_t i = 0; i < lev.size(); i++)
      { if (i) a.push_back(L("/")); a.insert(a.end(), lev[i].begin(), lev[i].end()); }
      return a;
   }
};
struct File { S path; long t; std::map<char,S> vals; };

static Tree genTree(G& g, bool timeRequired)
{
   Tree t;
   t.civil = g.flag(0.4); t.y2 = g.flag(0.25);
   t.unit = (int)g.range(timeRequired ? 0 : -1, 4);
   int nl = (int)g.range(1, 4), u = 0;
   S pool = "nrptvkx";
   for (int i = 0; i < nl; i++)
   {
      std::vector<El> l;
      bool last = i == nl - 1;
      auto lit = [&](double p) { if (g.flag(p)) l.push_back(L(g.str("abcQ_-", 1, 3))); };
      auto field = [&](double p) {
         if (!g.flag(p)) return;
         char c = pool[g.below(pool.size())];
         if (!t.w.count(c)) { t.w[c] = (int)g.range(1, 3); t.fields += c; }
         l.push_back(El{c, t.w[c], true, ""});
      };
      lit(last ? 0.8 : 0.5); field(0.3);
      int upTo = last ? t.unit : (int)g.range(u - 1, t.unit);
      if (last && u > 0 && g.flag(0.4)) u = 0;         // repeat the coarse units in the name
      for (; u <= upTo; u++) { addUnit(l, u, t.civil, t.y2); lit(0.2); }
      field(0.3);
      if (last) l.push_back(L(g.pick({".txt", ".rnx", "x", ".o"})));
      if (l.empty()) l.push_back(L("d"));
      t.lev.push_back(l);
   }
   return t;
}
static std::vector<File> genFiles(G& g, const Tree& t, const S& root, long s0, std::set<S>& decoys, bool hunter)
{
   std::vector<File> fl;
   std::set<S> names;
   int n = (int)g.range(0, 25);
   std::vector<El> a = t.all();
   std::map<char,std::vector<S>> pool;
   for (char c : t.fields)
      for (int k = 0; k < 2; k++)
         pool[c].push_back(c == 'x' || c == 't' ? g.str("ABc01", t.w[c], t.w[c]) : g.str("0123", t.w[c], t.w[c]));
   static const long step[] = {1, 10, 60, 600, 3600, 86400, 86400 * 40L, 86400 * 366L};
   long st = step[g.below(8)];
   for (int i = 0; i < n; i++)
   {
      File f;
      long s = s0 + g.range(-6, 6) * st + (g.flag(0.3) ? g.range(-5, 5) : 0);
      s = std::max(s, 86400L * 3700); s = std::min(s, secOf(mk(2068, 300, 0)));
      f.t = truncTo(s, t.unit);
      for (char c : t.fields) f.vals[c] = pool[c][g.below(2)];
      S rel = render(a, fromSec(f.t), f.vals);
      f.path = root + "/" + rel;
      if (!names.insert(f.path).second) continue;
      touch(f.path);
      fl.push_back(f);
      if (g.flag(0.5))       // decoys that are near the name
      {
         size_t b = f.path.rfind('/') + 1;
         S d = f.path;
         switch (g.below(hunter ? 4 : 5))
         {
            case 0: d += "x"; break;
            case 1: d.insert(b, "0"); break;
            case 2: d.erase(d.size() - 1); if (d.size() == b) d += "yy"; break;
            case 3: d[d.size() - 1] = d[d.size() - 1] == 'q' ? 'r' : 'q'; break;
            case 4:            // a letter where a digit belongs
            {
               size_t off = 0; bool did = false;
               for (auto& e : t.lev.back())
               {
                  if (isTime(e.c) && !did) { d[b + off] = 'k'; did = true; }
                  off += e.c ? e.w : e.lit.size();
               }
               if (!did) d += "z";
               break;
            }
         }
         decoys.insert(d);
      }
   }
   for (auto& d : decoys) if (!names.count(d)) touch(d);
   return fl;
}
static void show(G& g, const std::vector<File>& f, const S& root)
{
   for (auto& x : f) g << "\n  " << x.path.substr(root.size() + 1) << " t=" << gpstk::CivilTime(ct(x.t));
}
static S cmpSets(std::vector<S> got, std::vector<S> want, const S& root)
{
   std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
   if (got == want) return "";
   S m;
   for (auto& x : want) if (!std::binary_search(got.begin(), got.end(), x)) m += " missing " + x.substr(root.size() + 1);
   for (auto& x : got) if (!std::binary_search(want.begin(), want.end(), x)) m += " extra " + x.substr(std::min(x.size(), root.size() + 1));
   if (m.empty()) m = " a file is listed more than once";
   return m;
}
static void genSpan(G& g, long s0, const std::vector<File>& f, long& a, long& b)
{
   static const long step[] = {0, 1, 60, 3600, 86400, 86400 * 31L, 86400 * 400L};
   a = s0 + g.range(-3, 3) * step[g.below(7)] + g.range(-1, 1);
   b = a + (g.flag(0.2) ? 0 : g.range(0, 4) * step[g.below(7)] + g.range(0, 1));
   if (!f.empty() && g.flag(0.3)) a = f[g.below(f.size())].t + g.range(-1, 1);
   if (!f.empty() && g.flag(0.3)) b = f[g.below(f.size())].t + g.range(-1, 1);
   a = std::max(a, 86400L * 3660); b = std::max(b, a);
   b = std::min(b, secOf(mk(2068, 360, 0))); a = std::min(a, b);
}

// ------------------------------------------------------------------ 4
PROP(specfind, 4000, 60000, "some but not all of the files of the tree match")
{
   S root = pbt::scratch() + "/tree";
   rmTree(root); mkdirs(root);
   Tree t = genTree(g, false);
   long s0 = g.range(secOf(mk(1981, 1, 0)), secOf(mk(2067, 1, 0)));
   if (g.flag(0.5)) { YD y = fromSec(s0); s0 = g.flag() ? secOf(mk(y.y, 1, 0)) : secOf(mk(y.y, y.doy, 0)); }
   std::set<S> decoys;
   std::vector<File> f = genFiles(g, t, root, s0, decoys, false);
   long a, b; genSpan(g, s0, f, a, b);
   double fb = 0;
   std::vector<El> all = t.all();
   S spec = root + "/" + specOf(all);
   int mode = (int)g.below(3);       // 0 plain, 1 filter, 2 text fields of free width
   FileSpecFind::Filter flt;
   FileSpec::FSTStringMap fsts;
   std::map<char,std::set<S>> fm;
   S wantText; bool useText = false;
   if (mode == 1)
      for (char c : S("nrptvkx")) if (g.flag(0.5))
      {
         int k = (int)g.range(1, 2);
         for (int i = 0; i < k; i++)
         {
            S v;
            if (!f.empty() && t.fields.find(c) != S::npos && g.flag(0.7)) v = f[g.below(f.size())].vals[c];
            else v = g.str("0123", 1, 3);
            flt.insert(std::make_pair(ftOf(c), v));
            if (t.fields.find(c) != S::npos) fm[c].insert(v);
         }
      }
   if (mode == 2)
   {
      // %x and %t of no width, whose width (and text) come from the given values
      std::vector<El> alt(all); S sp = root + "/";
      for (auto& e : all)
         sp += (e.c == 'x' || e.c == 't') ? S("%") + e.c : tok(e);
      spec = sp;
      if (t.w.count('x'))
      {
         wantText = f.empty() ? S(t.w['x'], 'A') : f[g.below(f.size())].vals['x'];
         fsts[FileSpec::text] = wantText; useText = true;
      }
      if (t.w.count('t'))
         fsts[FileSpec::selected] = f.empty() ? S(t.w['t'], 'A') : f[g.below(f.size())].vals['t'];
   }
   g << "spec=" << spec.substr(root.size() + 1) << " from " << gpstk::CivilTime(ct(a)) << " to " << gpstk::CivilTime(ct(b, fb)) << " mode " << mode;
   for (auto& k : fm) for (auto& v : k.second) g << " filter " << S(1, k.first) << "=" << v;
   if (useText) g << " text=" << wantText;
   show(g, f, root);
   std::vector<S> want;
   long ta = truncTo(a, t.unit), tb = truncTo(b, t.unit);
   for (auto& x : f)
   {
      bool ok = t.unit < 0 || (ta <= x.t && (x.t < b || (x.t == ta && ta == tb)));
      for (auto& k : fm) if (!k.second.count(x.vals.at(k.first))) ok = false;
      if (useText && x.vals.at('x') != wantText) ok = false;
      if (ok) want.push_back(x.path);
   }
   if (!want.empty() && want.size() < f.size()) g.nontrivial();
   std::list<S> got = mode == 1 ? (g.flag() ? FileSpecFind::find(spec, ct(a), ct(b, fb), flt) : FileSpecFind::find(FileSpec(spec), ct(a), ct(b, fb), flt))
                                : (g.flag() ? FileSpecFind::find(spec, ct(a), ct(b, fb), fsts) : FileSpecFind::find(FileSpec(spec), ct(a), ct(b, fb), fsts));
   S m = cmpSets(std::vector<S>(got.begin(), got.end()), want, root);
   rmTree(root);
   REQUIRE_SIG(mode == 2 ? "specfind-fsts" : "specfind", m.empty(), "FileSpecFind:" << m);
}

// ------------------------------------------------------------------ 5
PROP(hunter, 3000, 40000, "some but not all of the files of the tree match")
{
   S root = pbt::scratch() + "/tree";
   rmTree(root); mkdirs(root);
   Tree t = genTree(g, true);
   size_t p;
   for (auto& l : t.lev) for (auto& e : l) if (e.c == 'v') e.c = 'r';      // no versions: see DESIGN.md
   if ((p = t.fields.find('v')) != S::npos)
   {
      int w = t.w['v'];
      if (t.w.count('r')) { w = t.w['r']; t.fields.erase(p, 1); } else t.fields[p] = 'r';
      t.w.erase('v'); t.w['r'] = w;
      for (auto& l : t.lev) for (auto& e : l) if (e.c == 'r') e.w = w;
   }
   long s0 = g.range(secOf(mk(1981, 1, 0)), secOf(mk(2067, 1, 0)));
   if (g.flag(0.5)) { YD y = fromSec(s0); s0 = g.flag() ? secOf(mk(y.y, 1, 0)) : secOf(mk(y.y, y.doy, 0)); }
   std::set<S> decoys;
   std::vector<File> f = genFiles(g, t, root, s0, decoys, true);
   long a, b; genSpan(g, s0, f, a, b);
   static const FileHunter::FileChunking CH[] = {FileHunter::WEEK, FileHunter::DAY, FileHunter::HOUR, FileHunter::MINUTE};
   int ch = (int)g.below(4);
   bool asc = g.flag();
   long ea = a;
   if (ch == 0)
   {
      long d = a / 86400; long dow = (d + 4) % 7;       // 1970-01-01 is a Thursday
      ea = (d - dow) * 86400;
   }
   else ea = truncTo(a, ch);
   S spec = root + "/" + specOf(t.all());
   g << "spec=" << spec.substr(root.size() + 1) << " from " << gpstk::CivilTime(ct(a)) << " to " << gpstk::CivilTime(ct(b)) << " chunk " << ch << (asc ? " asc" : " desc");
   std::map<char,std::vector<S>> fm;
   for (char c : t.fields) if (g.flag(0.3))
   {
      int k = (int)g.range(1, 2);
      for (int i = 0; i < k; i++)
      {
         S v = !f.empty() && g.flag(0.8) ? f[g.below(f.size())].vals[c] : g.str("0123", 1, t.w[c]);
         if (g.flag(0.3)) while (v.size() > 1 && v[0] == '0') v.erase(0, 1);
         fm[c].push_back(v); g << " filter " << S(1, c) << "=" << v;
      }
   }
   show(g, f, root);
   std::vector<S> want;
   for (auto& x : f)
   {
      bool ok = ea <= x.t && x.t <= b;
      for (auto& k : fm)
      {
         bool any = false;
         for (S v : k.second) { while ((int)v.size() < t.w[k.first]) v = "0" + v; if (v == x.vals.at(k.first)) any = true; }
         if (!any) ok = false;
      }
      if (ok) want.push_back(x.path);
   }
   if (!want.empty() && want.size() < f.size()) g.nontrivial();
   FileHunter fh(g.flag(0.3) ? S("/nowhere/%4Y") : spec);
   fh.newHunt(spec);
   for (auto& k : fm) fh.setFilter(ftOf(k.first), k.second);
   bool threw = false;
   try { fh.setFilter(FileSpec::fsecond, std::vector<S>(1, "1")); } catch (gpstk::FileHunterException&) { threw = true; }
   REQUIRE(threw, "setFilter on a field that is not in the specification");
   std::vector<S> got = fh.find(ct(a), ct(b), asc ? FileSpec::ascending : FileSpec::descending, CH[ch]);
   S m = cmpSets(got, want, root);
   if (b > a)
   {
      threw = false;
      try { fh.find(ct(b), ct(a)); } catch (gpstk::FileHunterException&) { threw = true; }
      REQUIRE(threw, "FileHunter::find with end before start");
   }
   rmTree(root);
   REQUIRE_SIG("hunter", m.empty(), "FileHunter:" << m);
   Cmp c{&t.lev.back(), asc};
   for (size_t i = 1; i < got.size(); i++)
      REQUIRE_SIG("hunter-order", !c(got[i], got[i-1]), "FileHunter order: " << got[i-1] << " before " << got[i]);
}

PBT_MAIN
