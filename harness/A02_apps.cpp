// apps: core/apps/time/timeconvert.cpp core/apps/time/timediff.cpp core/apps/time/calgps.cpp core/apps/positioning/poscvt.cpp
// A02: the conversion applications, run as programs, against computations of their own (none of the library is used here).
#include "pbt.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <cmath>
using namespace std; using pbt::strf;
typedef long long ll;
struct Run { int rc; string out; };
static Run run(const vector<string>& a)
{
   int p[2]; if (pipe(p)) pbt::fail("pipe", "harness");
   string exe = string(getenv("VERIF_EXE_DIR") ? getenv("VERIF_EXE_DIR") : ".") + "/" + a[0];
   pid_t c = fork();
   if (c == 0)
   {
      dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]); int n = open("/dev/null", O_RDONLY); dup2(n, 0);
      setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1);
      vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(nullptr);
      execv(exe.c_str(), v.data()); _exit(126);
   }
   close(p[1]); Run r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.out.append(b, n); close(p[0]);
   int st = 0; waitpid(c, &st, 0); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
   if (r.rc == 126) pbt::fail("cannot run " + exe, "harness");
   return r;
}
static string line(const vector<string>& a) { string s; for (auto& x : a) s += (s.empty() ? "" : " ") + (x.find(' ') == string::npos && !x.empty() ? x : "'" + x + "'"); return s; }
static vector<string> lines(const string& s) { vector<string> r; string x; for (char c : s) if (c == '\n') { r.push_back(x); x.clear(); } else x += c; if (!x.empty()) r.push_back(x); return r; }
static vector<string> split(const string& s, char c) { vector<string> r(1); for (char k : s) if (k == c) r.push_back(""); else r.back() += k; return r; }
static vector<string> words(const string& s) { vector<string> r; string x; for (char c : s + " ") if (c == ' ') { if (!x.empty()) r.push_back(x); x.clear(); } else x += c; return r; }
   // calendar ------------------------------------------------------------
static void civil(ll z, ll& y, int& m, int& d)   // z: days since 1970-01-01
{
   z += 719468; ll era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097; unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
   y = (ll)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
}
static ll days(ll y, int m, int d) { y -= m <= 2; ll era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400; unsigned doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (ll)doe - 719468; }
struct Tm   // everything about one time, from milliseconds since 1970
{
   ll ms, day, msod, y, yy; int m, d, H, M, doy; ll week, sowms, z; int dow;
   explicit Tm(ll t) : ms(t)
   {
      day = t >= 0 ? t / 86400000 : -((-t + 86399999) / 86400000); msod = t - day * 86400000; civil(day, y, m, d); yy = y % 100;
      H = msod / 3600000; M = msod / 60000 % 60; doy = day - days(y, 1, 1) + 1;
      ll g = t - 315964800000LL; week = g >= 0 ? g / 604800000 : -1; sowms = g - week * 604800000; dow = sowms / 86400000; z = sowms / 1500;
   }
   ll sec() const { return msod / 1000 % 60; }
   ll secms() const { return msod % 60000; }
};
static string ms3(ll v) { return strf("%lld.%03lld", v / 1000, v % 1000); }
static const ll GPS0 = 315964800000LL;
   // one way of giving a time on the command line: option, value and the time it means -----------------------
struct In { string opt, val; ll ms; bool ok; };
static In genIn(pbt::G& g, bool gpsOnly)
{
   static const ll lo = days(1980, 1, 6), hi = days(2059, 12, 31), wlo = days(1859, 1, 1), whi = days(2399, 12, 31);
   In r; r.ok = true;
   int k = g.below(12);
   bool wide = !gpsOnly && g.flag(0.25) && (k == 0 || k == 1 || k == 8 || k == 9 || k == 11);
   ll day = wide ? g.range(wlo, whi) : g.flag(0.3) ? g.pick<ll>({lo, days(1999, 8, 21), days(1999, 8, 22), days(2000, 2, 29), days(2019, 4, 6), days(2019, 4, 7), days(2038, 1, 18), days(2038, 1, 19), days(2000, 12, 31), days(1999, 12, 31), days(2001, 1, 1), days(2004, 12, 31)}) : g.range(lo, hi);
   if (k == 0 && day < 0) day = -day;
   ll ms; switch (g.below(5)) { case 0: ms = g.pick<ll>({0, 125, 59875, 60000, 86399000, 86399875, 43200000, 1500, 1375}); break; case 1: ms = g.range(0, 23) * 3600000; break; default: ms = g.range(0, 691199) * 125; }
   if (k == 0 || k == 2) ms = ms / 1000 * 1000;
   if (k == 5 || k == 6 || k == 7) ms = ms / 1500 * 1500;
   if (k == 8 || k == 9) ms = ms / 1350000 * 1350000;
   Tm t(day * 86400000 + ms); r.ms = t.ms;
   auto L = [&](const char* s, const char* l) { r.opt = g.flag(0.5) ? string("-") + s : string("--") + l; };
   switch (k)
   {
      case 0: L("A", "ansi"); r.val = strf("%lld", t.ms / 1000); break;
      case 1: L("c", "civil"); r.val = strf(g.flag() ? "%02d %02d %04lld %02d:%02d:%lld.%03lld" : "%d %d %lld %d:%d:%lld.%03lld", t.m, t.d, t.y, t.H, t.M, t.sec(), t.secms() % 1000); break;
      case 2: { L("R", "rinex-file"); if (t.y > 2068) t = Tm(t.ms - 86400000LL * 3653 * 2), r.ms = t.ms; r.val = strf("%02lld %02d %02d %02d %02d %02lld", t.yy, t.m, t.d, t.H, t.M, t.sec()); break; }
      case 3: L("o", "ews"); r.val = strf("%lld %lld %s", t.week / 1024, t.week % 1024, ms3(t.sowms).c_str()); break;
      case 4: L("f", "ws"); r.val = strf("%lld %s", t.week, ms3(t.sowms).c_str()); break;
      case 5: L("w", "wz"); r.val = strf("%lld %lld", t.week, t.z); break;
      case 6: r.opt = "--z29"; r.val = strf("%lld %lld", t.week / 1024, t.week % 1024 * 524288 + t.z); break;
      case 7: L("Z", "z32"); r.val = strf("%lld", t.week * 524288 + t.z); break;
      case 8: L("j", "julian"); r.val = strf("%.6Lf", (long double)(t.day + 2440587) + 0.5L + t.msod / 86400000.0L); break;
      case 9: L("m", "mjd"); r.val = strf("%.6Lf", (long double)(t.day + 40587) + t.msod / 86400000.0L); break;
      case 10: L("u", "unixtime"); r.val = strf("%lld %lld", t.ms / 1000, t.ms % 1000 * 1000); break;
      case 11: L("y", "doy"); r.val = strf("%lld %d %s", t.y, t.doy, ms3(t.msod).c_str()); break;
   }
   g.label(r.opt.substr(0, 3)); if (t.y < 1980) g.label("before 1980");
   return r;
}
static void push(pbt::G& g, vector<string>& a, const string& opt, const string& val)
{
   if (opt[1] == '-' && g.flag()) a.push_back(opt + "=" + val);
   else if (opt[1] != '-' && !val.empty() && g.flag(0.3)) a.push_back(opt + val);
   else { a.push_back(opt); a.push_back(val); }
}
static string spoil(pbt::G& g, const string& v)   // a value with a field missing
{
   auto p = v.rfind(' '); if (p == string::npos || g.flag(0.1)) return "";
   return g.flag() ? v.substr(0, p) : v.substr(0, v.find(' '));
}
static void refused(const vector<string>& a, const Run& r, const char* what)
{
   REQUIRE(r.rc > 0 && r.rc < 1000, what << ": exit status " << r.rc << " for " << line(a));
   REQUIRE(r.out.find_first_not_of(" \n") != string::npos, what << ": no message for " << line(a));
}
struct Tok { const char* f; function<string(const Tm&)> s; function<double(const Tm&)> d; double tol; bool gps; };
static vector<Tok> toks()
{
   typedef const Tm& T; vector<Tok> v;
   auto S = [&](const char* f, function<string(T)> s, bool gps = false) { v.push_back({f, s, nullptr, 0, gps}); };
   auto D = [&](const char* f, function<double(T)> d, double tol, bool gps = false) { v.push_back({f, nullptr, d, tol, gps}); };
   static const char* mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
   S("%04Y", [](T t) { return strf("%04lld", t.y); }); S("%02y", [](T t) { return strf("%02lld", t.yy); }); S("%m", [](T t) { return strf("%d", t.m); }); S("%02d", [](T t) { return strf("%02d", t.d); });
   S("%b", [](T t) { return string(mon[t.m - 1]); }); S("%02H", [](T t) { return strf("%02d", t.H); }); S("%M", [](T t) { return strf("%d", t.M); }); S("%02S", [](T t) { return strf("%02lld", t.sec()); });
   S("%f", [](T t) { return strf("%.6f", t.secms() / 1000.0); }); S("%03j", [](T t) { return strf("%03d", t.doy); }); S("%s", [](T t) { return strf("%.6f", t.msod / 1000.0); });
   S("%F", [](T t) { return strf("%lld", t.week); }, true); S("%G", [](T t) { return strf("%lld", t.week % 1024); }, true); S("%E", [](T t) { return strf("%lld", t.week / 1024); }, true);
   S("%g", [](T t) { return strf("%.6f", t.sowms / 1000.0); }, true); S("%w", [](T t) { return strf("%d", t.dow); }, true); S("%z", [](T t) { return strf("%lld", t.z); }, true); S("%Z", [](T t) { return strf("%lld", t.z); }, true);
   S("%c", [](T t) { return strf("%lld", t.week % 1024 * 524288 + t.z); }, true); S("%C", [](T t) { return strf("%lld", t.week * 524288 + t.z); }, true);
   S("%U", [](T t) { return strf("%lld", t.ms / 1000); }, true); S("%u", [](T t) { return strf("%lld", t.ms % 1000 * 1000); }, true);
   D("%.9Q", [](T t) { return 40587 + t.ms / 86400000.0; }, 2e-9); D("%.7J", [](T t) { return 2440587.5 + t.ms / 86400000.0; }, 2e-7);
   S("%P", [](T) { return string("GPS"); });
   return v;
}
static ll offset(pbt::G& g) { return g.pick<ll>({0, 1, -1, 60, 3600, 86400, -86400, 604800, (ll)g.range(-100000, 100000), (ll)g.range(-10000000, 10000000)}); }

PROP(timeconvert, 12000, 200000, "a time was converted")
{
   static const vector<Tok> T = toks();
   vector<pair<string, string>> o; bool useFmt = g.flag(0.7); In in = genIn(g, true); bool now = false;
   enum { GOOD, BADTIME, TWO, BADOFF, HALFIN, EXTRA, UNKNOWN, TWICE } err = GOOD;
   if (g.flag(0.12)) err = (decltype(err))g.range(1, 7);
   Tm t(in.ms); bool wide = false;
   if (useFmt && err == GOOD && g.flag(0.3)) { in = genIn(g, false); wide = true; }
   bool mixed = err != TWO && err != BADTIME && err != TWICE && g.flag(0.2);
   if (err == HALFIN) { if (g.flag()) o.push_back({"--input-format", "%Y %j"}); else o.push_back({"--input-time", "2010 33"}); }
   else if (err == BADTIME) o.push_back({in.opt, spoil(g, in.val)});
   else if (mixed)
   {
      Tm q(in.ms);
      switch (g.below(4))
      {
         case 0: o.push_back({"--input-format", "%Y %m %d %H %M %f"}); o.push_back({"--input-time", strf("%lld %d %d %d %d %s", q.y, q.m, q.d, q.H, q.M, ms3(q.secms()).c_str())}); break;
         case 1: o.push_back({"--input-format", "%Y-%b-%d,%s"}); { static const char* mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; o.push_back({"--input-time", strf("%lld-%s-%d,%s", q.y, mon[q.m - 1], q.d, ms3(q.msod).c_str())}); } break;
         case 2: o.push_back({"--input-format", "%4Y%03j %s"}); o.push_back({"--input-time", strf("%04lld%03d %s", q.y, q.doy, ms3(q.msod).c_str())}); break;
         default: o.push_back({"--input-format", "%Y/%m/%d"}); o.push_back({"--input-time", strf("%lld/%d/%d", q.y, q.m, q.d)}); in.ms = q.day * 86400000; break;
      }
      g.label("input format");
   }
   else o.push_back({in.opt, in.val});
   if (err == TWICE) o.push_back({in.opt, in.val});
   if (err == TWO) { In b = genIn(g, true); if (b.opt.substr(1, 3) == in.opt.substr(1, 3)) err = TWICE; o.push_back({b.opt, b.val}); }
   ll add = 0; int na = g.weighted({5, 3, 1, 1}), ns = g.weighted({5, 3, 1, 1});
   for (int i = 0; i < na; ++i) { ll v = offset(g); add += v; o.push_back({g.flag() ? "-a" : "--add-offset", strf("%lld", v)}); }
   for (int i = 0; i < ns; ++i) { ll v = offset(g); add -= v; o.push_back({g.flag() ? "-s" : "--sub-offset", strf("%lld", v)}); }
   if (err == BADOFF) o.push_back({g.flag() ? "-a" : "-s", g.pick<string>({"x", "1x", "ten"})});
   ll ms = in.ms + add * 1000; bool nogps = ms < GPS0; vector<int> pick; string fmt;
   if (useFmt)
   {
      int n = g.range(1, 6); for (int i = 0; i < n; ++i) { int k = g.below(T.size()); if ((wide || nogps) && T[k].gps) k = g.below(11); pick.push_back(k); fmt += (i ? "|" : "") + string(T[k].f); }
      o.push_back({g.flag() ? "-F" : "--format", fmt});
   }
   if (!g.flag(0.5)) { auto first = o; for (size_t i = o.size(); i > 1; --i) swap(o[i - 1], o[g.below(i)]); }
   vector<string> a{"timeconvert"}; for (auto& p : o) push(g, a, p.first, p.second);
   if (err == UNKNOWN) a.push_back(g.pick<string>({"-q", "--nothing", "-Y"}));
   if (err == EXTRA) a.push_back("word");
   g << line(a); Run r = run(a);
   if (err != GOOD) { g.label("refused"); g.nontrivial(); refused(a, r, "timeconvert must refuse"); return; }
   g.assume(ms / 86400000 > days(1801, 1, 2) && ms / 86400000 < days(2400, 1, 1));
   t = Tm(ms); g.nontrivial(); (void)now;
   if (!useFmt && nogps) { g.label("no GPS week"); refused(a, r, "timeconvert without format before 1980"); return; }
   REQUIRE(r.rc == 0, "timeconvert exit status " << r.rc << " for " << line(a) << ": " << r.out);
   if (useFmt)
   {
      REQUIRE(!r.out.empty() && r.out.back() == '\n', "timeconvert: no line end"); auto w = split(r.out.substr(0, r.out.size() - 1), '|');
      REQUIRE(w.size() == pick.size(), "timeconvert " << line(a) << " printed " << r.out);
      for (size_t i = 0; i < w.size(); ++i)
      {
         const Tok& k = T[pick[i]];
         if (k.s) { REQUIRE(w[i] == k.s(t), "timeconvert " << line(a) << ": " << k.f << " printed " << w[i] << ", expected " << k.s(t)); }
         else { REQUIRE(fabs(atof(w[i].c_str()) - k.d(t)) <= k.tol, "timeconvert " << line(a) << ": " << k.f << " printed " << w[i] << ", expected " << strf("%.9f", k.d(t))); }
      }
      return;
   }
   g.label("table");
   vector<pair<string, string>> E = {
      {"Month/Day/Year H:M:S", strf("%02d/%02d/%04lld %02d:%02d:%02lld", t.m, t.d, t.y, t.H, t.M, t.sec())}, {"Modified Julian Date", ""},
      {"GPSweek DayOfWeek SecOfWeek", strf("%lld %d %13.6f", t.week % 1024, t.dow, t.sowms / 1000.0)}, {"FullGPSweek Zcount", strf("%lld %6lld", t.week, t.z)},
      {"Year DayOfYear SecondOfDay", strf("%lld %03d %12.6f", t.y, t.doy, t.msod / 1000.0)}, {"Unix: Second Microsecond", strf("%lld %6lld", t.ms / 1000, t.ms % 1000 * 1000)},
      {"Zcount: 29-bit (32-bit)", strf("%lld (%lld)", t.week % 1024 * 524288 + t.z, t.week * 524288 + t.z)}};
   auto L = lines(r.out); vector<string> rows; for (auto& l : L) if (l.find_first_not_of(' ') != string::npos) rows.push_back(l);
   REQUIRE(rows.size() == E.size(), "timeconvert " << line(a) << " printed " << rows.size() << " rows:\n" << r.out);
   for (size_t i = 0; i < E.size(); ++i)
   {
      REQUIRE(rows[i].substr(0, 8) == string(8, ' ') && rows[i].compare(8, E[i].first.size(), E[i].first) == 0, "timeconvert " << line(a) << " row " << i << ": " << rows[i]);
      auto x = words(rows[i].substr(40)), y = words(E[i].second);
      if (i == 1) { REQUIRE(x.size() == 1 && fabs(atof(x[0].c_str()) - (40587 + t.ms / 86400000.0)) < 2e-9, "timeconvert " << line(a) << " MJD row: " << rows[i]); }
      else REQUIRE(x == y, "timeconvert " << line(a) << " row: " << rows[i] << "\n expected " << E[i].second);
   }
}
PROP(timediff, 6000, 100000, "two times were differenced")
{
   vector<In> v; int n = g.weighted({1, 2, 30, 2, 1}); for (int i = 0; i < n; ++i) v.push_back(genIn(g, g.flag()));
   if (n == 2 && g.flag(0.2)) { v[1] = v[0]; g.label("same option"); }
   vector<string> a{"timediff"}; bool verbose = g.flag(0.2), bad = n && g.flag(0.06); int badAt = bad ? (int)g.below(n) : -1; int vAt = g.below(n + 1);
   for (int i = 0; i <= n; ++i) { if (verbose && i == vAt) a.push_back(g.flag() ? "-v" : "--verbose"); if (i < n) push(g, a, v[i].opt, i == badAt ? spoil(g, v[i].val) : v[i].val); }
   g << line(a); Run r = run(a); g.nontrivial();
   if (n != 2 || bad) { g.label("refused"); refused(a, r, "timediff must refuse"); return; }
   REQUIRE(r.rc == 0, "timediff exit status " << r.rc << " for " << line(a) << ": " << r.out);
   ll d = v[0].ms - v[1].ms; string e = strf("%s%lld.%03lld000", d < 0 ? "-" : "", llabs(d) / 1000, llabs(d) % 1000); if (verbose) e = v[0].val + " - " + v[1].val + " = " + e;
   REQUIRE(r.out == e + "\n", "timediff " << line(a) << " printed " << r.out << " expected " << e);
}
   // poscvt ----------------------------------------------------------------
struct Pos { double x, y, z, lat, lon, h, glat, r, rho; };
static Pos place(double lat, double lon, double h)
{
   const double A = 6378137.0, e2 = 0.00669437999014132, D = M_PI / 180; Pos p; p.lat = lat; p.lon = lon; p.h = h;
   double s = sin(lat * D), N = A / sqrt(1 - e2 * s * s); p.rho = (N + h) * cos(lat * D); p.z = (N * (1 - e2) + h) * s; p.x = p.rho * cos(lon * D); p.y = p.rho * sin(lon * D);
   p.r = hypot(p.rho, p.z); p.glat = atan2(p.z, p.rho) / D; return p;
}
struct PTok { const char* f; function<double(const Pos&)> d; double tol; bool angle; };
PROP(poscvt, 8000, 150000, "a position was converted")
{
   typedef const Pos& P; const double D = M_PI / 180;
   static const vector<PTok> T = {
      {"%.4x", [](P p) { return p.x; }, 1, 0}, {"%.4y", [](P p) { return p.y; }, 1, 0}, {"%.4z", [](P p) { return p.z; }, 1, 0}, {"%.7X", [](P p) { return p.x / 1000; }, 2, 0}, {"%.7Y", [](P p) { return p.y / 1000; }, 2, 0}, {"%.7Z", [](P p) { return p.z / 1000; }, 2, 0},
      {"%.8A", [](P p) { return p.lat; }, 3, 0}, {"%.8L", [](P p) { return p.lon; }, 3, 1}, {"%.4h", [](P p) { return p.h; }, 1, 0}, {"%.7H", [](P p) { return p.h / 1000; }, 2, 0}, {"%.8a", [](P p) { return p.glat; }, 3, 0}, {"%.8l", [](P p) { return p.lon; }, 3, 1},
      {"%.8w", [](P p) { return 360 - p.lon; }, 3, 1}, {"%.8W", [](P p) { return 360 - p.lon; }, 3, 1}, {"%.4r", [](P p) { return p.r; }, 1, 0}, {"%.7R", [](P p) { return p.r / 1000; }, 2, 0}, {"%.8t", [](P p) { return 90 - p.glat; }, 3, 0}, {"%.8p", [](P p) { return p.lon; }, 3, 1},
      {"%.8T", [](P p) { return (90 - p.glat) * M_PI / 180; }, 4, 0}, {"%.8P", [](P p) { return p.lon * M_PI / 180; }, 4, 2}};
   double lat = g.flag(0.2) ? g.pick({0.0, 89.5, -89.5, 45.0, -45.0}) : g.range(-89900, 89900) / 1000.0, lon = g.flag(0.2) ? g.pick({0.0, 90.0, 180.0, 270.0, 359.5}) : g.range(0, 359999) / 1000.0;
   double h = g.flag(0.1) ? 0 : g.flag(0.3) ? g.range(100000, 30000000) : g.range(-4000, 20000) / (g.flag() ? 1.0 : 8.0);
   Pos p = place(lat, lon, h); int k = g.below(4); string o, v; double tolM = 2e-4, tolD = 2e-8;   // what the digits given on the command line leave
   switch (k)
   {
      case 0: o = "--ecef"; v = strf("%.5f %.5f %.5f", p.x, p.y, p.z); break;
      case 1: { o = "--geodetic"; double l = lon; if (g.flag(0.3) && lon > 180) { l -= 360; g.label("west as negative"); } v = strf("%.3f %.3f %.3f", lat, l, h); break; }
      case 2: o = "--geocentric"; v = strf("%.11f %.3f %.5f", p.glat, lon, p.r); break;
      case 3: o = "--spherical"; v = strf("%.11f %.3f %.5f", 90 - p.glat, lon, p.r); break;
   }
   g.label(o); tolD += 1e-4 / (p.rho * D);
   vector<string> a{"poscvt"}; int err = g.flag(0.12) ? g.range(1, 6) : 0;
   if (err == 1) v = spoil(g, v); else if (err == 2) { o = g.pick<string>({"--geodetic", "--geocentric"}); v = g.pick<string>({"90.5 10 6400000", "-91 0 6400000", "95 -30 6400000"}); }
   if (err != 3) push(g, a, o, v);
   if (err == 4) push(g, a, o == "--ecef" ? "--geodetic" : "--ecef", "1 2 3"); if (err == 5) push(g, a, o, v); if (err == 6) a.push_back(g.pick<string>({"word", "--nothing", "-q"}));
   bool fmt = g.flag(0.6); vector<int> pick;
   if (fmt) { string f; int n = g.range(1, 6); for (int i = 0; i < n; ++i) { pick.push_back(g.below(T.size())); f += (i ? "|" : "") + string(T[pick[i]].f); } vector<string> b; push(g, b, g.flag() ? "-F" : "--output-format", f); if (g.flag()) a.insert(a.end(), b.begin(), b.end()); else a.insert(a.begin() + 1, b.begin(), b.end()); }
   bool list = !err && g.flag(0.03); if (list) a.push_back(g.flag() ? "-l" : "--list-formats");
   g << line(a); Run r = run(a); g.nontrivial();
   if (err) { g.label("refused"); refused(a, r, "poscvt must refuse"); return; }
   REQUIRE(r.rc == 0, "poscvt exit status " << r.rc << " for " << line(a) << ": " << r.out);
   auto near = [&](const string& w, const PTok& t, const string& what)
   {
      double e = t.d(p), got = atof(w.c_str()), d = fabs(got - e); double per = t.angle == 1 ? 360 : 2 * M_PI; if (t.angle) d = min(d, fabs(per - d));
      double tol = t.tol == 1 ? tolM : t.tol == 2 ? tolM / 1000 : t.tol == 3 ? tolD : tolD * D + 2e-8;
      size_t dot = w.find('.'); size_t dig = dot == string::npos ? 0 : w.size() - dot - 1; size_t want = t.f[2] - '0';
      REQUIRE(d <= tol && dig == want, "poscvt " << line(a) << ": " << what << " printed " << w << ", expected " << strf("%.*f", (int)want, e));
   };
   if (list) { g.label("list"); for (auto f : {"%x %y %z", "%X %Y %Z", "%a %l %r", "%A %L %h", "%t %p %r"}) REQUIRE(r.out.find(f) != string::npos, "poscvt -l does not name " << f); return; }
   if (fmt)
   {
      auto w = split(r.out.substr(0, r.out.find('\n')), '|'); REQUIRE(w.size() == pick.size(), "poscvt " << line(a) << " printed " << r.out);
      for (size_t i = 0; i < w.size(); ++i) near(w[i], T[pick[i]], T[pick[i]].f);
      return;
   }
   g.label("table"); vector<string> rows; for (auto& l : lines(r.out)) if (l.find_first_not_of(' ') != string::npos) rows.push_back(l);
   vector<pair<string, vector<int>>> E = {{"ECEF (x,y,z) in meters", {0, 1, 2}}, {"Geodetic (llh) in deg, deg, m", {6, 7, 8}}, {"Geocentric (llr) in deg, deg, m", {10, 11, 14}}, {"Spherical (tpr) in deg, deg, m", {16, 17, 14}}};
   REQUIRE(rows.size() == 4, "poscvt " << line(a) << " printed " << r.out);
   for (int i = 0; i < 4; ++i)
   {
      REQUIRE(rows[i].compare(4, E[i].first.size(), E[i].first) == 0, "poscvt row " << rows[i]); auto w = words(rows[i].substr(40)); REQUIRE(w.size() == 3, "poscvt row " << rows[i]);
      for (int j = 0; j < 3; ++j) near(w[j], T[E[i].second[j]], rows[i]);
   }
}
   // calgps ------------------------------------------------------------------
static string month(ll y, int m)
{
   static const char* mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
   string s = strf("%s %04lld\n", mon[m - 1], y); ll d0 = days(y, m, 1), d1 = m == 12 ? days(y + 1, 1, 1) : days(y, m + 1, 1), w = (d0 - 3657) / 7;
   for (; 3657 + w * 7 < d1; ++w) { s += strf("%lld:", w); for (int k = 0; k < 7; ++k) { ll d = 3657 + w * 7 + k; if (d >= d0 && d < d1) s += strf(" %d=%lld-%03lld", k, d - d0 + 1, d - days(y, 1, 1) + 1); } s += "\n"; }
   return s;
}
PROP(calgps, 1500, 10000, "a calendar was printed")
{
   vector<string> a{"calgps"}; bool three = g.flag(0.3), year = g.flag(0.25), given = g.flag(0.7), blurb = g.flag(0.2); ll Y = g.flag(0.2) ? g.pick<ll>({1981, 1999, 2000, 2024, 2100}) : g.range(1981, 2150);
   vector<vector<string>> o; if (three) o.push_back({g.flag() ? "-3" : "--three-months"}); if (year) o.push_back({g.flag() ? "-y" : "--year"}); if (blurb) o.push_back({g.flag() ? "-n" : "--no-blurb"});
   if (given) { vector<string> b; push(g, b, g.flag() ? "-Y" : "--specific-year", strf("%lld", Y)); o.push_back(b); }
   for (size_t i = o.size(); i > 1; --i) swap(o[i - 1], o[g.below(i)]); for (auto& x : o) a.insert(a.end(), x.begin(), x.end());
   int err = g.flag(0.08) ? g.range(1, 3) : 0; if (err == 1) a.push_back(g.pick<string>({"-q", "--nothing", "word"})); if (err == 2) { a.push_back("-Y"); a.push_back("abc"); } if (err == 3) { a.push_back("-Y"); a.push_back("1979"); if (given) err = 2; if (given) a.back() = "x"; }
   g << line(a); time_t t0 = time(0); Run r = run(a); time_t t1 = time(0); g.nontrivial();
   if (err) { g.label("refused"); refused(a, r, "calgps must refuse"); return; }
   REQUIRE(r.rc == 0, "calgps exit status " << r.rc << " for " << line(a) << ": " << r.out);
      // what was printed, as the same text the model makes: week, column=day-doy
   string got; for (auto& l : lines(r.out))
   {
      if (l.find_first_not_of(' ') == string::npos) continue;
      if (isalpha((unsigned char)words(l)[0][0])) { got += words(l)[0] + " " + (words(l).size() > 1 ? words(l)[1] : "") + "\n"; continue; }
      got += words(l.substr(0, 6))[0] + ":"; REQUIRE(l.size() >= 6, "calgps line " << l);
      for (size_t c = 6, k = 0; c < l.size(); c += 7, ++k) { string x = l.substr(c, 7); if (x.find_first_not_of(' ') == string::npos) continue; REQUIRE(words(x).size() == 1, "calgps columns: " << l); got += strf(" %d=", (int)k) + words(x)[0]; }
      got += "\n";
   }
   bool ok = false; string e;
   for (time_t t : {t0, t1})
   {
      Tm n((ll)t * 1000); ll y0 = n.y, y1 = n.y; int m0 = n.m, m1 = n.m; if (year || given) m0 = 1, m1 = 12; if (given) y0 = y1 = Y;
      if (three) { if (--m0 == 0) m0 = 12, --y0; if (++m1 == 13) m1 = 1, ++y1; }
      e.clear(); for (ll y = y0, m = m0; y < y1 || (y == y1 && m <= m1); ) { e += month(y, m); if (++m == 13) m = 1, ++y; }
      if (e == got) ok = true;
   }
   REQUIRE(ok, "calgps " << line(a) << " printed\n" << got << "expected\n" << e);
}
PBT_MAIN
