// apps: core/apps/mergetools/mergeRinObs.cpp core/apps/mergetools/mergeRinNav.cpp core/apps/mergetools/mergeRinMet.cpp core/apps/difftools/rowdiff.cpp core/apps/difftools/rnwdiff.cpp core/apps/difftools/rmwdiff.cpp
// apps: core/apps/checktools/rowcheck.cpp core/apps/checktools/rnwcheck.cpp core/apps/checktools/rmwcheck.cpp
// A03: the merge, difference and check tools, run as programs on generated RINEX 2 files; files are written and read here without the library.
#include "pbt.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <cmath>
using namespace std; using pbt::strf;
typedef long long ll;
struct Run { int rc; string out; };
static Run run(const vector<string>& a)
{
   int p[2]; if (pipe(p)) pbt::fail("pipe", "harness");
   string exe = string(getenv("VERIF_EXE_DIR") ? getenv("VERIF_EXE_DIR") : ".") + "/" + a[0];
   pid_t c = fork();
   if (c == 0)
   {
      dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]); int n = open("/dev/null", O_RDONLY); dup2(n, 0);
      setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1);
      vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(nullptr);
      execv(exe.c_str(), v.data()); _exit(126);
   }
   close(p[1]); Run r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.out.append(b, n); close(p[0]);
   int st = 0; waitpid(c, &st, 0); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
   if (r.rc == 126) pbt::fail("cannot run " + exe, "harness");
   return r;
}
static string line(const vector<string>& a) { string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x.substr(x.rfind('/') + 1); return s; }
static vector<string> lines(const string& s) { vector<string> r; string x; for (char c : s) if (c == '\n') { r.push_back(x); x.clear(); } else x += c; if (!x.empty()) r.push_back(x); return r; }
static vector<string> words(const string& s) { vector<string> r; string x; for (char c : s + " ") if (isspace((unsigned char)c)) { if (!x.empty()) r.push_back(x); x.clear(); } else x += c; return r; }
static string trim(string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back(); size_t i = s.find_first_not_of(' '); return i == string::npos ? "" : s.substr(i); }
static string sub(const string& s, size_t a, size_t n) { return a >= s.size() ? "" : s.substr(a, n); }
static uint64_t mixv(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { uint64_t x = a * 0x9E3779B97F4A7C15ull + b; for (uint64_t v : {c, d, (uint64_t)77}) { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x += v * 0x94D049BB133111EBull; } x ^= x >> 31; return x; }
static string head(const string& body, const char* label) { return strf("%-60s%s\n", body.c_str(), label); }
   // a day given as 2 digit year, month, day of month and day of year; times are seconds of that day
struct Day { int y, m, d, doy; };
static Day genDay(pbt::G& g) { return g.pick<Day>({{2004, 3, 1, 61}, {2004, 12, 31, 366}, {1999, 8, 22, 234}, {2000, 1, 1, 1}, {2011, 2, 28, 59}, {2015, 7, 19, 200}}); }
static string hms(double s) { return strf("%3d%3d%11.7f", (int)(s / 3600), (int)(s / 60) % 60, s - (int)(s / 60) * 60); }
   // observations ---------------------------------------------------------------
struct Val { ll v; int lli, ssi; bool operator==(const Val& o) const { return v == o.v && lli == o.lli && ssi == o.ssi; } };
typedef map<string, map<string, Val>> Sats;                  // satellite -> type -> value
struct Obs { vector<string> types; map<int, Sats> ep; vector<string> comments; Day day; };
static string writeObs(const Obs& o, bool mixed)
{
   string s = head("     2.11           OBSERVATION DATA    " + string(mixed ? "M (MIXED)" : "G (GPS)"), "RINEX VERSION / TYPE") + head("gen                 me                  20040301 000000 UTC ", "PGM / RUN BY / DATE");
   for (auto& c : o.comments) s += head(c, "COMMENT");
   s += head("STAT", "MARKER NAME") + head("obs                 agency", "OBSERVER / AGENCY") + head("1                   rec                 1", "REC # / TYPE / VERS") + head("1                   ant", "ANT # / TYPE") +
        head("   100000.0000  5000000.0000  3000000.0000", "APPROX POSITION XYZ") + head("        0.0000        0.0000        0.0000", "ANTENNA: DELTA H/E/N") + head("     1     1", "WAVELENGTH FACT L1/2");
   string t = strf("%6d", (int)o.types.size()); for (auto& x : o.types) t += "    " + x; s += head(t, "# / TYPES OF OBSERV");
   int f = o.ep.empty() ? 0 : o.ep.begin()->first; s += head(strf("%6d%6d%6d%6d%6d%13.7f     GPS", o.day.y, o.day.m, o.day.d, f / 3600, f / 60 % 60, f % 60 + 0.0), "TIME OF FIRST OBS") + head("", "END OF HEADER");
   for (auto& e : o.ep)
   {
      string l = strf(" %02d%3d%3d%s  0%3d", o.day.y % 100, o.day.m, o.day.d, hms(e.first).c_str(), (int)e.second.size()); int n = 0;
      for (auto& x : e.second) { if (n && n % 12 == 0) l += "\n" + string(32, ' '); l += x.first; ++n; }
      s += l + "\n";
      for (auto& x : e.second) { string r; for (size_t i = 0; i < o.types.size(); ++i) { if (i && i % 5 == 0) r += "\n"; auto v = x.second.at(o.types[i]); r += strf("%14.3f%c%c", v.v / 1000.0, v.lli ? '0' + v.lli : ' ', v.ssi ? '0' + v.ssi : ' '); } s += r + "\n"; }
   }
   return s;
}
static bool isHead(const vector<string>& L, size_t& i, const char* label) { return i < L.size() && trim(sub(L[i], 60, 20)) == label; }
static ll milli(const string& s) { string t = trim(s); return t.empty() ? 0 : llround(strtod(t.c_str(), 0) * 1000); }
static Obs readObs(const string& text, const Day& day)
{
   Obs o; o.day = day; auto L = lines(text); size_t i = 0; int first = -1;
   for (; i < L.size() && !isHead(L, i, "END OF HEADER"); ++i)
   {
      if (isHead(L, i, "# / TYPES OF OBSERV")) for (int k = 0; k < 9; ++k) { string t = trim(sub(L[i], 6 + 6 * k, 6)); if (!t.empty()) o.types.push_back(t); }
      if (isHead(L, i, "COMMENT")) o.comments.push_back(trim(sub(L[i], 0, 60)));
      if (isHead(L, i, "TIME OF FIRST OBS")) { auto w = words(L[i]); REQUIRE(w.size() > 6 && atoi(w[0].c_str()) == day.y && atoi(w[1].c_str()) == day.m && atoi(w[2].c_str()) == day.d, "first obs: " << L[i]); first = atoi(w[3].c_str()) * 3600 + atoi(w[4].c_str()) * 60 + (int)atof(w[5].c_str()); }
   }
   REQUIRE(i < L.size(), "no end of header in the merged file:\n" << text); ++i; int prev = -1;
   while (i < L.size())
   {
      string e = L[i++]; REQUIRE(e.size() >= 32, "epoch line " << e);
      REQUIRE(atoi(sub(e, 1, 2).c_str()) == day.y % 100 && atoi(sub(e, 4, 2).c_str()) == day.m && atoi(sub(e, 7, 2).c_str()) == day.d && atoi(sub(e, 28, 1).c_str()) == 0, "epoch line " << e);
      int t = atoi(sub(e, 10, 2).c_str()) * 3600 + atoi(sub(e, 13, 2).c_str()) * 60 + (int)atof(sub(e, 15, 11).c_str()), n = atoi(sub(e, 29, 3).c_str()); vector<string> sv;
      for (int k = 0; k < n; ++k) { if (k && k % 12 == 0) { REQUIRE(i < L.size(), "continuation missing"); e = L[i++]; } string id = sub(e, 32 + 3 * (k % 12), 3); if (id.size() == 3 && id[1] == ' ') id[1] = '0'; if (id.size() == 3 && id[0] == ' ') id[0] = 'G'; sv.push_back(id); }
      REQUIRE(t > prev, "merged epochs are not in increasing order at " << e); if (prev < 0) REQUIRE(first == t, "time of first obs " << first << " but the first epoch is " << t); prev = t;
      for (auto& id : sv) { auto& m = o.ep[t][id]; for (size_t k = 0; k < o.types.size(); ++k) { if (k && k % 5 == 0) ++i; REQUIRE(i < L.size(), "observation line missing"); string f = sub(L[i], 16 * (k % 5), 16); Val v; v.v = milli(sub(f, 0, 14)); v.lli = atoi(sub(f, 14, 1).c_str()); v.ssi = atoi(sub(f, 15, 1).c_str()); m[o.types[k]] = v; } ++i; }
   }
   return o;
}
   // files of one station: equal keys have equal content unless changed
static vector<Obs> genObs(pbt::G& g, int nf, bool& mixed)
{
   vector<string> all = {"C1", "L1", "L2", "P1", "P2", "D1", "S1", "D2", "S2"}; Day day = genDay(g); uint64_t salt = g.below(1000000); int n = g.range(1, 10), step = g.pick({1, 30, 900}), t0 = g.range(0, 70000); mixed = g.flag(0.3);
   vector<string> base; for (auto& t : all) if (g.flag(0.5)) base.push_back(t); if (base.empty()) base.push_back("C1");
   map<int, vector<string>> sats; for (int k = 0; k < n; ++k) { set<string> s; int m = g.weighted({1, 6, 1}) == 2 ? g.range(11, 20) : g.range(1, 6); for (int j = 0; j < m; ++j) s.insert(strf("%c%02d", mixed && g.flag(0.4) ? 'R' : 'G', (int)g.range(1, mixed ? 24 : 32))); sats[k].assign(s.begin(), s.end()); }
   vector<Obs> v;
   for (int f = 0; f < nf; ++f)
   {
      Obs o; o.day = day; o.types = base; if (g.flag(0.3)) for (auto& t : all) if (find(base.begin(), base.end(), t) == base.end() && g.flag(0.3)) o.types.push_back(t);
      if (g.flag(0.3) && o.types.size() > 1) o.types.erase(o.types.begin() + 1 + g.below(o.types.size() - 1)); if (g.flag(0.3)) for (size_t i = o.types.size(); i > 1; --i) swap(o.types[i - 1], o.types[g.below(i)]);
      int nc = g.weighted({3, 2, 1}); for (int i = 0; i < nc; ++i) o.comments.push_back(g.pick<string>({"one", "two words", "third comment", "zz"}));
      for (int k = 0; k < n; ++k) if (g.flag(0.65)) { int t = t0 + k * step; for (auto& s : sats[k]) for (auto& y : all) { uint64_t h = mixv(salt, k, s[0] * 100 + atoi(s.c_str() + 1), y[0] * 7 + y[1]); o.ep[t][s][y] = Val{(ll)(h % 9999999999ull) * (h >> 40 & 1 ? 1 : y[0] == 'D' || y[0] == 'L' ? -1 : 1) / 10 + 1, h >> 41 & 7 ? 0 : (int)(h >> 44 & 7), 1 + (int)(h >> 48) % 9}; } }
      v.push_back(o);
   }
   return v;
}
static void restrict_(Sats& s, const set<string>& types) { for (auto& x : s) for (auto it = x.second.begin(); it != x.second.end();) if (types.count(it->first)) ++it; else it = x.second.erase(it); }
static string show(const Sats& s) { string r; for (auto& x : s) { r += x.first; for (auto& y : x.second) r += strf(" %s=%lld/%d/%d", y.first.c_str(), y.second.v, y.second.lli, y.second.ssi); r += "; "; } return r; }
template <class T> static void permute(pbt::G& g, vector<T>& v) { for (size_t i = v.size(); i > 1; --i) swap(v[i - 1], v[g.below(i)]); }
static set<string> common(const vector<vector<string>>& t) { set<string> r(t[0].begin(), t[0].end()); for (auto& x : t) { set<string> k(x.begin(), x.end()), n; for (auto& y : r) if (k.count(y)) n.insert(y); r = n; } return r; }
static string body(const string& s) { auto p = s.find("END OF HEADER"); return p == string::npos ? s : s.substr(s.find('\n', p) + 1); }

PROP(mergeObs, 2500, 40000, "at least two records were merged")
{
   int nf = g.weighted({0, 2, 4, 2, 1}); bool mixed; auto F = genObs(g, nf, mixed); bool conflict = nf > 1 && g.flag(0.3);
   if (conflict) for (auto& o : F) for (auto& e : o.ep) if (g.flag(0.3)) { auto it = e.second.begin(); advance(it, g.below(e.second.size())); if (g.flag(0.3) && e.second.size() > 1) e.second.erase(it); else for (auto& y : it->second) if (g.flag()) y.second.v += g.range(1, 50); }
   size_t tot = 0; for (auto& o : F) tot += o.ep.size(); if (tot > 1) g.nontrivial(); g.assume(tot > 0); if (conflict) g.label("conflicting records"); if (mixed) g.label("mixed"); g.label(strf("%d files", nf));
   vector<vector<string>> ty; for (auto& o : F) ty.push_back(o.types); auto types = common(ty); g.assume(!types.empty());
   string D = pbt::scratch(); vector<string> names; for (int i = 0; i < nf; ++i) { names.push_back(D + strf("/f%d.04o", i)); pbt::spit(names[i], writeObs(F[i], mixed)); g << names[i].substr(D.size()) << ":\n" << writeObs(F[i], mixed); }
   string out = D + "/out.04o"; vector<string> a{"mergeRinObs", g.flag() ? "-o" : "--output", out}; a.insert(a.end(), names.begin(), names.end());
   Run r = run(a); REQUIRE(r.rc == 0, line(a) << ": exit status " << r.rc << " " << r.out); string text = pbt::slurp(out); Obs m = readObs(text, F[0].day);
   REQUIRE(set<string>(m.types.begin(), m.types.end()) == types && m.types.size() == types.size(), "merged types:\n" << text);
   map<int, vector<Sats>> u; for (auto& o : F) for (auto& e : o.ep) { Sats s = e.second; restrict_(s, types); u[e.first].push_back(s); }
   for (auto& e : u) REQUIRE(m.ep.count(e.first), "the record of second " << e.first << " is missing after " << line(a)); REQUIRE(m.ep.size() == u.size(), "merged file has records that no input has");
   for (auto& e : m.ep) { bool ok = false; for (auto& s : u[e.first]) { Sats x = s; if (x == e.second) ok = true; } REQUIRE(ok, "record of second " << e.first << " is none of the inputs': " << show(e.second) << "\n inputs: " << show(u[e.first][0])); }
   set<string> c; for (auto& o : F) c.insert(o.comments.begin(), o.comments.end()); REQUIRE(set<string>(m.comments.begin(), m.comments.end()) == c, "comments of the merged file:\n" << text.substr(0, text.find("END OF H")));
   if (nf > 1)
   {
      auto N = names; permute(g, N); string o2 = D + "/out2.04o"; vector<string> b{"mergeRinObs", "-o", o2}; b.insert(b.end(), N.begin(), N.end()); Run q = run(b); REQUIRE(q.rc == 0, line(b) << ": exit status " << q.rc);
      REQUIRE(body(pbt::slurp(o2)) == body(text), "order of arguments matters: " << line(a) << " and " << line(b) << "\n" << body(text) << "\n" << body(pbt::slurp(o2)));
   }
}
   // meteorological ---------------------------------------------------------------
struct Met { vector<string> types; map<int, map<string, int>> ep; vector<string> comments; Day day; };
static string writeMet(const Met& o)
{
   string s = head("     2.11           METEOROLOGICAL DATA", "RINEX VERSION / TYPE") + head("gen                 me                  20040301 000000 UTC ", "PGM / RUN BY / DATE"); for (auto& c : o.comments) s += head(c, "COMMENT");
   s += head("STAT", "MARKER NAME"); string t = strf("%6d", (int)o.types.size()); for (auto& x : o.types) t += "    " + x; s += head(t, "# / TYPES OF OBSERV");
   for (auto& x : o.types) s += head(strf("maker               model               %13.1f    %s", 0.1, x.c_str()), "SENSOR MOD/TYPE/ACC");
   for (auto& x : o.types) s += head(strf("  -740290.0474 -5457071.7224  3207245.4169      217.5870 %s", x.c_str()), "SENSOR POS XYZ/H");
   s += head("", "END OF HEADER");
   for (auto& e : o.ep) { s += strf(" %02d%3d%3d%3d%3d%3d", o.day.y % 100, o.day.m, o.day.d, e.first / 3600, e.first / 60 % 60, e.first % 60); int k = 0; for (auto& t : o.types) { if (k == 8) s += "\n    "; s += strf("%7.1f", e.second.at(t) / 10.0); ++k; } s += "\n"; }
   return s;
}
static Met readMet(const string& text, const Day& day)
{
   Met o; o.day = day; auto L = lines(text); size_t i = 0;
   for (; i < L.size() && !isHead(L, i, "END OF HEADER"); ++i)
   {
      if (isHead(L, i, "# / TYPES OF OBSERV")) for (int k = 0; k < 9; ++k) { string t = trim(sub(L[i], 6 + 6 * k, 6)); if (!t.empty()) o.types.push_back(t); }
      if (isHead(L, i, "COMMENT")) o.comments.push_back(trim(sub(L[i], 0, 60)));
   }
   REQUIRE(i < L.size(), "no end of header in the merged file:\n" << text); int prev = -1;
   for (++i; i < L.size(); ++i)
   {
      string e = L[i]; REQUIRE(e.size() >= 18 && atoi(sub(e, 1, 2).c_str()) == day.y % 100 && atoi(sub(e, 4, 2).c_str()) == day.m && atoi(sub(e, 7, 2).c_str()) == day.d, "met line " << e);
      int t = atoi(sub(e, 10, 2).c_str()) * 3600 + atoi(sub(e, 13, 2).c_str()) * 60 + atoi(sub(e, 16, 2).c_str()); REQUIRE(t > prev, "merged met records out of order at " << e); prev = t; o.ep[t];
      for (size_t k = 0; k < o.types.size(); ++k) { if (k == 8) { ++i; REQUIRE(i < L.size(), "met continuation missing"); } o.ep[t][o.types[k]] = (int)lround(atof(k < 8 ? sub(L[i], 18 + 7 * k, 7).c_str() : sub(L[i], 4 + 7 * (k - 8), 7).c_str()) * 10); }
   }
   return o;
}
static vector<Met> genMet(pbt::G& g, int nf)
{
   vector<string> all = {"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI"}; Day day = genDay(g); uint64_t salt = g.below(1000000); int n = g.range(1, 12), step = g.pick({1, 60, 900}), t0 = g.range(0, 70000);
   vector<string> base{"PR"}; for (auto& t : all) if (t != "PR" && g.flag(0.4)) base.push_back(t); vector<Met> v;
   for (int f = 0; f < nf; ++f)
   {
      Met o; o.day = day; o.types = base; if (g.flag(0.3)) for (auto& t : all) if (find(base.begin(), base.end(), t) == base.end() && g.flag(0.3)) o.types.push_back(t);
      if (g.flag(0.3) && o.types.size() > 1) o.types.erase(o.types.begin() + 1 + g.below(o.types.size() - 1)); if (g.flag(0.3)) permute(g, o.types);
      int nc = g.weighted({3, 2, 1}); for (int i = 0; i < nc; ++i) o.comments.push_back(g.pick<string>({"one", "two words", "third comment", "zz"}));
      for (int k = 0; k < n; ++k) if (g.flag(0.65)) for (auto& y : all) { uint64_t h = mixv(salt, k, 5, y[0] * 100 + y[1]); o.ep[t0 + k * step][y] = (int)(h % 15000) - (y == "TD" ? 7000 : 0); }
      v.push_back(o);
   }
   return v;
}
PROP(mergeMet, 2000, 40000, "at least two records were merged")
{
   int nf = g.weighted({0, 2, 4, 2, 1}); auto F = genMet(g, nf); bool conflict = nf > 1 && g.flag(0.3); if (conflict) for (auto& o : F) for (auto& e : o.ep) if (g.flag(0.3)) for (auto& y : e.second) if (g.flag()) y.second += g.range(1, 50);
   size_t tot = 0; for (auto& o : F) tot += o.ep.size(); if (tot > 1) g.nontrivial(); vector<vector<string>> ty; for (auto& o : F) ty.push_back(o.types); auto types = common(ty); g.label(strf("%d files", nf)); if (conflict) g.label("conflicting records"); if (types.size() > 8) g.label("9 types");
   string D = pbt::scratch(); vector<string> names; for (int i = 0; i < nf; ++i) { names.push_back(D + strf("/f%d.04m", i)); pbt::spit(names[i], writeMet(F[i])); g << names[i].substr(D.size()) << ":\n" << writeMet(F[i]); }
   string out = D + "/out.04m"; vector<string> a{"mergeRinMet", g.flag() ? "-o" : "--output", out}; a.insert(a.end(), names.begin(), names.end());
   Run r = run(a); REQUIRE(r.rc == 0, line(a) << ": exit status " << r.rc << " " << r.out); string text = pbt::slurp(out); Met m = readMet(text, F[0].day);
   REQUIRE(set<string>(m.types.begin(), m.types.end()) == types && m.types.size() == types.size(), "merged types:\n" << text);
   map<int, vector<map<string, int>>> u; for (auto& o : F) for (auto& e : o.ep) { map<string, int> x; for (auto& t : types) x[t] = e.second[t]; u[e.first].push_back(x); }
   for (auto& e : u) REQUIRE(m.ep.count(e.first), "the record of second " << e.first << " is missing after " << line(a)); REQUIRE(m.ep.size() == u.size(), "merged file has records that no input has");
   for (auto& e : m.ep) { bool ok = false; for (auto& s : u[e.first]) if (s == e.second) ok = true; REQUIRE(ok, "record of second " << e.first << " is none of the inputs':\n" << text); }
   set<string> c; for (auto& o : F) c.insert(o.comments.begin(), o.comments.end()); REQUIRE(set<string>(m.comments.begin(), m.comments.end()) == c, "comments of the merged file:\n" << text);
   if (nf > 1)
   {
      auto N = names; permute(g, N); string o2 = D + "/out2.04m"; vector<string> b{"mergeRinMet", "-o", o2}; b.insert(b.end(), N.begin(), N.end()); Run q = run(b); REQUIRE(q.rc == 0, line(b) << ": exit status " << q.rc);
      REQUIRE(body(pbt::slurp(o2)) == body(text), "order of arguments matters: " << line(a) << " and " << line(b));
   }
}
   // navigation ---------------------------------------------------------------
struct Nav { int prn, toc; ll v[29]; bool operator<(const Nav& o) const { return tie(prn, toc) != tie(o.prn, o.toc) ? tie(prn, toc) < tie(o.prn, o.toc) : lexicographical_compare(v, v + 29, o.v, o.v + 29); } bool operator==(const Nav& o) const { return !(*this < o) && !(o < *this); } };
   // v: 0-2 clock; 3.. the broadcast orbit lines; real values as mantissa of 12 digits (value = v * 1e-20), whole ones as they are
static bool whole(int k) { return k == 3 || k == 11 || k == 20 || k == 21 || k == 22 || k == 23 || k == 24 || k == 26 || k == 27 || k == 28; }
static double value(const Nav& n, int k) { return whole(k) ? (double)n.v[k] : k == 10 ? 5153 + n.v[k] * 1e-8 : n.v[k] * 1e-9; }
static string d19(double x) { string s = strf("%19.12E", x); for (char& c : s) if (c == 'E') c = 'D'; return s; }
static string writeNav(const vector<Nav>& v, const Day& d, const vector<string>& com)
{
   string s = head("     2.10           NAVIGATION DATA", "RINEX VERSION / TYPE") + head("gen                 me                  20040301 000000 UTC ", "PGM / RUN BY / DATE"); for (auto& c : com) s += head(c, "COMMENT"); s += head("", "END OF HEADER");
   for (auto& n : v)
   {
      s += strf("%2d %02d%3d%3d%3d%3d%5.1f", n.prn, d.y % 100, d.m, d.d, n.toc / 3600, n.toc / 60 % 60, n.toc % 60 + 0.0) + d19(value(n, 0)) + d19(value(n, 1)) + d19(value(n, 2)) + "\n";
      for (int k = 3; k < 29; ++k) { if ((k - 3) % 4 == 0) s += "   "; s += d19(value(n, k)); if ((k - 3) % 4 == 3 || k == 28) s += "\n"; }
   }
   return s;
}
static Nav readNavRec(const vector<string>& L, size_t i, const Day& d)
{
   Nav n; auto num = [&](const string& f) { string s = f; for (char& c : s) if (c == 'D' || c == 'd') c = 'E'; return atof(s.c_str()); };
   REQUIRE(i + 8 <= L.size(), "navigation record cut short"); const string& l = L[i]; n.prn = atoi(sub(l, 0, 2).c_str()); REQUIRE(atoi(sub(l, 3, 2).c_str()) == d.y % 100 && atoi(sub(l, 6, 2).c_str()) == d.m && atoi(sub(l, 9, 2).c_str()) == d.d, "epoch " << l);
   n.toc = atoi(sub(l, 12, 2).c_str()) * 3600 + atoi(sub(l, 15, 2).c_str()) * 60 + (int)atof(sub(l, 17, 5).c_str());
   for (int k = 0; k < 29; ++k) { string f = k < 3 ? sub(l, 22 + 19 * k, 19) : sub(L[i + 1 + (k - 3) / 4], 3 + 19 * ((k - 3) % 4), 19); double x = num(f); n.v[k] = whole(k) ? llround(x) : k == 10 ? llround((x - 5153) * 1e8) : llround(x * 1e9); }
   return n;
}
   // values that twelve digits hold exactly
static Nav genNav(pbt::G& g, const Day& d, int& week)
{
   Nav n; n.prn = g.range(1, 32); n.toc = g.pick({0, 7200, 7184, 14400, 21600, 43200, 86384}); int doyFrom80 = 0; (void)doyFrom80;
   static const int dm[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; ll days = (d.y - 1980) * 365LL + (d.y - 1977) / 4 + dm[d.m - 1] + (d.m > 2 && d.y % 4 == 0) + d.d - 1 - 5; week = days / 7; int dow = days % 7; ll sow = dow * 86400 + n.toc;
   for (int k = 0; k < 29; ++k) n.v[k] = whole(k) ? 0 : (ll)g.range(-99999999, 99999999) * (k == 10 ? 1 : 1);
   n.v[3] = g.range(0, 255); n.v[11] = sow; n.v[20] = g.range(0, 3); n.v[21] = week; n.v[22] = g.range(0, 1); n.v[23] = g.pick({2, 4, 8}); n.v[24] = g.pick({0, 63, 1}); n.v[26] = n.v[3]; n.v[27] = max<ll>(0, sow - g.pick({0, 7200, 3600, 18, 6})); n.v[28] = 4;
   n.v[8] = llabs(n.v[8]) / 100;
   return n;
}
static vector<vector<Nav>> genNavFiles(pbt::G& g, int nf, Day& d)
{
   d = genDay(g); vector<Nav> pool; int w, n = g.range(1, 10);
   for (int i = 0; i < n; ++i)
   {
      Nav x = genNav(g, d, w); bool dup = false;
      if (!pool.empty() && g.flag(0.4)) { x = pool[g.below(pool.size())]; switch (g.below(4)) { case 0: x.prn = x.prn % 32 + 1; break; case 1: { int k = g.below(29); if (whole(k)) k = 5; x.v[k] += g.pick<ll>({1, -1, 1000}) * (k == 10 ? 1 : 1); break; } case 2: x.v[27] += x.v[27] < 604000 ? 6 : -6; break; default: x.v[24] = x.v[24] ? 0 : 1; } }
      for (auto& p : pool) if (p == x) dup = true; if (!dup) pool.push_back(x);
   }
   vector<vector<Nav>> F(nf); for (auto& f : F) { for (auto& p : pool) if (g.flag(0.6)) f.push_back(p); permute(g, f); if (!f.empty() && g.flag(0.2)) f.push_back(f[g.below(f.size())]); }
   return F;
}
static string show(const Nav& n) { string s = strf("PRN %d toc %d:", n.prn, n.toc); for (ll v : n.v) s += strf(" %lld", v); return s; }
PROP(mergeNav, 2000, 40000, "at least two records were merged")
{
   Day d; int nf = g.weighted({0, 2, 4, 2, 1}); auto F = genNavFiles(g, nf, d); set<Nav> u; size_t tot = 0; for (auto& f : F) { u.insert(f.begin(), f.end()); tot += f.size(); } if (tot > 1) g.nontrivial(); g.label(strf("%d files", nf)); if (tot > u.size()) g.label("duplicates");
   string D = pbt::scratch(); vector<string> names; set<string> c; for (int i = 0; i < nf; ++i) { vector<string> com; int nc = g.weighted({3, 2, 1}); for (int k = 0; k < nc; ++k) com.push_back(g.pick<string>({"one", "two words", "zz"})); c.insert(com.begin(), com.end()); names.push_back(D + strf("/f%d.04n", i)); pbt::spit(names[i], writeNav(F[i], d, com)); g << names[i].substr(D.size()) << ":\n" << writeNav(F[i], d, com); }
   string out = D + "/out.04n"; vector<string> a{"mergeRinNav", "-o", out}; a.insert(a.end(), names.begin(), names.end());
   Run r = run(a); REQUIRE(r.rc == 0, line(a) << ": exit status " << r.rc << " " << r.out); string text = pbt::slurp(out); auto L = lines(text); size_t i = 0; set<string> mc; for (; i < L.size() && !isHead(L, i, "END OF HEADER"); ++i) if (isHead(L, i, "COMMENT")) mc.insert(trim(sub(L[i], 0, 60)));
   REQUIRE(i < L.size(), "no end of header:\n" << text); REQUIRE(mc == c, "comments of the merged file:\n" << text); ++i; vector<Nav> m; for (; i < L.size(); i += 8) m.push_back(readNavRec(L, i, d));
   for (auto& x : u) REQUIRE(count(m.begin(), m.end(), x) == 1, "a record occurs " << count(m.begin(), m.end(), x) << " times in the merged file: " << show(x) << "\n" << text); REQUIRE(m.size() == u.size(), "merged file has " << m.size() << " records of " << u.size());
   for (size_t k = 1; k < m.size(); ++k) REQUIRE(m[k - 1].v[21] * 604800 + m[k - 1].v[27] <= m[k].v[21] * 604800 + m[k].v[27], "transmit times out of order:\n" << text);
   if (nf > 1) { auto N = names; permute(g, N); string o2 = D + "/out2.04n"; vector<string> b{"mergeRinNav", "-o", o2}; b.insert(b.end(), N.begin(), N.end()); Run q = run(b); REQUIRE(q.rc == 0, line(b) << ": exit status " << q.rc); REQUIRE(body(pbt::slurp(o2)) == body(text), "order of arguments matters: " << line(a) << " and " << line(b)); }
}
   // differences ---------------------------------------------------------------
static string timeArg(const Day& d, int s) { return strf("%d %d %d", d.y, d.doy, s); }
static void window(pbt::G& g, vector<string>& a, const Day& d, vector<int> times, int& lo, int& hi)
{
   lo = -1; hi = 1000000; if (!g.flag(0.35) || times.empty()) return; g.label("time range");
   int x = times[g.below(times.size())] + g.pick({0, 1, -1}), y = times[g.below(times.size())] + g.pick({0, 1, -1}); if (x < 0) x = 0; if (y < 0) y = 0; if (x > 86399) x = 86399; if (y > 86399) y = 86399; if (x > y) swap(x, y); int w = g.below(3);
   if (w != 1) { lo = x; a.push_back(g.flag() ? "-t" : "--time"); a.push_back(timeArg(d, x)); } if (w != 0) { hi = y; a.push_back(g.flag() ? "-e" : "--end-time"); a.push_back(timeArg(d, y)); }
}
PROP(diffObs, 2500, 40000, "the files differ")
{
   bool mixed; auto F = genObs(g, 2, mixed); if (mixed) g.label("mixed"); bool self = g.flag(0.15), same = !self && g.flag(0.3); if (same) { auto t = F[1].types; F[1].ep = F[0].ep; } F[1].types = F[0].types; if (g.flag(0.3)) permute(g, F[1].types);
   g.assume(!F[0].ep.empty() && !F[1].ep.empty());
   if (g.flag(0.6)) for (auto& e : F[1].ep) if (g.flag(0.3)) { auto it = e.second.begin(); advance(it, g.below(e.second.size())); int how = g.below(3); if (how == 0 && e.second.size() > 1) e.second.erase(it); else if (how == 1 && F[0].ep.count(e.first) && F[0].ep[e.first].size() > 1 && F[0].ep[e.first].count(it->first)) F[0].ep[e.first].erase(it->first); else for (auto& y : it->second) if (g.flag()) y.second.v += g.range(-50, 50); }
   string D = pbt::scratch(), n1 = D + "/a.04o", n2 = D + "/b.04o"; pbt::spit(n1, writeObs(F[0], mixed)); if (self) F[1] = F[0]; pbt::spit(n2, writeObs(F[1], mixed)); g << "a:\n" << writeObs(F[0], mixed) << "b:\n" << writeObs(F[1], mixed);
   vector<string> a{"rowdiff"}; int lo, hi; vector<int> tt; for (auto& o : F) for (auto& e : o.ep) tt.push_back(e.first); window(g, a, F[0].day, tt, lo, hi); int prec = 5; if (g.flag(0.2)) { prec = g.range(1, 4); a.push_back("-p"); a.push_back(strf("%d", prec)); } a.push_back(n1); a.push_back(self ? n1 : n2); g << line(a) << "\n";
   Run r = run(a);
      // the lines there should be: one per satellite of the epochs that differ
   set<string> types(F[0].types.begin(), F[0].types.end()); double eps = pow(10.0, -prec); vector<string> want; bool diff = false;
   auto eq = [&](const Sats& x, const Sats& y) { if (x.size() != y.size()) return false; for (auto i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) { if (i->first != j->first) return false; for (auto& t : types) { auto& p = i->second.at(t); auto& q = j->second.at(t); if (fabs((p.v - q.v) / 1000.0) > eps * (1 + 1e-6)) return false; if (p.lli && q.lli && p.lli != q.lli) return false; if (p.ssi && q.ssi && p.ssi != q.ssi) return false; } } return true; };
   bool edge = false; auto edgy = [&](const Sats& x, const Sats& y) { for (auto& i : x) { auto j = y.find(i.first); if (j != y.end()) for (auto& t : types) if (fabs(fabs((i.second.at(t).v - j->second.at(t).v) / 1000.0) - eps) < 1e-6) edge = true; } };
   auto rec = [&](char c, int t, const string& sv, const map<string, Val>* p, const map<string, Val>* q) { string s = strf("%c %d %s", c, t, sv.c_str()); vector<ll> v; for (auto& y : F[0].types) v.push_back(p && q ? p->at(y).v - q->at(y).v : p ? p->at(y).v : q->at(y).v); sort(v.begin(), v.end()); for (ll k : v) s += strf(" %lld", k); want.push_back(s); };
   set<int> E; for (int t : tt) if (t >= lo && t < hi) E.insert(t);
   for (int t : E)
   {
      auto i = F[0].ep.find(t), j = F[1].ep.find(t); bool A = i != F[0].ep.end(), B = j != F[1].ep.end(); if (A && B) edgy(i->second, j->second); if (A && B && eq(i->second, j->second)) continue; diff = true;
      if (A && !B) for (auto& s : i->second) rec('<', t, s.first, &s.second, nullptr); if (B && !A) for (auto& s : j->second) rec('>', t, s.first, nullptr, &s.second);
      if (A && B) { set<string> sv; for (auto& s : i->second) sv.insert(s.first); for (auto& s : j->second) sv.insert(s.first); for (auto& s : sv) { auto p = i->second.find(s), q = j->second.find(s); bool P = p != i->second.end(), Q = q != j->second.end(); rec(P && Q ? '-' : P ? '<' : '>', t, s, P ? &p->second : nullptr, Q ? &q->second : nullptr); } }
   }
   g.assume(!edge); if (diff) g.nontrivial(); g.label(diff ? "differ" : "same");
   REQUIRE(r.rc == (diff ? 1 : 0), line(a) << ": exit status " << r.rc << ", expected " << diff << "\n" << r.out);
   REQUIRE((r.out.find("no differences were found") != string::npos) == !diff, line(a) << ": " << r.out);
   vector<string> got; for (auto& l : lines(r.out)) if (!l.empty() && (l[0] == '<' || l[0] == '>' || l[0] == '-'))
   {
      auto w = words(l.substr(1)); REQUIRE(w.size() > 4, "line " << l); REQUIRE(w[0] == strf("%d/%03d", F[0].day.y, F[0].day.doy), "date in " << l); vector<ll> v; string sv = w[3]; size_t k = 4; if (sv.size() < 3 && w.size() > 5) { sv += w[4]; k = 5; } for (; k + 1 < w.size(); k += 2) v.push_back(llround(atof(w[k].c_str()) * 1000)); sort(v.begin(), v.end());
      string s = strf("%c %d %s", l[0], (int)lround(atof(w[1].c_str())), sv.c_str()); for (ll x : v) s += strf(" %lld", x); got.push_back(s);
   }
   auto join = [](const vector<string>& v) { string s; for (auto& x : v) s += x + "\n"; return s; };
   REQUIRE(got == want, line(a) << " printed\n" << r.out << "expected\n" << join(want));
}
PROP(diffMet, 2000, 40000, "the files differ")
{
   auto F = genMet(g, 2); bool self = g.flag(0.15), same = !self && g.flag(0.3); if (same) F[1].ep = F[0].ep; if (self) F[1] = F[0]; if (!self && g.flag(0.6)) for (auto& e : F[1].ep) if (g.flag(0.3)) for (auto& y : e.second) if (g.flag()) y.second += g.range(-50, 50);
   vector<vector<string>> ty{F[0].types, F[1].types}; auto types = common(ty); string D = pbt::scratch(), n1 = D + "/a.04m", n2 = D + "/b.04m"; pbt::spit(n1, writeMet(F[0])); pbt::spit(n2, writeMet(F[1])); g << "a:\n" << writeMet(F[0]) << "b:\n" << writeMet(F[1]);
   vector<string> a{"rmwdiff"}; int lo, hi; vector<int> tt; for (auto& o : F) for (auto& e : o.ep) tt.push_back(e.first); window(g, a, F[0].day, tt, lo, hi); a.push_back(n1); a.push_back(self ? n1 : n2); g << line(a) << "\n"; Run r = run(a);
   set<int> only1, only2, both; set<int> E; for (int t : tt) if (t >= lo && t < hi) E.insert(t);
   for (int t : E) { auto i = F[0].ep.find(t), j = F[1].ep.find(t); if (j == F[1].ep.end()) only1.insert(t); else if (i == F[0].ep.end()) only2.insert(t); else for (auto& y : types) if (i->second[y] != j->second[y]) both.insert(t); }
   bool diff = only1.size() + only2.size() + both.size() > 0; if (diff) g.nontrivial(); g.label(diff ? "differ" : "same"); REQUIRE(r.rc == (diff ? 1 : 0), line(a) << ": exit status " << r.rc << ", expected " << diff << "\n" << r.out);
   size_t l1 = 0, l2 = 0; set<int> b; for (auto& l : lines(r.out))
   {
      if (l.empty()) continue; if (l[0] == '<') { ++l1; continue; } if (l[0] == '>') { ++l2; continue; }
      auto w = words(l); if (w.size() < 4 || w[2] != "STAT") continue; int t = atoi(w[1].c_str()); REQUIRE(atoi(w[0].c_str()) == F[0].day.doy && w[3] == "STAT" && both.count(t), "difference line " << l); b.insert(t);
      REQUIRE(w.size() == 4 + 2 * types.size(), "difference line " << l); for (size_t k = 4; k + 1 < w.size(); k += 2) { REQUIRE(types.count(w[k + 1]), "difference line " << l); REQUIRE(lround(atof(w[k].c_str()) * 10) == F[0].ep[t][w[k + 1]] - F[1].ep[t][w[k + 1]], "difference line " << l << " should have " << F[0].ep[t][w[k + 1]] - F[1].ep[t][w[k + 1]]); }
   }
   REQUIRE(b == both && l1 == only1.size() && l2 == only2.size(), line(a) << " printed " << b.size() << " differences, " << l1 << " < and " << l2 << " >; expected " << both.size() << ", " << only1.size() << ", " << only2.size() << "\n" << r.out);
}
PROP(diffNav, 2000, 40000, "the files differ")
{
   Day d; auto F = genNavFiles(g, 2, d); bool same = g.flag(0.3); for (auto& f : F) { set<Nav> s; vector<Nav> n; for (auto& x : f) if (s.insert(x).second) n.push_back(x); f = n; } if (same) { F[1] = F[0]; permute(g, F[1]); }
   string D = pbt::scratch(), n1 = D + "/a.04n", n2 = D + "/b.04n"; pbt::spit(n1, writeNav(F[0], d, {})); pbt::spit(n2, writeNav(F[1], d, {})); g << "a:\n" << writeNav(F[0], d, {}) << "b:\n" << writeNav(F[1], d, {});
   vector<string> a{"rnwdiff"}; int lo, hi; vector<int> tt; for (auto& f : F) for (auto& x : f) tt.push_back(x.toc); window(g, a, d, tt, lo, hi); a.push_back(n1); a.push_back(same && g.flag() ? n1 : n2); g << line(a) << "\n"; Run r = run(a);
   set<Nav> s1, s2; for (auto& x : F[0]) if (x.toc >= lo && x.toc < hi) s1.insert(x); for (auto& x : F[1]) if (x.toc >= lo && x.toc < hi) s2.insert(x); bool diff = s1 != s2; if (diff) g.nontrivial(); g.label(diff ? "differ" : "same");
   REQUIRE(r.rc == (diff ? 1 : 0), line(a) << ": exit status " << r.rc << ", expected " << diff << "\n" << r.out); REQUIRE((r.out.find("no differences") != string::npos) == !diff, line(a) << ": " << r.out);
   size_t x1 = 0, x2 = 0, l1 = 0, l2 = 0, pairs = 0; for (auto& x : s1) x1 += !s2.count(x); for (auto& x : s2) x2 += !s1.count(x);
   for (auto& l : lines(r.out)) { if (l.empty() || l.find("differences") != string::npos) continue; if (l[0] == '<') ++l1; else if (l[0] == '>') ++l2; else if (words(l).size() == 31) ++pairs; }
   REQUIRE(l1 + pairs == x1 && l2 + pairs == x2, line(a) << " printed " << l1 << " <, " << l2 << " > and " << pairs << " pairs; the files have " << x1 << " and " << x2 << " records of their own\n" << r.out);
}
   // check tools, and what is refused --------------------------------------------
PROP(check, 1500, 20000, "a file was checked")
{
   int k = g.below(3); static const char* tool[] = {"rowcheck", "rnwcheck", "rmwcheck"}; int nf = g.range(1, 3); string D = pbt::scratch(); vector<string> names, text; vector<size_t> n; bool mixed; Day d;
   if (k == 0) { auto F = genObs(g, nf, mixed); for (auto& o : F) text.push_back(writeObs(o, mixed)), n.push_back(o.ep.size()); }
   if (k == 1) { auto F = genNavFiles(g, nf, d); for (auto& o : F) text.push_back(writeNav(o, d, {})), n.push_back(o.size()); }
   if (k == 2) { auto F = genMet(g, nf); for (auto& o : F) text.push_back(writeMet(o)), n.push_back(o.ep.size()); }
   vector<bool> bad(nf, false); bool any = false, quit = g.flag(0.3);
   for (int i = 0; i < nf; ++i)
   {
      if (g.flag(0.25))   // spoilt: no end of header, or a record of letters
      {
         if (g.flag()) { auto p = text[i].rfind('\n', text[i].find("END OF HEADER")); text[i] = text[i].substr(0, p + 1) + head("", "END OF HEADING") + body(text[i]); }
         else text[i] += k == 0 ? " 04  3  1 23  0  0.0000000  0  2G 1G12\n" : k == 1 ? " 1 04  3  1 23  0  0.0 .100000000000D+01 .100000000000D+01 .100000000000D+01\n" : "not a record\n";   // cut short
         bad[i] = any = true;
      }
      names.push_back(D + strf("/f%d", i)); pbt::spit(names[i], text[i]); g << "file " << i << (bad[i] ? " (bad)" : "") << ":\n" << text[i];
   }
   vector<string> a{tool[k]}; if (quit) a.push_back(g.flag() ? "-1" : "--quit-on-first-error"); a.insert(a.end(), names.begin(), names.end()); Run r = run(a); g.nontrivial(); g.label(tool[k]); if (any) g.label("bad file");
   REQUIRE(any ? r.rc > 0 && r.rc < 1000 : r.rc == 0, line(a) << ": exit status " << r.rc << "\n" << r.out); vector<string> got, want;
   for (auto& l : lines(r.out)) if (l.compare(0, 9, "Checking ") == 0 || l.compare(0, 5, "Read ") == 0) got.push_back(l);
   for (int i = 0; i < nf; ++i) { want.push_back("Checking " + names[i]); if (!bad[i]) want.push_back(strf("Read %d records.", (int)n[i])); else if (quit) break; }
   string s, t; for (auto& x : got) s += x + "\n"; for (auto& x : want) t += x + "\n"; REQUIRE(s == t, line(a) << " printed\n" << r.out << "expected\n" << t);
}
PROP(refused, 400, 4000, "a command line was refused")
{
   static const char* tool[] = {"mergeRinObs", "mergeRinNav", "mergeRinMet", "rowdiff", "rnwdiff", "rmwdiff", "rowcheck"}; int k = g.below(7); string D = pbt::scratch(), out = D + "/out", f = D + "/f", e = D + "/none"; bool mixed;
   auto O = genObs(g, 1, mixed)[0]; auto M = genMet(g, 1)[0]; Day d; auto N = genNavFiles(g, 1, d)[0]; pbt::spit(f, k % 3 == 0 ? writeObs(O, mixed) : k % 3 == 1 ? writeNav(N, d, {}) : writeMet(M)); vector<string> a{tool[k]};
   if (k < 3) switch (g.below(4)) { case 0: a.push_back(f); break; case 1: a.push_back("-o"); a.push_back(out); break; case 2: a.push_back("-q"); a.push_back("-o"); a.push_back(out); a.push_back(f); break; default: a.push_back("-o"); a.push_back(out); a.push_back("-o"); a.push_back(out); a.push_back(f); }
   else if (k < 6) switch (g.below(5)) { case 0: a.push_back(f); break; case 1: break; case 2: for (int i = 0; i < 3; ++i) a.push_back(f); break; case 3: a.push_back(f); a.push_back(e); break; default: a.push_back("-t"); a.push_back("2011 5 7 1"); a.push_back(f); a.push_back(f); }
   else switch (g.below(2)) { case 0: break; default: a.push_back("-t"); a.push_back("x y z w"); a.push_back(f); }
   g << line(a); g.label(tool[k]); g.nontrivial(); Run r = run(a); REQUIRE(r.rc > 0 && r.rc < 1000, line(a) << ": exit status " << r.rc << "\n" << r.out);
   REQUIRE(r.out.find_first_not_of(" \n") != string::npos, line(a) << ": no message");
}
PBT_MAIN
