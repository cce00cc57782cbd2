// Property-based testing core used by every harness in /verif/harness.
//
// A property is a function of a choice source G.  Every random decision goes
// through G::below(), which records it; a case *is* its list of choices, so a
// failure is shrunk by editing the list and replayed from the list alone.
// Cases are a pure function of (VERIF_SEED, sub-property name, case index).
// Cases run in forked workers, so a crash, a sanitizer abort or an endless
// loop in the code under test is an observed outcome of one identified case.
#pragma once
#include <memory>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <functional>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <ftw.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <cxxabi.h>

namespace pbt
{
struct Fail { std::string sig, msg; };
struct Discard {};

inline uint64_t mix(uint64_t z)
{ z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t hashStr(const std::string& s)
{ uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

class G
{
public:
   std::vector<uint64_t> rec;
   const std::vector<uint64_t>* rep = nullptr;
   size_t pos = 0;
   uint64_t state = 0;
   bool verbose = false;
   std::ostringstream log;
   bool nontriv = false;
   std::map<std::string,uint64_t> labels;
   uint64_t* wal = nullptr;            // choices written ahead to shared memory, so that a crash still reports them
   static const size_t WALMAX = (1u << 21);

   uint64_t next() { state += 0x9E3779B97F4A7C15ull; return mix(state); }
      // uniform in [0,n); 0 is the simplest value
   uint64_t below(uint64_t n)
   {
      if (n == 0) n = 1;
      uint64_t v;
      if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; if (v >= n) v = n - 1; }
      else if (n == 1) v = 0;
      else v = (uint64_t)(((unsigned __int128)next() * n) >> 64);
      ++pos; rec.push_back(v);
      if (wal && rec.size() < WALMAX) { wal[rec.size()] = v; wal[0] = rec.size(); }
      return v;
   }
      // walks 0..n-1 with the case number (a finite space enumerated, not sampled)
   uint64_t idx = 0;
   uint64_t enumerate(uint64_t n)
   { uint64_t v; if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; if (v >= n) v = n - 1; } else v = idx % n;
     ++pos; rec.push_back(v); if (wal && rec.size() < WALMAX) { wal[rec.size()] = v; wal[0] = rec.size(); } return v; }
   uint64_t bits(int n) { return n >= 64 ? bits64() : below(1ull << n); }
   uint64_t bits64() { uint64_t h = below(1ull << 32), l = below(1ull << 32); return (h << 32) | l; }
      // inclusive, shrinks to lo
   long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo) + 1); }
      // inclusive, shrinks to o
   long rangeO(long lo, long hi, long o)
   { uint64_t k = below((uint64_t)(hi - lo) + 1);
     if (k <= (uint64_t)(hi - o)) return o + (long)k;
     return o - (long)(k - (uint64_t)(hi - o)); }
   bool flag(int num = 1, int den = 2) { return below(den) >= (uint64_t)(den - num); }   // true with p=num/den, shrinks to false
   bool flag(double p) { return below(1000) >= (uint64_t)(1000 - (int)(p * 1000 + 0.5)); }   // true with probability p
   bool oneIn(int den) { return flag(1, den); }
      // uniform real in [lo,hi)
   double unit() { return (double)below(1ull << 53) / 9007199254740992.0; }
   double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
      // real with a bias to round values and the ends
   double num(double lo, double hi)
   {
      switch (below(8))
      {
         case 0: { double v = std::floor(real(lo, hi)); return v < lo ? lo : v; }
         case 1: return lo;
         case 2: { double s = std::pow(10.0, (double)range(1, 6)); double v = std::floor(real(lo, hi) * s) / s; return v < lo ? lo : v; }
         case 3: return (lo <= 0 && hi >= 0) ? 0.0 : lo;
         case 4: return std::nextafter(hi, lo);
         default: return real(lo, hi);
      }
   }
      // log-uniform magnitude with random sign
   double logReal(double e10lo, double e10hi, bool sign = true)
   { double v = std::pow(10.0, real(e10lo, e10hi)); return (sign && flag()) ? -v : v; }
   template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
   template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
   size_t weighted(std::initializer_list<int> w)
   { uint64_t s = 0; for (int x : w) s += x; uint64_t k = below(s); size_t i = 0;
     for (int x : w) { if (k < (uint64_t)x) return i; k -= x; ++i; } return 0; }
   std::string str(const std::string& alphabet, size_t lo, size_t hi)
   { size_t n = range(lo, hi); std::string s; for (size_t i = 0; i < n; i++) s += alphabet[below(alphabet.size())]; return s; }
   template <class T> void shuffle(std::vector<T>& v)
   { for (size_t i = v.size(); i > 1; --i) { size_t j = i - 1 - below(i); std::swap(v[i-1], v[j]); } }

   void label(const std::string& s) { labels[s]++; }
   void nontrivial(bool b = true) { if (b) nontriv = true; }
   void assume(bool b) { if (!b) throw Discard(); }
   template <class T> G& operator<<(const T& x) { if (verbose) log << x; return *this; }
};

[[noreturn]] inline void fail(const std::string& msg, const std::string& sig = "") { throw Fail{sig, msg}; }

inline std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* f, ...)
{ char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string q(const std::string& s)
{ std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; }
     else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += strf("\\x%02x", c); else r += c; } return r + "\""; }
inline std::string d2s(double d) { return strf("%.17g", d); }

#define REQUIRE(c, ...) do { if (!(c)) { std::ostringstream _o; _o << "line " << __LINE__ << ": " #c "; " << __VA_ARGS__; pbt::fail(_o.str()); } } while (0)
#define REQUIRE_SIG(sig, c, ...) do { if (!(c)) { std::ostringstream _o; _o << "line " << __LINE__ << ": " #c "; " << __VA_ARGS__; pbt::fail(_o.str(), sig); } } while (0)
#define REQ_EQ(a, b, ...) do { auto _a = (a); auto _b = (b); if (!(_a == _b)) { std::ostringstream _o; _o << std::setprecision(17) << "line " << __LINE__ << ": " #a " == " #b " got " << _a << " vs " << _b << "; " << __VA_ARGS__; pbt::fail(_o.str()); } } while (0)
#define REQ_NEAR(a, b, tol, ...) do { double _a = (a), _b = (b), _t = (tol); if (!(std::fabs(_a - _b) <= _t)) { std::ostringstream _o; _o << std::setprecision(17) << "line " << __LINE__ << ": " #a " ~ " #b " got " << _a << " vs " << _b << " diff " << _a - _b << " tol " << _t << "; " << __VA_ARGS__; pbt::fail(_o.str()); } } while (0)

struct Sub { std::string name; uint64_t quick, thorough; std::function<void(G&)> fn; std::string rule; int cpuLimit; };
inline std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
struct Probe { std::string sig; std::function<void()> fn; };
inline std::vector<Probe>& probes() { static std::vector<Probe> s; return s; }
struct Reg
{
   Reg(const char* n, uint64_t qn, uint64_t tn, std::function<void(G&)> f, const char* rule, int cpu = 60)
   { subs().push_back({n, qn, tn, f, rule, cpu}); }
};
struct RegProbe { RegProbe(const char* s, std::function<void()> f) { probes().push_back({s, f}); } };

// PROP(name, quick cases, thorough cases, "what is non-trivial") { body using g }
#define PROP(name, qn, tn, rule) static void prop_##name(pbt::G& g); static pbt::Reg reg_##name(#name, qn, tn, prop_##name, rule); static void prop_##name(pbt::G& g)
// KNOWN(sig) { deterministic body which fails with that signature while the finding exists }
#define KNOWN_CAT2(a, b) a##b
#define KNOWN_CAT(a, b) KNOWN_CAT2(a, b)
#define KNOWN(sig) static void KNOWN_CAT(probe_, __LINE__)(); static pbt::RegProbe KNOWN_CAT(regprobe_, __LINE__)(sig, KNOWN_CAT(probe_, __LINE__)); static void KNOWN_CAT(probe_, __LINE__)()

// ---------------------------------------------------------------- scratch dir
inline std::string& scratchBase() { static std::string s; return s; }
inline std::string scratch()
{
   static std::string d; static pid_t owner = 0;
   if (owner != getpid()) { owner = getpid(); d = scratchBase() + "/w" + std::to_string(owner); mkdir(d.c_str(), 0777); }
   return d;
}
inline int rmCb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
inline void rmTree(const std::string& d) { if (d.size() > 8) nftw(d.c_str(), rmCb, 16, FTW_DEPTH | FTW_PHYS); }
inline std::string slurp(const std::string& f)
{ std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit(const std::string& f, const std::string& s)
{ std::ofstream o(f.c_str(), std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }

// ------------------------------------------------------------------- running
enum Outcome { PASS = 0, DISCARDED = 1, FAILED = 2, CRASHED = 3, HUNG = 4 };
struct Result { Outcome o = PASS; std::string sig, msg; };

   // describe an exception the harness did not expect (gpstk::Exception is given its own describer)
inline std::function<bool(std::string&)>& excDescriber() { static std::function<bool(std::string&)> f; return f; }

inline Result runOnce(const Sub& s, G& g)
{
   Result r;
   try { s.fn(g); }
   catch (Fail& f) { r.o = FAILED; r.sig = f.sig; r.msg = f.msg; }
   catch (Discard&) { r.o = DISCARDED; }
   catch (...)
   {
      r.o = FAILED;
      std::string d;
      bool ok = false;
      if (excDescriber()) { try { ok = excDescriber()(d); } catch (...) {} }
      if (!ok)
      {
         try { throw; } catch (std::exception& e) { d = std::string(typeid(e).name()) + ": " + e.what(); }
         catch (...) { std::type_info* t = abi::__cxa_current_exception_type(); d = t ? t->name() : "?"; }
      }
      r.msg = "unexpected exception: " + d;
   }
   return r;
}

inline void onCpu(int) { const char m[] = "\npbt: case exceeded its CPU limit\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
inline void armCpu(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, 0); }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline std::string jstr(const std::string& s)
{ std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
     else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += (char)c; } return r + "\""; }

struct Shared
{
   volatile uint64_t nextUnit;
   volatile uint32_t subStop[512];
   struct Slot { volatile int64_t sub, idx, unitStart; } slot[64];
};

struct Opt
{
   std::string prop, tier = "quick", evidence, replayDir = "replays", only, replay, known;
   uint64_t seed = 1; int jobs = 8; double scale = 1, deadline = 0; bool list = false, noShrink = false, allRules = true;
};

struct SubStat
{
   uint64_t n = 0, disc = 0, nontriv = 0, known = 0;
   std::map<std::string,uint64_t> labels, knownSigs;
   std::unordered_set<uint64_t> hashes;
   std::vector<std::string> samples;
};
struct FailRec { int sub; uint64_t idx, unitStart; std::string sig, msg; Outcome o; };

inline uint64_t caseSeed(const Opt& o, const Sub& s, uint64_t i) { return mix(mix(o.seed * 0x1000193ull + 77) ^ hashStr(s.name)) ^ mix(i + 0x51ull); }

inline void redirect(const std::string& errFile)
{
   int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0666);
   int nul = open("/dev/null", O_WRONLY);
   if (fd >= 0) { dup2(fd, 2); close(fd); }
   if (nul >= 0) { dup2(nul, 1); close(nul); }
}
inline std::string tail(const std::string& f, size_t n)
{ std::string s = slurp(f); return s.size() > n ? s.substr(0, n / 2) + "\n...\n" + s.substr(s.size() - n / 2) : s; }

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

inline void limits()
{
   signal(SIGPROF, onCpu);
#ifndef PBT_ASAN
   struct rlimit r; r.rlim_cur = r.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &r);
#endif
   struct rlimit c; c.rlim_cur = c.rlim_max = 0; setrlimit(RLIMIT_CORE, &c);
   struct rlimit f; f.rlim_cur = f.rlim_max = 1ull << 30; setrlimit(RLIMIT_FSIZE, &f);
}

   // one choice list (or one seed), in a child of its own
inline Result runForked(const Sub& s, const std::vector<uint64_t>* rep, uint64_t seed, std::vector<uint64_t>* outRec = nullptr, std::string* outLog = nullptr,
                        const std::function<void(G&)>& pre = nullptr, bool* nontriv = nullptr, uint64_t idx = 0)
{
   static uint64_t* wal = (uint64_t*)mmap(0, 8 * G::WALMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   std::string out = scratchBase() + "/fork.out", err = scratchBase() + "/fork.err";
   wal[0] = 0;
   fflush(0);
   pid_t p = fork();
   if (p == 0)
   {
      redirect(err); limits();
      if (pre) { G g; armCpu(s.cpuLimit * 10); pre(g); }
      armCpu(s.cpuLimit);
      G g; g.rep = rep; g.state = seed; g.verbose = outLog != nullptr; g.wal = wal; g.idx = idx;
      Result r = runOnce(s, g);
      std::ofstream o(out.c_str(), std::ios::binary | std::ios::trunc);
      o << (int)r.o << "\n" << r.sig << "\n" << (g.nontriv ? 1 : 0) << "\n" << r.msg.size() << "\n" << r.msg << g.log.str();
      o.flush();
      _exit(0);
   }
   int st = 0; waitpid(p, &st, 0);
   Result r;
   if (outRec) outRec->assign(wal + 1, wal + 1 + wal[0]);
   if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
   {
      std::ifstream i(out.c_str(), std::ios::binary);
      int o = 0, nt = 0; std::string line;
      i >> o; std::getline(i, line); std::getline(i, r.sig); i >> nt;
      size_t m = 0; i >> m; i.get(); r.msg.resize(m); if (m) i.read(&r.msg[0], m);
      std::ostringstream l; l << i.rdbuf(); if (outLog) *outLog = l.str();
      if (nontriv) *nontriv = nt;
      r.o = (Outcome)o;
   }
   else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { r.o = HUNG; r.sig = "hang"; r.msg = strf("no answer within %d s of CPU time", s.cpuLimit); }
   else
   {
      r.o = CRASHED; r.sig = "crash";
      r.msg = WIFSIGNALED(st) ? strf("killed by signal %d\n", WTERMSIG(st)) : strf("exit status %d\n", WEXITSTATUS(st));
      r.msg += tail(err, 6000);
   }
   unlink(out.c_str()); unlink(err.c_str());
   return r;
}

inline bool bad(const Result& r, const std::set<std::string>& known)
{ return r.o >= FAILED && !(r.sig.size() && known.count(r.sig)); }

inline std::vector<uint64_t> shrink(const Sub& s, std::vector<uint64_t> best, const std::set<std::string>& known, Outcome kind, double budget, int& evals)
{
   double t0 = now(); evals = 0;
   if (kind == HUNG) return best;
   auto tryit = [&](const std::vector<uint64_t>& c) {
      if (now() - t0 > budget || evals > 4000) return false;
      ++evals;
      std::vector<uint64_t> rec;
      Result r = runForked(s, &c, 0, &rec);
      if (!bad(r, known) || r.o == HUNG) return false;
      while (rec.size() && rec.back() == 0) rec.pop_back();
      const std::vector<uint64_t>& n = rec;
      if (n.size() > best.size() || (n.size() == best.size() && !(n < best))) return false;
      best = n; return true; };
   bool progress = true;
   while (progress && now() - t0 < budget && evals < 4000)
   {
      progress = false;
      for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2)
      {
         for (size_t i = best.size(); i-- > 0;)
         {
            if (i + k > best.size()) continue;
            std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + k);
            if (tryit(c)) { progress = true; continue; }
            if (now() - t0 > budget) break;
         }
         if (k == 1) break;
      }
      for (size_t k = std::min<size_t>(16, best.size()); k >= 1; k /= 2)
      {
         for (size_t i = 0; i + k <= best.size(); i++)
         {
            bool nz = false; for (size_t j = i; j < i + k; j++) if (best[j]) nz = true;
            if (!nz) continue;
            std::vector<uint64_t> c(best); for (size_t j = i; j < i + k; j++) c[j] = 0;
            if (tryit(c)) progress = true;
         }
         if (k == 1) break;
      }
      for (size_t i = 0; i < best.size(); i++)
      {
         uint64_t lo = 0, hi = best[i];
         while (lo < hi && i < best.size() && now() - t0 < budget && evals < 4000)
         {
            uint64_t mid = lo + (hi - lo) / 2;
            std::vector<uint64_t> c(best); if (i >= c.size()) break; c[i] = mid;
            if (tryit(c)) { progress = true; hi = i < best.size() ? std::min(mid, best[i]) : 0; } else lo = mid + 1;
         }
      }
   }
   return best;
}

inline int runAll(Opt opt)
{
   double t0 = now();
   std::set<std::string> known;
   std::map<std::string,std::string> knownWhat;
   if (opt.known.size())
   {
      std::ifstream k(opt.known.c_str()); std::string line;
      while (std::getline(k, line))
      {
         auto field = [&](const std::string& f) -> std::string {
            size_t p = line.find("\"" + f + "\":"); if (p == std::string::npos) return "";
            p = line.find('"', p + f.size() + 3); if (p == std::string::npos) return "";
            std::string r; for (++p; p < line.size() && line[p] != '"'; ++p) { if (line[p] == '\\') ++p; r += line[p]; } return r; };
         if (field("status") == "known" && field("property") == opt.prop && field("sig").size())
         { known.insert(field("sig")); knownWhat[field("sig")] = field("what"); }
      }
   }
   std::vector<Sub> S;
   for (auto& s : subs()) if (opt.only.empty() || s.name == opt.only) S.push_back(s);
   if (S.empty() && probes().empty()) { fprintf(stderr, "no sub-property selected\n"); return 2; }

   // known findings: run each one's fixed demonstration
   int knownLines = 0; std::set<std::string> saw;
   std::vector<std::string> viol;
   mkdir(opt.replayDir.c_str(), 0777);
   auto writeReplay = [&](const Sub& s, const std::string& mode, const std::vector<uint64_t>& c, uint64_t from, uint64_t to, const Result& r, const std::string& log) {
      std::string f = opt.replayDir + "/" + opt.prop + "-" + s.name + ".replay";
      std::ofstream o(f.c_str());
      o << "property " << opt.prop << "\nsub " << s.name << "\nmode " << mode << "\nseed " << opt.seed << "\nfrom " << from << "\nto " << to << "\nchoices " << c.size();
      for (uint64_t v : c) o << " " << v;
      o << "\n# replay: /verif/check " << opt.prop << " --replay " << f << "\n# outcome: " << (r.o == CRASHED ? "crash" : r.o == HUNG ? "no answer" : "check failed") << "\n";
      std::istringstream m(r.msg + "\n--- case ---\n" + log); std::string l; while (std::getline(m, l)) o << "# " << l << "\n";
      return f; };

   if (opt.replay.size())
   {
      std::ifstream i(opt.replay.c_str()); std::string k, sub, mode = "case"; std::vector<uint64_t> c; uint64_t from = 0, to = 0;
      while (i >> k)
      {
         if (k[0] == '#') { std::string l; std::getline(i, l); }
         else if (k == "property") i >> k; else if (k == "sub") i >> sub; else if (k == "mode") i >> mode; else if (k == "seed") i >> opt.seed;
         else if (k == "from") i >> from; else if (k == "to") i >> to;
         else if (k == "choices") { size_t n; i >> n; c.resize(n); for (auto& v : c) i >> v; }
      }
      for (auto& s : subs()) if (s.name == sub)
      {
         std::string log; Result r;
         if (mode == "case") r = runForked(s, &c, 0, nullptr, &log);
         else r = runForked(s, nullptr, caseSeed(opt, s, to), nullptr, &log, [&](G&) { for (uint64_t k = from; k < to; k++) { G h; h.state = caseSeed(opt, s, k); h.idx = k; Result q = runOnce(s, h); (void)q; } }, nullptr, to);
         printf("%s\n--- case ---\n%s\n", r.o == PASS ? "PASS" : r.o == DISCARDED ? "DISCARDED" : ("FAIL: " + r.msg).c_str(), log.c_str());
         if (bad(r, known)) { printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), opt.replay.c_str()); return 1; }
         return 0;
      }
      fprintf(stderr, "replay: no such sub-property %s\n", sub.c_str()); return 2;
   }

   for (auto& p : probes())
   {
      Sub s{"probe", 1, 1, [&](G&) { p.fn(); }, "", 60};
      Result r = runForked(s, nullptr, 0);
      if (r.o >= FAILED && (r.sig == p.sig || r.o >= CRASHED) && known.count(p.sig))
      { printf("KNOWN-FINDING: property=%s [%s] %s\n", opt.prop.c_str(), p.sig.c_str(), knownWhat[p.sig].c_str()); saw.insert(p.sig); ++knownLines; }
      else if (r.o >= FAILED)
      { // not listed: a violation like any other
         s.name = "probe-" + p.sig; for (auto& ch : s.name) if (!isalnum((unsigned char)ch) && ch != '-') ch = '_';
         std::string f = writeReplay(s, "case", {}, 0, 0, r, ""); viol.push_back(f);
         printf("--- %s: %s\nVIOLATION property=%s replay=%s\n", p.sig.c_str(), r.msg.c_str(), opt.prop.c_str(), f.c_str());
      }
   }

   struct Unit { int sub; uint64_t a, b; };
   std::vector<Unit> units;
   std::vector<uint64_t> N(S.size());
   {
      std::vector<std::vector<Unit>> per(S.size());
      size_t mx = 0;
      for (size_t i = 0; i < S.size(); i++)
      {
         uint64_t base = opt.tier == "thorough" ? S[i].thorough : S[i].quick;
         uint64_t n = (uint64_t)std::max(1.0, base * (base > 1 ? opt.scale : 1.0));
         N[i] = n;
         uint64_t sz = std::max<uint64_t>(1, (n + 63) / 64);
         for (uint64_t a = 0; a < n; a += sz) per[i].push_back({(int)i, a, std::min(n, a + sz)});
         mx = std::max(mx, per[i].size());
      }
      for (size_t k = 0; k < mx; k++) for (auto& v : per) if (k < v.size()) units.push_back(v[k]);
   }
   Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   memset((void*)sh, 0, sizeof *sh);
   int W = std::min(opt.jobs, 64);
   double deadline = t0 + (opt.deadline > 0 ? opt.deadline : opt.tier == "thorough" ? 3000 : 420);
   std::vector<pid_t> pid(W, 0); std::vector<int> gen(W, 0);
   std::vector<FailRec> fails;
   bool hitDeadline = false;

   auto worker = [&](int w) {
      std::string base = scratchBase() + strf("/res.%d.%d", w, gen[w]);
      redirect(scratchBase() + strf("/err.%d", w)); limits();
      FILE* f = fopen(base.c_str(), "wb");
      for (;;)
      {
         uint64_t u = __sync_fetch_and_add(&sh->nextUnit, 1);
         if (u >= units.size()) break;
         if (now() > deadline) { fprintf(f, "DEADLINE\n"); break; }
         Unit un = units[u]; Sub& s = S[un.sub];
         if (sh->subStop[un.sub]) continue;
         uint64_t n = 0, disc = 0, kn = 0; std::map<std::string,uint64_t> lab, ksig; std::vector<uint64_t> hs; uint64_t nt = 0;
         sh->slot[w].sub = un.sub; sh->slot[w].unitStart = un.a;
         for (uint64_t i = un.a; i < un.b && !sh->subStop[un.sub]; i++)
         {
            sh->slot[w].idx = i;
            armCpu(s.cpuLimit);
            G g; g.state = caseSeed(opt, s, i); g.idx = i;
            Result r = runOnce(s, g);
            ++n;
            if (r.o == DISCARDED) { ++disc; continue; }
            if (r.o == FAILED)
            {
               if (r.sig.size() && known.count(r.sig)) { ++kn; ksig[r.sig]++; continue; }
               if (__sync_fetch_and_add(&sh->subStop[un.sub], 1) == 0)
               {
                  std::string m = r.msg; for (auto& ch : m) if (ch == '\n') ch = ' ';
                  fprintf(f, "FAIL %d %llu %llu %s\x01%s\n", un.sub, (unsigned long long)i, (unsigned long long)un.a, r.sig.c_str(), m.c_str()); fflush(f);
               }
               break;
            }
            for (auto& l : g.labels) lab[l.first] += l.second;
            if (g.nontriv) { ++nt; uint64_t h = hashStr(s.name); for (uint64_t v : g.rec) h = mix(h ^ v); hs.push_back(h); }
         }
         armCpu(0);
         sh->slot[w].sub = -1;
         fprintf(f, "UNIT %d %llu %llu %llu %llu %zu\n", un.sub, (unsigned long long)n, (unsigned long long)disc, (unsigned long long)nt, (unsigned long long)kn, hs.size());
         for (uint64_t h : hs) fprintf(f, "%llx\n", (unsigned long long)h);
         fprintf(f, "%zu\n", lab.size()); for (auto& l : lab) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
         fprintf(f, "%zu\n", ksig.size()); for (auto& l : ksig) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
         fflush(f);
      }
      fclose(f);
      _exit(0);
   };
   auto spawn = [&](int w) { fflush(0); sh->slot[w].sub = -1; pid_t p = fork(); if (p == 0) worker(w); pid[w] = p; };
   for (int w = 0; w < W; w++) spawn(w);
   int live = W, crashes = 0;
   while (live > 0)
   {
      int st; pid_t p = waitpid(-1, &st, 0);
      if (p < 0) break;
      int w = -1; for (int k = 0; k < W; k++) if (pid[k] == p) w = k;
      if (w < 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --live; continue; }
      int64_t sub = sh->slot[w].sub;
      if (sub >= 0)
      {
         FailRec fr; fr.sub = sub; fr.idx = sh->slot[w].idx; fr.unitStart = sh->slot[w].unitStart;
         bool hung = WIFEXITED(st) && WEXITSTATUS(st) == 97;
         fr.o = hung ? HUNG : CRASHED; fr.sig = hung ? "hang" : "crash";
         fr.msg = (hung ? std::string("no answer within the CPU limit") : WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st))) + "\n" + tail(scratchBase() + strf("/err.%d", w), 4000);
         if (__sync_fetch_and_add(&sh->subStop[sub], 1) == 0) fails.push_back(fr);
      }
      if (++crashes < 40) { gen[w]++; spawn(w); } else --live;
   }
   // collect
   std::vector<SubStat> st(S.size());
   for (int w = 0; w < W; w++) for (int gi = 0; gi <= gen[w]; gi++)
   {
      std::ifstream f((scratchBase() + strf("/res.%d.%d", w, gi)).c_str()); std::string k;
      while (f >> k)
      {
         if (k == "DEADLINE") hitDeadline = true;
         else if (k == "FAIL")
         { FailRec fr; f >> fr.sub >> fr.idx >> fr.unitStart; f.get(); std::string l; std::getline(f, l); size_t p = l.find('\x01'); fr.sig = l.substr(0, p); fr.msg = p == std::string::npos ? "" : l.substr(p + 1); fr.o = FAILED; fails.push_back(fr); }
         else if (k == "UNIT")
         {
            int sub; uint64_t n, d, nt, kn; size_t h; f >> sub >> n >> d >> nt >> kn >> h;
            SubStat& x = st[sub]; x.n += n; x.disc += d; x.nontriv += nt; x.known += kn;
            for (size_t i = 0; i < h; i++) { uint64_t v; f >> std::hex >> v >> std::dec; x.hashes.insert(v); }
            size_t m; f >> m; for (size_t i = 0; i < m; i++) { uint64_t c; f >> c; f.get(); std::string l; std::getline(f, l); x.labels[l] += c; }
            f >> m; for (size_t i = 0; i < m; i++) { uint64_t c; f >> c; f.get(); std::string l; std::getline(f, l); x.knownSigs[l] += c; }
         }
         else break;
      }
   }
   // confirm, shrink, replay three times, report
   int reported = 0; std::string inconclusive;
   std::sort(fails.begin(), fails.end(), [](const FailRec& a, const FailRec& b) { return a.sub < b.sub; });
   for (auto& fr : fails)
   {
      Sub& s = S[fr.sub];
      if (reported >= 4) { printf("--- also failing: %s case %llu: %s\n", s.name.c_str(), (unsigned long long)fr.idx, fr.msg.substr(0, 400).c_str()); continue; }
      std::vector<uint64_t> rec;
      Result r = runForked(s, nullptr, caseSeed(opt, s, fr.idx), &rec, nullptr, nullptr, nullptr, fr.idx);
      if (bad(r, known))
      {
         int ev = 0; std::vector<uint64_t> best = rec; while (best.size() && best.back() == 0) best.pop_back();
         if (!opt.noShrink) best = shrink(s, best, known, r.o, 40, ev);
         std::string log; Result f = runForked(s, &best, 0, nullptr, &log);
         int want = r.o == HUNG ? 1 : 3, again = 0; for (int k = 0; k < want; k++) if (bad(runForked(s, &best, 0), known)) ++again;
         if (again == want && bad(f, known))
         {
            std::string file = writeReplay(s, "case", best, 0, 0, f, log); viol.push_back(file); ++reported;
            printf("--- %s (case %llu, %d shrink steps): %s\n%s\nVIOLATION property=%s replay=%s\n", s.name.c_str(), (unsigned long long)fr.idx, ev, f.msg.c_str(), log.substr(0, 3000).c_str(), opt.prop.c_str(), file.c_str());
            continue;
         }
      }
      // state carried between cases: replay the unit up to the failing case
      auto pre = [&](G&) { for (uint64_t k = fr.unitStart; k < fr.idx; k++) { G h; h.state = caseSeed(opt, s, k); h.idx = k; Result q = runOnce(s, h); (void)q; } };
      int again = 0; Result last; std::string log;
      for (int k = 0; k < 3; k++) { last = runForked(s, nullptr, caseSeed(opt, s, fr.idx), nullptr, &log, pre, nullptr, fr.idx); if (bad(last, known)) ++again; }
      if (again == 3)
      {
         std::string file = writeReplay(s, "unit", {}, fr.unitStart, fr.idx, last, log); viol.push_back(file); ++reported;
         printf("--- %s (cases %llu..%llu in one process): %s\nVIOLATION property=%s replay=%s\n", s.name.c_str(), (unsigned long long)fr.unitStart, (unsigned long long)fr.idx, last.msg.c_str(), opt.prop.c_str(), file.c_str());
      }
      else { inconclusive += s.name + " "; printf("--- INCONCLUSIVE %s case %llu did not reproduce: %s\n", s.name.c_str(), (unsigned long long)fr.idx, fr.msg.substr(0, 600).c_str()); }
   }
   // samples
   std::string samples; int ns = 0; uint64_t total = 0, distinct = 0, disc = 0;
   for (size_t i = 0; i < S.size(); i++)
   {
      total += st[i].n; distinct += st[i].hashes.size(); disc += st[i].disc;
      if (sh->subStop[i]) continue;
      int got = 0;
      for (uint64_t k = 0; k < std::min<uint64_t>(N[i], 12) && got < 1; k++)
      {
         std::string l; bool nt = false;
         Result r = runForked(S[i], nullptr, caseSeed(opt, S[i], k), nullptr, &l, nullptr, &nt, k);
         if (r.o == PASS && (nt || k == 11 || k + 1 == N[i]))
         {
            if (l.size() > 700) l = l.substr(0, 700) + "...";
            samples += (ns++ ? ",\n   " : "\n   ") + jstr(S[i].name + "[" + std::to_string(k) + "]: " + l); ++got;
         }
      }
   }
   double wall = now() - t0;
   std::string rules, per;
   for (size_t i = 0; i < S.size(); i++)
   {
      rules += (i ? "; " : "") + S[i].name + ": " + S[i].rule;
      std::string lab; for (auto& l : st[i].labels) lab += (lab.size() ? ", " : "") + jstr(l.first) + ": " + std::to_string(l.second);
      per += (i ? ",\n   " : "\n   ") + jstr(S[i].name) + ": {\"planned\": " + std::to_string(N[i]) + ", \"evaluated\": " + std::to_string(st[i].n) + ", \"discarded\": " + std::to_string(st[i].disc) +
         ", \"nontrivial\": " + std::to_string(st[i].nontriv) + ", \"distinct_nontrivial\": " + std::to_string(st[i].hashes.size()) + ", \"known_finding_hits\": " + std::to_string(st[i].known) + ", \"labels\": {" + lab + "}}";
   }
   if (opt.evidence.size())
   {
      std::ofstream e(opt.evidence.c_str());
      e << "{\n \"property\": " << jstr(opt.prop) << ",\n \"tier\": " << jstr(opt.tier) << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total
        << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"discarded\": " << disc << ",\n  \"rule\": " << jstr("Each case is a list of choices drawn from a generator seeded by (VERIF_SEED, sub-property, case number); distinct by the hash of the choices. Non-trivial, per sub-property: " + rules)
        << ",\n  \"samples\": [" << samples << "\n  ],\n  \"per_sub_property\": {" << per << "\n  },\n  \"deadline_hit\": " << (hitDeadline ? "true" : "false")
        << ",\n  \"inconclusive\": " << jstr(inconclusive) << ",\n  \"known_findings_seen\": " << saw.size() << "\n },\n \"assumptions\": [\"generated inputs stay within the documented domain stated in DESIGN.md\", \"tolerances are those stated in the harness source\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << viol.size() << "\n}\n";
   }
   printf("%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s%s\n", opt.prop.c_str(), opt.tier.c_str(), (unsigned long long)opt.seed, (unsigned long long)total, (unsigned long long)distinct, (unsigned long long)disc, wall, hitDeadline ? " (deadline)" : "");
   return viol.empty() ? 0 : 1;
}

inline int mainImpl(int argc, char** argv)
{
   Opt o;
   for (int i = 1; i < argc; i++)
   {
      std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--prop") o.prop = v(); else if (a == "--tier") o.tier = v(); else if (a == "--seed") o.seed = strtoull(v().c_str(), 0, 10);
      else if (a == "--evidence") o.evidence = v(); else if (a == "--replays") o.replayDir = v(); else if (a == "--only") o.only = v();
      else if (a == "--replay") o.replay = v(); else if (a == "--known") o.known = v(); else if (a == "--jobs") o.jobs = atoi(v().c_str());
      else if (a == "--scale") o.scale = atof(v().c_str()); else if (a == "--deadline") o.deadline = atof(v().c_str()); else if (a == "--noshrink") o.noShrink = true;
      else if (a == "--list") { for (auto& s : subs()) printf("%s\n", s.name.c_str()); return 0; }
   }
   if (o.jobs < 1) o.jobs = 1;
   setenv("TZ", "UTC", 1); tzset();
   char tmpl1[] = "/dev/shm/pbtXXXXXX", tmpl2[] = "/tmp/pbtXXXXXX";
   char* d = mkdtemp(tmpl1); if (!d) d = mkdtemp(tmpl2);
   if (!d) { perror("mkdtemp"); return 2; }
   scratchBase() = d;
   pid_t me = getpid();
   int rc = 2;
   try { rc = runAll(o); } catch (std::exception& e) { fprintf(stderr, "harness error: %s\n", e.what()); }
   if (getpid() == me) rmTree(scratchBase());
   return rc;
}
} // namespace pbt
#define PBT_MAIN int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
