// U01: string utilities against straightforward references of their documentation.
#include "gp.hpp"
#include "StringUtils.hpp"
#include <climits>
using namespace gpstk; using pbt::G; using pbt::q; using std::string; using std::vector;
namespace SU = gpstk::StringUtils;
static const size_t NP = string::npos;

static string text(G& g, char d = ' ', size_t hi = 16)
{
   switch (g.below(6))
   {
      case 0: return g.str(string("ab") + d, 0, hi);
      case 1: return g.str(string("abc012 .,x") + d + d + d, 0, hi);
      case 2: return g.str(string("a") + d + d, 0, 8);
      case 3: { string s; size_t n = g.range(0, hi); for (size_t i = 0; i < n; i++) s += (char)g.below(256); return s; }
      case 4: { string s; size_t n = g.range(0, hi); for (size_t i = 0; i < n; i++) s += (char)(32 + g.below(95)); return s; }
      default: { string s; int n = g.range(0, 6); for (int i = 0; i < n; i++) { s += g.str(string(1, d), 0, 3); s += g.str("abcXYZ019", 1, 5); } s += g.str(string(1, d), 0, 3); return s; }
   }
}
static vector<std::pair<size_t, size_t>> toks(const string& s, char d)
{ vector<std::pair<size_t, size_t>> r; size_t i = 0; while (i < s.size()) { if (s[i] == d) { ++i; continue; } size_t j = i; while (j < s.size() && s[j] != d) ++j; r.push_back({i, j}); i = j; } return r; }
static string rstrip(string s, char d) { while (s.size() && s.back() == d) s.pop_back(); return s; }

PROP(strip, 200000, 2000000, "the stripped string occurs at an end of the text")
{
   string p = g.weighted({3, 2}) ? g.str("ab", 0, 3) : g.str(" ab", 1, 1), s; int a = g.range(0, 4), b = g.range(0, 4); for (int i = 0; i < a; i++) s += p; s += g.str("ab ", 0, 6); for (int i = 0; i < b; i++) s += p;
   size_t n = g.flag() ? NP : g.range(0, 5); g << q(s) << " strip " << q(p) << " at most " << (n == NP ? "all" : pbt::strf("%zu", n));
   auto lead = [&](string t) { size_t k = n; while (k > 0 && p.size() && t.compare(0, p.size(), p) == 0 && t.size() >= p.size()) { t = t.substr(p.size()); --k; } return t; };
   auto trail = [&](string t) { size_t k = n; while (k > 0 && p.size() && t.size() >= p.size() && t.substr(t.size() - p.size()) == p) { t = t.substr(0, t.size() - p.size()); --k; } return t; };
   g.nontrivial(lead(s) != s || trail(s) != s); const string cs(s);
   REQ_EQ(SU::stripLeading(cs, p, n), lead(s), ""); REQ_EQ(SU::stripTrailing(cs, p, n), trail(s), ""); REQ_EQ(SU::strip(cs, p, n), trail(lead(s)), "");
   REQ_EQ(SU::stripLeading(cs, p.c_str(), n), lead(s), ""); REQ_EQ(SU::stripTrailing(cs, p.c_str(), n), trail(s), ""); REQ_EQ(SU::strip(cs, p.c_str(), n), trail(lead(s)), "");
   string m(s); string& r = SU::strip(m, p, n); REQUIRE(&r == &m && m == trail(lead(s)), "in place");
   if (p.size() == 1)
   {
      REQ_EQ(SU::stripLeading(cs, p[0], n), lead(s), ""); REQ_EQ(SU::stripTrailing(cs, p[0], n), trail(s), ""); REQ_EQ(SU::strip(cs, p[0], n), trail(lead(s)), "");
      if (p == " ") { REQ_EQ(SU::stripLeading(cs, n), lead(s), ""); REQ_EQ(SU::stripTrailing(cs, n), trail(s), ""); REQ_EQ(SU::strip(cs, n), trail(lead(s)), ""); }
   }
}
PROP(justify, 200000, 1000000, "the width differs from the length")
{
   string s = text(g); size_t w = g.flag() ? g.range(0, 30) : std::max<long>(0, (long)s.size() + g.rangeO(-2, 2, 0)); char pad = g.flag() ? ' ' : (char)g.range(33, 126); const string cs(s); g << q(s) << " width " << w << " pad " << pad; g.nontrivial(w != s.size());
   string L = SU::leftJustify(cs, w, pad), R = SU::rightJustify(cs, w, pad), C = SU::center(cs, w, pad);
   if (w <= s.size()) { REQ_EQ(L, s.substr(0, w), "left"); REQ_EQ(R, s.substr(s.size() - w), "right"); REQ_EQ(C, s.substr(0, w), "center"); }
   else
   {
      size_t k = w - s.size(); REQ_EQ(L, s + string(k, pad), "left"); REQ_EQ(R, string(k, pad) + s, "right");
      REQUIRE(C == string(k / 2, pad) + s + string(k - k / 2, pad) || C == string(k - k / 2, pad) + s + string(k / 2, pad), "center gives " << q(C));
   }
   size_t p0 = g.range(0, s.size() + 3), n = g.oneIn(5) ? NP : (size_t)g.range(0, 20);
   string want = p0 < s.size() ? s.substr(p0, n) : ""; if (n != NP) want.resize(n, pad); REQ_EQ(SU::subString(cs, p0, n, pad), want, "subString " << p0 << "," << (long)n);
}
PROP(words, 400000, 4000000, "at least two words and a leading, trailing or repeated delimiter")
{
   char d = g.pick({' ', ',', '|', '\t'}); string s = text(g, d); const string cs(s); auto T = toks(s, d); size_t N = T.size(); g << q(s) << " delimiter " << q(string(1, d));
   g.nontrivial(N >= 2 && (s[0] == d || s.back() == d || s.find(string(2, d)) != NP));
   REQ_EQ((size_t)SU::numWords(cs, d), N, "numWords");
   REQ_EQ(SU::firstWord(cs, d), N ? s.substr(T[0].first, T[0].second - T[0].first) : "", "firstWord");
   vector<string> W; for (auto& t : T) W.push_back(s.substr(t.first, t.second - t.first));
   REQUIRE(SU::split(cs, d) == W, "split by character");
   for (size_t i = 0; i <= N + 1; i++) REQ_EQ(SU::word(cs, i, d), i < N ? W[i] : "", "word " << i);
   size_t a = g.range(0, N + 1), n = g.oneIn(4) ? NP : (size_t)g.range(0, N + 1);
   string want; if (a < N && n) { size_t e = n > N - a ? N - 1 : a + n - 1; want = s.substr(T[a].first, T[e].second - T[a].first); }
   string got = SU::words(cs, a, n, d); if (n > N - std::min(a, N)) got = rstrip(got, d); REQ_EQ(got, want, "words " << a << "," << (long)n);
   string m(s); string f = SU::stripFirstWord(m, d); REQ_EQ(f, N ? W[0] : "", "stripFirstWord"); REQ_EQ(m, N > 1 ? s.substr(T[1].first) : "", "what stripFirstWord leaves");
      // removeWords: from the start of the word up to the start of the next one
   string rm(s); SU::removeWords(rm, a, n, d); string rw = s;
   if (a < N && n) { if (n == NP || n >= N - a) rw = rstrip(s.substr(0, T[a].first), d); else rw = s.substr(0, T[a].first) + s.substr(T[a + n].first); }
   REQ_EQ(rm, rw, "removeWords " << a << "," << (long)n);
}
PROP(split_many, 200000, 1000000, "two delimiters present")
{
   string ds = g.pick<string>({" ,", ",;", "|", " \t,"}), s = g.str("ab c" + ds + ds, 0, 20); bool trim = g.flag(), ign = g.flag(); g << q(s) << " by " << q(ds) << " trim " << trim << " ignoreEmpty " << ign;
   vector<string> W; string cur; bool in = false; auto push = [&]() { if (!in) return; string t = cur; if (trim) { while (t.size() && t[0] == ' ') t = t.substr(1); t = rstrip(t, ' '); } if (t.size() || !ign) W.push_back(t); cur = ""; in = false; };
   for (char c : s) { if (ds.find(c) != NP) push(); else { cur += c; in = true; } } push();
   g.nontrivial(W.size() > 2); auto G2 = SU::split(s, ds, trim, ign); REQUIRE(G2 == W, "got " << G2.size() << " tokens, expected " << W.size());
}
PROP(split_quotes, 200000, 1000000, "a quoted field containing the delimiter")
{
   bool dbl = g.flag(), trim = g.flag(), ign = g.flag(); char d = g.pick({',', ' ', '|'}); int n = g.range(1, 6); vector<string> F; string s;
   for (int i = 0; i < n; i++)
   {
      string f; bool quoted = g.oneIn(3); char qc = dbl || g.flag() ? '"' : '\'';
      if (quoted) { f = g.str(string("abc x") + d + (qc == '"' ? "'" : (dbl ? "" : "\"")), 0, 8); if (f.find(d) != NP) g.nontrivial(); }
      else { f = g.str(d == ' ' ? "abcx19" : "abc x19", 0, 6); }
      s += (i ? string(1, d) : "") + (quoted ? qc + f + qc : f);
         // strip() of the closing quote leaves the other quote alone
      if (trim) { while (f.size() && f[0] == ' ') f = f.substr(1); f = rstrip(f, ' '); }
      if (f.size() || !ign) F.push_back(f);
   }
   g << q(s) << " delimiter " << q(string(1, d)) << " trim " << trim << " ignoreEmpty " << ign; for (auto& f : F) g << " " << q(f);
   auto R = dbl ? SU::splitWithDoubleQuotes(s, d, trim, ign) : SU::splitWithQuotes(s, d, trim, ign); std::ostringstream o; for (auto& r : R) o << " " << q(r);
   REQUIRE(R == F, "got" << o.str());
   bool threw = false; try { SU::splitWithDoubleQuotes(s, '"'); } catch (SU::StringException&) { threw = true; } REQUIRE(threw, "a quote is refused as delimiter");
}
PROP(replace_change_translate, 300000, 2000000, "something is replaced")
{
   string s = g.str("abcab ", 0, 14), a = g.str("ab", 0, 3), b = g.str("abX", 0, 4); const string cs(s); size_t p = g.range(0, 5); unsigned n = g.flag() ? 1000 : g.range(0, 3); g << q(s) << " " << q(a) << " -> " << q(b) << " from " << p << " at most " << n;
   auto ref = [&](size_t pos, unsigned num) { string r; if (a.empty() || pos > s.size()) return s; r = s.substr(0, pos); size_t i = pos; while (i < s.size()) { if (num && s.compare(i, a.size(), a) == 0 && s.size() - i >= a.size()) { r += b; i += a.size(); --num; } else r += s[i++]; } return r; };
   string all = ref(0, 1000); g.nontrivial(all != s);
   string m(s); SU::replaceAll(m, a, b); REQ_EQ(m, all, "replaceAll"); REQ_EQ(SU::change(cs, a, b, p, n), ref(p, n), "change"); string m2(s); SU::change(m2, a, b, p, n); REQ_EQ(m2, ref(p, n), "change in place");
   string in = g.str("abc X", 0, 4), out = g.str("123456", 0, 4); char pad = g.pick({' ', '#'}); string w(s); for (auto& c : w) { size_t k = in.find(c); if (k != NP) c = k < out.size() ? out[k] : pad; }
   g << " translate " << q(in) << " " << q(out); REQ_EQ(SU::translate(cs, in, out, pad), w, "translate");
}
PROP(case_and_classes, 200000, 1000000, "letters of both cases, or a number")
{
   string s = g.flag() ? text(g) : g.str("0123456789+-.eEdD", 0, 9); for (auto& c : s) if ((unsigned char)c > 127) c &= 127; const string cs(s); g << q(s);
   string up(s), lo(s); bool u = false, l = false; for (auto& c : up) if (c >= 'a' && c <= 'z') { c -= 32; l = true; } for (auto& c : lo) if (c >= 'A' && c <= 'Z') { c += 32; u = true; }
   REQ_EQ(SU::upperCase(cs), up, ""); REQ_EQ(SU::lowerCase(cs), lo, ""); string m(s); SU::upperCase(m); REQ_EQ(m, up, ""); m = s; SU::lowerCase(m); REQ_EQ(m, lo, "");
   bool alpha = !s.empty(); for (char c : s) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) alpha = false; REQ_EQ(SU::isAlphaString(s), alpha, "");
      // [sign] digits [. digits] [e [sign] digits]; at least one digit
   auto dec = [](const string& t, bool dot, bool& digit) { size_t i = 0; digit = false; if (t.empty()) return false; if (t[0] == '-' || t[0] == '+') i = 1; bool saw = false; for (; i < t.size(); i++) { if (t[i] >= '0' && t[i] <= '9') digit = true; else if (t[i] == '.' && dot && !saw) saw = true; else return false; } return true; };
   bool dg; bool r = dec(s, false, dg) && dg; REQ_EQ(SU::isDigitString(s), r, "isDigitString"); r = dec(s, true, dg) && dg; REQ_EQ(SU::isDecimalString(s), r, "isDecimalString"); { size_t e = s.find_first_of("eEdD"); bool d2, w = dec(s.substr(0, e), true, d2) && d2; if (e != NP && e + 1 < s.size()) { bool d3; w = w && dec(s.substr(e + 1), false, d3) && d3; } REQ_EQ(SU::isScientificString(s), w, "isScientificString"); } g.nontrivial((u && l) || (r && dg));
   size_t e = s.find_first_of("eEdD"); bool dm, de = true; if (e == NP) { bool sc = dec(s, true, dm); if (!sc || dm) REQ_EQ(SU::isScientificString(s), sc, ""); }
   else { bool sc = dec(s.substr(0, e), true, dm); string x = s.substr(e + 1); if (x.size()) sc = dec(x, false, de) && sc; if (!sc || (dm && de)) REQ_EQ(SU::isScientificString(s), sc, "isScientificString"); }
}
PROP(numbers, 300000, 3000000, "always")
{
   g.nontrivial(); long v = 0; switch (g.below(4)) { case 0: v = g.rangeO(-300, 300, 0); break; case 1: v = (long)g.bits64(); break; case 2: v = (long)(g.bits(32)) * (g.flag() ? 1 : -1); break; default: v = 1l << g.below(63); v += g.rangeO(-1, 1, 0); }
   unsigned long uv = (unsigned long)v; g << v; string rest = g.pick<string>({"", " foo", "zz", " 12", ", x"}), lead = g.str(" ", 0, 2), zeros = g.str("0", 0, 3);
   REQ_EQ(SU::asInt(SU::asString(v)), v, "asInt"); REQ_EQ(SU::asUnsigned(SU::asString(uv)), uv, "asUnsigned"); REQ_EQ(SU::asString(v), std::to_string(v), "");
   unsigned u32 = (unsigned)v; REQ_EQ(SU::x2uint(SU::int2x(u32)), u32, "x2uint(int2x)"); REQ_EQ(SU::int2x(u32), pbt::strf("%x", u32), "int2x"); REQ_EQ(SU::x2uint(pbt::strf("%s0x%s%X", lead.c_str(), zeros.c_str(), u32)), u32, "x2uint");
   unsigned long a = uv >> 1; string dec = lead + zeros + std::to_string(a) + rest; REQ_EQ(SU::d2x((const string&)dec), pbt::strf("%lX", a) + rest, "d2x " << q(dec));
   string hx = rest == ", x" || rest == " 12" ? rest : rest == "zz" ? "zz" : rest; string h = lead + g.pick<string>({"", "0x"}) + zeros + pbt::strf(g.flag() ? "%x" : "%X", u32) + hx; REQ_EQ(SU::x2d((const string&)h), std::to_string(u32) + hx, "x2d " << q(h));
   string back = SU::x2d(SU::d2x(std::to_string(u32))); REQ_EQ(back, std::to_string(u32), "x2d(d2x)");
   string bytes = text(g), c2 = SU::c2x((const string&)bytes), want; for (unsigned char c : bytes) want += pbt::strf("%02X", c); REQ_EQ(c2, want, "c2x");
   double d = g.flag() ? g.logReal(-12, 12) : g.num(-1e6, 1e6); int p = g.range(0, 17); REQ_EQ(SU::asString(d, p), pbt::strf("%.*f", p, d), "asString(double)"); REQ_EQ(SU::asDouble(pbt::strf("%.17g", d)), d, "asDouble"); REQ_EQ(SU::asFloat(pbt::strf("%.9g", (float)d)), (float)d, "asFloat");
   long double ld = d; REQ_EQ(SU::asString(ld, p), pbt::strf("%.*Lf", p, ld), ""); REQUIRE(SU::asLongDouble(pbt::strf("%.21Lg", ld)) == ld, "asLongDouble"); REQ_EQ(SU::asData<int>(std::to_string((int)v)), (int)v, "asData");
   string mem(bytes); REQ_EQ(SU::memToString(mem.data(), mem.size()), mem, "");
}
   // leftmost-longest matching of (atom, quantifier) sequences
struct At { char c; bool any; char qt; };
static void ends(const vector<At>& P, size_t k, const string& s, size_t i, std::set<std::pair<size_t, size_t>>& seen, long& best)
{
   if (!seen.insert({k, i}).second) return; if (k == P.size()) { best = std::max(best, (long)i); return; }
   const At& a = P[k]; auto ok = [&](size_t j) { return j < s.size() && (a.any || s[j] == a.c); };
   if (!a.qt) { if (ok(i)) ends(P, k + 1, s, i + 1, seen, best); return; }
   size_t j = i; if (a.qt == '+') { if (!ok(j)) return; ++j; }
   for (;;) { ends(P, k + 1, s, j, seen, best); if (!ok(j)) break; ++j; }
}
PROP(pattern_match, 200000, 1500000, "the pattern has a wildcard and matches")
{
   char zo = g.pick({'*', '%'}), oo = g.pick({'+', '~'}), an = g.pick({'.', '?'}); string lit = "ab"; if (zo != '*') lit += '*'; if (oo != '+') lit += '+'; if (an != '.') lit += '.';
   if (an != '?' || zo != '*' || oo != '+') {}
   vector<At> P; string pat; int n = g.range(1, 5); bool wild = false; for (int i = 0; i < n; i++) { At a; a.any = g.oneIn(3); a.c = lit[g.below(lit.size())]; a.qt = g.weighted({3, 1, 1}) ; a.qt = a.qt == 0 ? 0 : a.qt == 1 ? '*' : '+'; if (a.any || a.qt) wild = true; P.push_back(a); pat += a.any ? an : a.c; if (a.qt) pat += a.qt == '*' ? zo : oo; }
   string s = g.str(lit + lit + "c", 0, 9); g << q(s) << " ~ " << q(pat) << " with " << zo << oo << an;
   string want; bool found = false; for (size_t i = 0; i <= s.size() && !found; i++) { std::set<std::pair<size_t, size_t>> seen; long b = -1; ends(P, 0, s, i, seen, b); if (b >= 0) { found = true; want = s.substr(i, b - i); } }
   g.nontrivial(wild && want.size()); REQ_EQ(SU::matches(s, pat, zo, oo, an), want, "matches"); REQ_EQ(SU::isLike(s, pat, zo, oo, an), !want.empty(), "isLike"); REQ_EQ(SU::isLike(s, pat.c_str(), zo, oo, an), !want.empty(), "isLike");
   int v = g.rangeO(-5000, 5000, 0), w = g.range(0, 8); string f = pbt::strf("a%%%s%dSb", g.flag() ? "0" : "", w ? w : 1); string fi = f; fi[fi.find('S')] = 'd'; REQ_EQ(SU::formattedPrint(f, string("%[ 0-]?[[:digit:]]*S"), string("Sd"), v), pbt::strf(fi.c_str(), v), "formattedPrint " << q(f));
}
PROP(pretty, 150000, 800000, "more than one line")
{
   char wd = g.pick({' ', 'X'}); string ld = g.pick<string>({"\n", "ZZ\n"}), ind = g.str("  >", 0, 4), fi = g.str(" -", 0, 6), s; size_t len = g.range(1, 40); int n = g.range(0, 12);
   vector<vector<string>> par(1); for (int i = 0; i < n; i++) { if (g.oneIn(6)) { s += ld; par.emplace_back(); } else { string w = g.str("abcdefg", 1, 9); s += g.str(string(1, wd), 1, 3); s += w; par.back().push_back(w); } } if (s.empty() || par.back().empty()) { s += "end"; par.back().push_back("end"); }   // (a text ending in a delimiter gets one empty word more)
  
   string want = fi; size_t cur = fi.size(); int lines = 1; for (size_t p = 0; p < par.size(); p++) { if (p) { want += ld + ind; cur = ind.size(); ++lines; } for (auto& w : par[p]) { if (cur + w.size() + 1 > len) { want += ld + ind; cur = ind.size(); ++lines; } want += wd + w; cur += w.size() + 1; } }
   want += ld; g << q(s) << " len " << len << " indent " << q(ind); g.nontrivial(lines > 1); REQ_EQ(SU::prettyPrint((const string&)s, ld, ind, fi, len, wd), want, "prettyPrint");
      // every line holds as much as fits, no more
   string t = text(g), pr; for (unsigned char c : t) pr += c < 32 ? pbt::strf("^%c", c + 64) : c == 127 ? "^?" : c > 127 ? pbt::strf("<%02X>", c) : string(1, (char)c); g << " printable " << q(t); REQ_EQ(SU::printable(t), pr, "printable");
}
PROP(hexdump, 60000, 300000, "more than one line")
{
   string d = g.flag() ? text(g, ' ', 60) : g.str("abc\x01\xff", 0, 70); SU::HexDumpDataConfig c; unsigned gb = g.pick({1, 2, 4}), g2 = gb * g.pick({0, 1, 2, 4}), bpl = (g2 ? g2 : gb) * g.range(1, 4); if (g.flag()) { c.groupBy = gb; c.group2By = g2; c.bytesPerLine = bpl; c.upperHex = g.flag(); c.hexIndex = g.flag(); c.idxDigits = g.range(2, 8); c.showText = g.flag(); c.showBaseIndex = g.flag(); }
   g << q(d) << " groupBy " << c.groupBy << " group2By " << c.group2By << " per line " << c.bytesPerLine << " digits " << c.idxDigits; std::ostringstream o; unsigned indent = g.range(0, 3); SU::hexDumpData(o, d, indent, c); string out = o.str();
   string got; size_t pos = 0; size_t idx = 0; vector<size_t> textcol;
   while (pos < out.size())
   {
      size_t nl = out.find('\n', pos); REQUIRE(nl != NP, "last line ends"); size_t cnt = std::min<size_t>(c.bytesPerLine, d.size() - std::min(idx, d.size())); string line = out.substr(pos, nl - pos); 
      string b = d.substr(idx, cnt), t; for (unsigned char ch : b) t += isprint(ch) ? (char)ch : '.'; string tail = c.preText + t + c.postText; size_t end = line.size();
      if (c.showText) { REQUIRE(line.size() >= tail.size() && line.substr(line.size() - tail.size()) == tail, "text column of " << q(line)); end -= tail.size(); textcol.push_back(end); }
      size_t i = line.find(c.indexSep); REQUIRE(i != NP, "index separator"); string ix = line.substr(indent, i - indent); REQ_EQ(strtoul(ix.c_str() + (c.showBaseIndex && c.hexIndex ? 2 : 0), 0, c.hexIndex ? 16 : 10), idx, "index in " << q(line)); i += c.indexSep.size();
      for (; i < end; i++) { char ch = line[i]; if (ch == ' ') continue; REQUIRE(isxdigit((unsigned char)ch) && (isdigit(ch) || (ch < 'a') == c.upperHex), "digit in " << q(line)); got += (char)toupper(ch); }
      idx += cnt; pos = nl + 1;
   }
   REQ_EQ(idx, d.size(), "all bytes are shown"); string want; for (unsigned char ch : d) want += pbt::strf("%02X", ch); REQ_EQ(got, want, "bytes shown"); g.nontrivial(d.size() > c.bytesPerLine);
   for (size_t x : textcol) REQ_EQ(x, textcol[0], "text columns line up");
}
PBT_MAIN
