// U02: numbers in fixed-width formats.
#include "gp.hpp"
#include "StringUtils.hpp"
#include "FormattedDouble.hpp"
#include "RNDouble.hpp"
using namespace gpstk; using pbt::G; using pbt::q; using std::string;
namespace SU = gpstk::StringUtils; using SU::FFLead; using SU::FFSign; using SU::FFAlign;

static double gen(G& g)
{
   double d = 0; switch (g.below(9))
   {
      case 0: d = g.rangeO(-1000, 1000, 0); break;
      case 1: d = g.logReal(-307, 308); break;
      case 2: d = g.logReal(-20, 20); break;
      case 3: { int k = g.range(1, 16); string t = string(k, '9') + "." + g.str("95", 0, 3); d = strtod((t + "e" + std::to_string(g.rangeO(-110, 110, 0))).c_str(), 0); if (g.flag()) d = -d; break; }   // carries
      case 4: { string t = g.str("123456789", 1, 1) + "." + g.str("0123456789", 0, 12) + "5"; d = strtod((t + "e" + std::to_string(g.rangeO(-101, 101, 0))).c_str(), 0); if (g.flag()) d = -d; break; }      // ties
      case 5: d = g.pick({0.0, -0.0, 1.0, -1.0, 0.1, 10.0, 1e99, 1e100, 1e-99, 1e-100, 9.999999999999999e99, 1.7e307, 1.79e308, 2.2250738585072014e-308, 5e-324, 4.9e-320}); break;
      case 6: d = g.logReal(-4, 4); break;
      case 7: { uint64_t b = g.bits64(); memcpy(&d, &b, 8); if (!std::isfinite(d)) d = 1; break; }
      default: d = std::nextafter(std::pow(10.0, g.range(-20, 20)), g.flag() ? 0 : 1e300);
   }
   return d;
}
struct Parts { string sign, lead, mant, ex; char esign, ech; bool ok; };
   // <sign><digits>.<digits><echar><esign><digits>
static Parts parse(const string& t)
{
   Parts p; p.ok = false; size_t i = 0; while (i < t.size() && (t[i] == '+' || t[i] == '-' || t[i] == ' ')) p.sign += t[i++];
   while (i < t.size() && isdigit(t[i])) p.lead += t[i++]; if (i < t.size() && t[i] == '.') { ++i; } while (i < t.size() && isdigit(t[i])) p.mant += t[i++];
   if (i >= t.size()) return p; p.ech = t[i++]; if (i >= t.size()) return p; p.esign = t[i++]; while (i < t.size() && isdigit(t[i])) p.ex += t[i++]; p.ok = i == t.size() && !p.ex.empty() && (p.esign == '+' || p.esign == '-'); return p;
}
static double valueOf(string t) { for (auto& c : t) if (strchr("EDdX", c)) c = 'e'; return strtod(t.c_str(), 0); }
   // is text (value v) the number d rounded to n significant digits?  d*10 may cost one ulp of d
static bool rounded(const string& t, double d, int n)
{
   if (d == 0) return valueOf(t) == 0; string u = t; for (auto& c : u) if (strchr("EDdX", c)) c = 'e'; long double v = strtold(u.c_str(), 0); int e = (int)std::floor(std::log10(std::fabs(d)) + 1e-9); long double unit = powl(10.0L, e - n + 1);
   if (std::fabs(d) < 2.3e-308) return fabsl(v - (long double)d) <= 0.5001L * unit + 1e-323L;
   return fabsl(v - (long double)d) <= 0.5L * unit * (1 + 1e-9L) + fabsl((long double)d) * 2.3e-16L;
}
PROP(formatted_double, 400000, 5000000, "the exponent has three digits or the rounding carries")
{
   double d = gen(g); FFLead lead = g.pick({FFLead::Decimal, FFLead::Zero, FFLead::NonZero}); unsigned mant = g.oneIn(3) ? 12 : g.range(lead == FFLead::Zero ? 2 : 1, 18), ex = g.range(1, 4), w = g.flag() ? 0 : g.range(1, 30); char ec = g.pick({'D', 'e', 'E', 'd'}); FFSign sg = g.pick({FFSign::NegOnly, FFSign::NegSpace, FFSign::NegPos}); FFAlign al = g.pick({FFAlign::Left, FFAlign::Right});
   if (d == 0 && sg == FFSign::NegSpace) d = 0;   // (minus zero gets both the space and the sign)
   g << pbt::d2s(d) << " lead " << (int)lead << " mantissa " << mant << " exponent " << ex << " width " << w << " char " << ec << " sign " << (int)sg << " align " << (int)al;
   FormattedDouble f(d, lead, mant, ex, w, ec, sg, al); string t = f, t2 = SU::floatFormat(d, lead, mant, ex, w, ec, sg, al); std::ostringstream o; o << f; REQ_EQ(t, t2, "floatFormat"); REQ_EQ(o.str(), t, "stream"); g << " -> " << q(t);
   bool big = !std::isfinite(d * 10); if (big) lead = FFLead::NonZero;   // its shifted form cannot be computed; the value still has to be right
   REQUIRE(t.size() >= w, "at least the width"); string c = t; bool padded = false;
   size_t n0 = sg == FFSign::NegSpace && !std::signbit(d) ? 1 : 0;
   if (al == FFAlign::Left) while (c.size() && c.back() == ' ') { c.pop_back(); padded = true; } else { size_t k = 0; while (k < c.size() && c[k] == ' ') ++k; REQUIRE(k >= n0, "leading space"); if (k > n0) padded = true; c = c.substr(k - n0); }
   REQUIRE(!padded || t.size() == w, "padding beyond the width");
   Parts p = parse(c); REQUIRE(p.ok, "form of " << q(c)); REQ_EQ(p.ech, ec, "exponent character");
   bool neg = std::signbit(d); if (d == 0 && neg && sg == FFSign::NegSpace) { REQUIRE(p.sign == " -" || p.sign == "-", ""); } else REQ_EQ(p.sign, string(neg ? "-" : sg == FFSign::NegOnly ? "" : sg == FFSign::NegSpace ? " " : "+"), "sign");
   int digits; if (lead == FFLead::Decimal) { REQ_EQ(p.lead, "", "leads with the decimal point"); REQ_EQ(p.mant.size(), (size_t)mant, "mantissa digits"); digits = mant; REQUIRE(d == 0 || p.mant[0] != '0', "normalised"); REQUIRE(c.find('.') != string::npos, ""); }
   else if (lead == FFLead::Zero) { REQ_EQ(p.lead, "0", "leads with zero"); REQ_EQ(p.mant.size(), (size_t)mant - 1, "mantissa digits"); digits = mant - 1; REQUIRE(d == 0 || p.mant[0] != '0', "normalised"); }
   else { REQ_EQ(p.lead.size(), (size_t)1, "leads with one digit"); REQUIRE(d == 0 || p.lead != "0", ""); if (!big) REQ_EQ(p.mant.size(), (size_t)mant - 1, "mantissa digits"); digits = p.mant.size() + 1; }
   int xe = atoi(p.ex.c_str()); size_t need = xe > 99 ? 3 : 2; REQ_EQ(p.ex.size(), std::max<size_t>(need, ex), "exponent digits");
   if (xe > 99) g.nontrivial(); if (d != 0 && p.mant.find_first_not_of('0') == string::npos) g.nontrivial(); else if (p.mant.size() > 2 && p.mant[0] == '1' && p.mant.find_first_not_of('0', 1) == string::npos) g.nontrivial();
   REQUIRE(rounded(c.substr(p.sign.size() ? p.sign.size() - (neg ? 1 : 0) : 0), d, digits), "value of " << q(c) << " is not " << pbt::d2s(d) << " rounded to " << digits << " digits");
      // reading it back
   double want = valueOf(c.substr(c.find_first_not_of(' ')));
   if (std::isfinite(want) && (want == 0 || std::fabs(want) > 2.3e-308))
   {
      FormattedDouble r(w, ec); r = t; REQ_EQ(r.val, want, "assigned from the text"); FormattedDouble r2(t, w, ec); REQ_EQ((double)r2, want, "constructed from the text");
      if (w == 0 || c.size() <= w) {   // (a stream is read no further than the width)
      FormattedDouble r3(w, ec); std::istringstream is(t + " 7"); is >> r3; int seven = 0; is >> seven; REQ_EQ(r3.val, want, "read from a stream"); REQ_EQ(seven, 7, "the stream goes on"); }
      REQ_EQ((string)r, (string)FormattedDouble(want, FFLead::NonZero, 0, 2, w, ec), "a value read keeps its own format");
      if (std::fabs(want) < 1e300) { FormattedDouble h = f / 2.0; REQ_EQ(h.val, d / 2, ""); REQUIRE(h.leadChar == f.leadChar && h.mantissaLen == f.mantissaLen && h.totalLen == f.totalLen && h.exponentChar == ec, "division keeps the format"); FormattedDouble m = f * 3.0; REQ_EQ(m.val, d * 3, ""); FormattedDouble a(f); a = 2.5; REQ_EQ((string)a, SU::floatFormat(2.5, f.leadChar, mant, ex, w, ec, sg, al), "assignment of a value keeps the format"); ++a; a--; REQ_EQ(a.val, 2.5, ""); }
   }
}
PROP(rinex_double, 300000, 3000000, "the value needs all 12 digits")
{
   double d = gen(g); if (d != 0 && (std::fabs(d) >= 9.9999e98 || std::fabs(d) < 1e-99)) d = g.logReal(-90, 90); RNDouble r(d); string t = r; g << pbt::d2s(d) << " -> " << q(t); REQ_EQ(t.size(), (size_t)19, "a RINEX field has 19 columns"); string c = t.substr(t.find_first_not_of(' '));
   Parts p = parse(c); REQUIRE(p.ok && p.lead == "" && p.mant.size() == 12 && p.ech == 'D' && p.ex.size() == 2 && p.sign == (std::signbit(d) ? "-" : ""), "form"); g.nontrivial(p.mant.back() != '0'); REQUIRE(rounded(c, d, 12), "value");
   RNDouble b(t); REQ_EQ(b.val, valueOf(c), "read back"); RNDouble b2; b2 = t; REQ_EQ(b2.val, valueOf(c), "assigned"); REQ_EQ((string)b2, t, "written again"); string lower = t; lower[lower.find('D')] = g.pick({'E', 'e'}); RNDouble b3; b3 = lower; REQ_EQ(b3.val, b.val, "E exponents are read too");
}
PROP(nonfinite, 20000, 50000, "always")
{
   double d = g.pick({INFINITY, -INFINITY, NAN}); FFLead lead = g.pick({FFLead::Decimal, FFLead::Zero, FFLead::NonZero}); g.nontrivial(); unsigned w = g.range(0, 25); string t = SU::floatFormat(d, lead, g.range(2, 14), g.range(1, 4), w, 'D', FFSign::NegOnly, FFAlign::Right); g << d << " -> " << q(t); string c = t.substr(t.find_first_not_of(' '));
   REQUIRE(c == "inf" || c == "-inf" || c == "nan" || c == "-nan", "a value that is not a number is marked, got " << q(t)); REQUIRE(t.size() >= w, "");
}
   // the older functions
PROP(scientific, 300000, 3000000, "the exponent has three digits or the width pads")
{
   double d = gen(g); unsigned len = g.range(8, 30), prec = g.range(1, 17), el = g.range(1, 3); bool plus = g.flag(); string t = SU::doubleToScientific(d, len, prec, el, plus); g << pbt::d2s(d) << " length " << len << " precision " << prec << " exponent " << el << " -> " << q(t);
   size_t k = t.find_first_not_of(' '); string c = t.substr(k); Parts p = parse(c); REQUIRE(p.ok, "form"); REQ_EQ(p.mant.size(), (size_t)prec, "digits"); REQ_EQ(p.lead.size(), (size_t)1, ""); REQ_EQ(p.ex.size(), std::max<size_t>(el, std::to_string(atoi(p.ex.c_str())).size()), "exponent digits"); REQ_EQ(p.sign, std::signbit(d) ? "-" : plus ? "+" : "", "sign");
   string x = pbt::strf("%.*e", (int)prec, d); REQ_EQ(valueOf(c), strtod(x.c_str(), 0), "value"); size_t least = prec + el + 4 + plus; REQUIRE(t.size() >= std::max<size_t>(len, least) , "width"); REQUIRE(k == 0 || t.size() == std::max<size_t>(len, least), "padding"); g.nontrivial(atoi(p.ex.c_str()) > 99 || k > 0);
}
PROP(fortran, 300000, 3000000, "the exponent changes sign or digits by the shift")
{
   double d = gen(g); if (std::fabs(d) < 2.3e-308) d = 0; unsigned el = g.range(1, 3), len = g.range(8 + el, 25); bool sw = g.flag(3, 4); g << pbt::d2s(d) << " length " << len << " exponent " << el << " switch " << sw;
   string s = SU::doub2sci(d, len, el, true, sw), want = pbt::strf("%.*e", (int)(len - el - 5), d); REQ_EQ(s, want, "doub2sci");
   string t = SU::doub2for(d, len, el, sw); g << " -> " << q(t); string c = t.substr(t.find_first_not_of(' ')); Parts p = parse(c); REQUIRE(p.ok, "form"); Parts ps = parse(s); int e0 = atoi(ps.ex.c_str()) * (ps.esign == '-' ? -1 : 1), e1 = d == 0 ? 0 : e0 + 1;
   REQ_EQ(p.mant, ps.lead + ps.mant, "digits"); REQ_EQ(p.lead, sw ? "" : "0", ""); REQ_EQ(p.ech, sw ? 'D' : 'E', ""); REQ_EQ(atoi(p.ex.c_str()) * (p.esign == '-' ? -1 : 1), e1, "exponent"); REQUIRE(p.ex.size() == std::max<size_t>(el, std::to_string(std::abs(e1)).size()), "exponent digits");
   REQUIRE(t[0] == (std::signbit(d) ? '-' : ' '), "first character"); if (sw && p.ex.size() == el) REQ_EQ(t.size(), (size_t)len, "length"); g.nontrivial((e0 < 0) != (e1 < 0) || std::to_string(std::abs(e0)).size() != std::to_string(std::abs(e1)).size());
   double v = valueOf(c); if (std::isfinite(v) && (v == 0 || std::fabs(v) > 2.3e-308)) { string pre = g.str("xy 1", 0, 4), post = g.pick<string>({"", " 12", "zz"}); REQ_EQ(SU::for2doub(pre + t + post, pre.size(), t.size()), v, "for2doub"); string lo = t; for (auto& ch : lo) if (ch == 'D' || ch == 'E') ch = g.pick({'d', 'D', 'E', 'e'}); REQ_EQ(SU::for2doub(lo), v, "for2doub with other letters"); }
   REQ_EQ(SU::for2doub(g.str(" ", 0, 19)), 0.0, "a blank field is zero"); string pl = pbt::strf("%.6f", g.num(-1e5, 1e5)); REQ_EQ(SU::for2doub(" " + pl + " "), strtod(pl.c_str(), 0), "plain number");
}
PBT_MAIN
