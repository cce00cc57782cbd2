// U04: the run-time expression evaluator against a tree walk.
#include "gp.hpp"
#include <memory>
#include "Expression.hpp"
using namespace gpstk; using pbt::G; using pbt::q; using std::string;

struct N { int k; double v; string name; char op; std::unique_ptr<N> a, b; };   // 0 number, 1 variable, 2 binary, 3 function
typedef std::unique_ptr<N> P;
static const std::vector<string> FN = {"cos", "sin", "tan", "acos", "asin", "atan", "exp", "abs", "sqrt", "log", "log10"};
static const std::vector<string> VARS = {"x", "y", "P1", "L2", "foo", "C1W", "zz9"};
static P gen(G& g, int depth)
{
   P n(new N); int c = depth <= 0 ? g.below(2) : g.weighted({2, 2, 5, 2}); n->k = c;
   if (c == 0) { switch (g.below(4)) { case 0: n->name = std::to_string(g.range(0, 30)); break; case 1: n->name = pbt::strf("%.3f", g.real(0, 100)); break; case 2: n->name = pbt::strf("%d.%de%+d", (int)g.range(0, 9), (int)g.range(0, 99), (int)g.rangeO(-6, 6, 0)); break; default: n->name = pbt::strf("%.17g", g.real(0.1, 10)); } n->v = strtod(n->name.c_str(), 0); }
   else if (c == 1) n->name = g.pick(VARS);
   else if (c == 2) { n->op = g.pick({'+', '-', '*', '/', '^'}); n->a = gen(g, depth - 1); n->b = gen(g, depth - 1); }
   else { n->name = g.pick(FN); n->a = gen(g, depth - 1); }
   return n;
}
static double eval(const N& n, const std::map<string, double>& m)
{
   if (n.k == 0) return n.v; if (n.k == 1) return m.at(n.name);
   if (n.k == 2) { double a = eval(*n.a, m), b = eval(*n.b, m); switch (n.op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; default: return std::pow(a, b); } }
   double a = eval(*n.a, m); const string& f = n.name; return f == "cos" ? std::cos(a) : f == "sin" ? std::sin(a) : f == "tan" ? std::tan(a) : f == "acos" ? std::acos(a) : f == "asin" ? std::asin(a) : f == "atan" ? std::atan(a) : f == "exp" ? std::exp(a) : f == "abs" ? std::fabs(a) : f == "sqrt" ? std::sqrt(a) : f == "log" ? std::log(a) : std::log10(a);
}
static int prec(char op) { return op == '+' || op == '-' ? 1 : op == '^' ? 3 : 2; }
static void vars(const N& n, std::set<string>& s) { if (n.k == 1) s.insert(n.name); if (n.a) vars(*n.a, s); if (n.b) vars(*n.b, s); }
   // minimal parentheses by precedence and left associativity, with optional extra ones and blanks
static string print(G& g, const N& n)
{
   auto sp = [&]() { return g.oneIn(5) ? g.str(" \t", 1, 2) : string(); }; string r;
   auto child = [&](const N& c, bool right, int p) { string t = print(g, c); bool par = c.k == 2 && (prec(c.op) < p || (prec(c.op) == p && (right || p == 3))); if (par || g.oneIn(6)) t = "(" + sp() + t + sp() + ")"; return t; };
   if (n.k < 2) r = n.name; else if (n.k == 2) r = child(*n.a, false, prec(n.op)) + sp() + n.op + sp() + child(*n.b, true, prec(n.op)); else r = n.name + sp() + "(" + sp() + print(g, *n.a) + sp() + ")";
   return sp() + r + sp();
}
static bool same(double a, double b) { if (a != a || b != b) return (a != a) == (b != b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }
PROP(value, 150000, 1500000, "at least two operators of different precedence or a function inside")
{
   P t = gen(g, g.range(0, 4)); string s = print(g, *t); if (g.oneIn(8)) { P w(new N); w->k = 2; w->op = '+'; w->a.reset(new N); w->a->k = 0; double c = g.range(1, 9); w->a->v = -c; w->b = std::move(t); bool par = w->b->k == 2 && prec(w->b->op) == 1; s = pbt::strf("-%g+", c) + (par ? "(" + s + ")" : s); t = std::move(w); }
   g << q(s); g.nontrivial(s.find_first_of("*/^(") != string::npos && s.find_first_of("+-") != string::npos);
   std::set<string> vs; vars(*t, vs); Expression e(s);
   if (!vs.empty()) { REQUIRE(!e.canEvaluate(), "variables are not set yet"); bool threw = false; try { e.evaluate(); } catch (ExpressionException&) { threw = true; } REQUIRE(threw, "evaluating with unset variables is refused"); } else REQUIRE(e.canEvaluate(), "nothing to set");
   REQUIRE(!e.set("nosuch", 1.0), "set() of an absent variable");
   for (int round = 0; round < 2; ++round)
   {
      std::map<string, double> m; for (auto& v : vs) { m[v] = g.flag() ? g.real(0.1, 5) : g.rangeO(-5, 5, 0); string nm = v; if (g.flag()) for (auto& c : nm) c = g.flag() ? toupper(c) : tolower(c); bool found = g.flag() ? e.set(nm, m[v]) : e.set(nm.c_str(), m[v]); REQUIRE(found, "set(" << nm << ")"); g << " " << v << "=" << pbt::d2s(m[v]); }
      double want = eval(*t, m); REQUIRE(e.canEvaluate(), "all set"); double got = e.evaluate(); REQUIRE(same(got, want), "value " << pbt::d2s(got) << " expected " << pbt::d2s(want)); REQUIRE(same(e.evaluate(), want), "evaluated again");
      Expression c(e), d; d = e; for (auto& v : vs) { c.set(v, m[v]); d.set(v, m[v]); } REQUIRE(same(c.evaluate(), want), "copy"); REQUIRE(same(d.evaluate(), want), "assigned copy");
   }
}
PROP(malformed, 60000, 300000, "always")
{
   g.nontrivial(); P t = gen(g, g.range(0, 2)), u = gen(g, 1); string s = print(g, *t), r = print(g, *u), op = g.pick<string>({"+", "-", "*", "/", "^"}), bad;
   switch (g.below(8)) { case 0: bad = "(" + s + ")" + op; break; case 1: bad = "(" + s + ")" + op + g.pick<string>({"*", "/", "^"}) + r; break; case 2: bad = ""; break; case 3: bad = "(" + s + ")+" + g.pick(FN) + g.pick<string>({"", "()", "( )"}); break; case 4: bad = g.pick<string>({"*", "/", "^"}) + op + "(" + s + ")"; break; case 5: bad = g.pick<string>({"-", "+"}) + g.pick(VARS) + op + r; break; case 6: bad = g.pick<string>({"3x", "1.2.3", "$", "2#"}) + op + r; break; default: bad = "7 sin(" + s + ")"; }
   g << q(bad); bool threw = false; try { Expression e(bad); for (auto& v : VARS) e.set(v, 2.0); e.evaluate(); } catch (ExpressionException&) { threw = true; } REQUIRE(threw, "accepted");
}
PROP(gps_constants, 2000, 5000, "always")
{
   g.nontrivial(); static const std::map<string, double> K = {{"pi", 3.141592653589793}, {"c", 299792458.0}, {"f1", 154}, {"f2", 120}, {"l0", 10.23e6}, {"l1", 1575.42e6}, {"l2", 1227.6e6}, {"wl1", 299792458.0 / 1575.42e6}, {"wl2", 299792458.0 / 1227.6e6}, {"gamma", (77.0 / 60) * (77.0 / 60)}};
   auto it = K.begin(); std::advance(it, g.below(K.size())); string nm = it->first; for (auto& c : nm) c = g.flag() ? toupper(c) : c; double k = g.rangeO(-9, 9, 1); string s = "1*" + nm + pbt::strf("+%g", 10 + k); g << s; Expression e(s); REQUIRE(e.setGPSConstants(), "found"); REQUIRE(same(e.evaluate(), it->second + 10 + k), s << " = " << pbt::d2s(e.evaluate())); Expression f("1+q"); REQUIRE(!f.setGPSConstants(), "no constants there");
}
PBT_MAIN
