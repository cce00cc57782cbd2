// M04: special functions and probability distributions against Boost.Math, their identities and inverses
#include "pbt.hpp"
#include "SpecialFunctions.hpp"
#include "GaussianDistribution.hpp"
#include "Chi2Distribution.hpp"
#include "StudentDistribution.hpp"
#include "SpecialFuncs.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/factorials.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/students_t.hpp>
#include <boost/math/distributions/fisher_f.hpp>
#include <boost/math/distributions/normal.hpp>
using namespace std;
using gpstk::Exception;
using pbt::d2s;
namespace bm = boost::math;
typedef double (*F1v)(double); typedef double (*F1)(const double&); typedef double (*F2v)(double, double); typedef double (*F2)(const double&, const double&); typedef double (*FI)(const int&); typedef double (*FIv)(int);
static const F2v betaV = static_cast<double (*)(const double, const double)>(&gpstk::beta);
static const F2 betaG = static_cast<F2>(&gpstk::beta);
static const FIv factV = static_cast<FIv>(&gpstk::factorial);
static const F1v factD = static_cast<F1v>(&gpstk::factorial);
static const FI factG = static_cast<FI>(&gpstk::factorial);
static double lg(pbt::G& g, double lo, double hi) { return g.logReal(std::log10(lo), std::log10(hi), false); }
#define REL(a, b, r, msg) REQ_NEAR(a, b, (r) * std::fabs((double)(b)) + 1e-300, msg)
template <class F> static bool throws(F f) { try { f(); } catch (Exception&) { return true; } return false; }

PROP(gammas, 300000, 3000000, "argument above 10 or below 1, or not an integer multiple of a half")
{
   double x; switch (g.below(5)) { case 0: x = lg(g, 1e-8, 160); break; case 1: x = g.range(1, 160); break; case 2: x = g.range(1, 300) / 2.; break; case 3: x = 0.5 + g.rangeO(-3, 3, 0) * 1e-9; break; default: x = g.real(0.01, 20); }
   double a; switch (g.below(4)) { case 0: a = lg(g, 0.05, 100); break; case 1: a = g.range(1, 60) / 2.; break; case 2: a = g.range(1, 20); break; default: a = g.real(0.1, 5); }
   double z; switch (g.below(4)) { case 0: z = lg(g, 1e-6, 100); break; case 1: z = a + 1 + g.rangeO(-2, 2, 0) * 1e-10; break; case 2: z = g.real(0.01, 3 * a + 3); break; default: z = g.range(1, 50); }
   g << "x=" << d2s(x) << " a=" << d2s(a) << " z=" << d2s(z); if (x > 10 || x < 1 || std::fmod(x, 0.5) != 0) g.nontrivial();
   double G = bm::tgamma(x), lgx = bm::lgamma(x);
   REL(gpstk::gamma(x), G, 3e-13, "gamma"); REQ_NEAR(gpstk::lngamma(x), lgx, 1e-13 * (1 + std::fabs(lgx)), "lngamma"); REL(gpstk::gamma(x + 1), x * gpstk::gamma(x), 1e-12, "gamma(x+1)=x gamma(x)");
   REQ_NEAR(gpstk::lnGamma(x), lgx, 3e-10 + 1e-13 * std::fabs(lgx), "lnGamma"); REL(gpstk::Gamma(x), G, 4e-10, "Gamma");
   double nx = -(g.range(0, 9) + g.real(0.01, 0.99)); REL(gpstk::gamma(nx), bm::tgamma(nx), 2e-11, "gamma of " << d2s(nx)); if (x < 100) REQ_NEAR(gpstk::gamma(-std::floor(x)), 9.0e99, 0, "pole");
   double P = bm::gamma_p(a, z), Q = bm::gamma_q(a, z), ga = bm::tgamma(a);
   double t = 3e-13 + 3e-15 * a * std::fabs(std::log(z)); REQ_NEAR(gpstk::gammaP(a, z), P, t * (P + 1e-3) + 1e-15 * std::exp(0), "gammaP"); REQ_NEAR(gpstk::gammaQ(a, z), Q, t + 1e-15, "gammaQ"); REQ_NEAR(gpstk::lower_gamma(a, z), P * ga, t * 2 * (P + 1e-3) * ga, "lower_gamma"); REQ_NEAR(gpstk::upper_gamma(a, z), Q * ga, t * 2 * ga, "upper_gamma");
   REQ_NEAR(gpstk::incompGamma(a, z), P, 4e-10 * (P + 1e-9), "incompGamma"); REQ_NEAR(gpstk::compIncompGamma(a, z), Q, 4e-10, "compIncompGamma"); if (z < a + 1) REL(gpstk::seriesIncompGamma(a, z), P, 4e-10, "seriesIncompGamma"); else REL(gpstk::contfracIncompGamma(a, z), Q, 4e-10, "contfracIncompGamma");
   REQUIRE(throws([&] { gpstk::lnGamma(-x); }) && throws([&] { gpstk::incompGamma(-a, z); }) && throws([&] { gpstk::incompGamma(a, -z); }) && throws([&] { gpstk::compIncompGamma(-a, z); }), "argument outside the domain accepted");
}
PROP(factorials, 100000, 1000000, "n above 15 (outside the table)")
{
   int n = g.range(0, 165), k = g.range(0, n); g << "n=" << n << " k=" << k; if (n > 15) g.nontrivial(); double f = bm::factorial<double>(n);
   REL(factV(n), f, n <= 15 ? 0 : 5e-13, "factorial(int)"); REL(factD(n), f, 5e-14, "factorial(double)"); REL(factG(n), f, n <= 32 ? 1e-15 : 4e-10, "Geomatics factorial"); REQ_NEAR(gpstk::lnFactorial(n), bm::lgamma(n + 1.), 1e-9, "lnFactorial");
   double b = bm::binomial_coefficient<double>(n, k); double got = gpstk::binomialCoeff(n, k); if (n <= 32) { REQ_NEAR(got, b, 1e-14 * b, "binomial"); } else REQ_NEAR(got, b, 1.5e-9 * b + (b > 1e8 ? 1 : 0.5), "binomial"); REL(gpstk::binomialCoeff(n, n - k), got, n <= 32 ? 1e-14 : 3e-9, "symmetry");
   REQUIRE(throws([&] { gpstk::binomialCoeff(n, n + 1 + k); }) && throws([&] { factG(-1 - n); }), "invalid arguments accepted"); REQ_EQ(factV(-1 - n), 0., "factorial of a negative number"); REQ_EQ(factD(-1. - n), 0., "factorial of a negative number");
}
PROP(errorfunc, 300000, 3000000, "beyond the first rational approximation, or tiny")
{
   double x; switch (g.below(5)) { case 0: x = lg(g, 1e-25, 10); break; case 1: x = g.pick({0.84375, 1.25, 2.857142, 6.0}) + g.rangeO(-2, 2, 0) * 1e-12; break; case 2: x = g.real(0, 6.5); break; case 3: x = std::ldexp(1, -g.range(20, 60)) * g.pick({1., 0.999, 1.5}); break; default: x = g.real(0, 1.3); } double s = g.flag() ? -1 : 1; double y = x; x *= s;
   g << "x=" << d2s(x); if (y > 0.84 || y < 1e-8) g.nontrivial(); double e = bm::erf(x); REL(gpstk::erf(x), e, 2e-15, "erf"); REQ_NEAR(gpstk::erfc(x), 1 - e, 5e-15, "erfc"); REQ_EQ(gpstk::erf(-x), -gpstk::erf(x), "odd");
   REL(gpstk::errorFunc(y), bm::erf(y), 4e-10, "errorFunc"); REL(gpstk::compErrorFunc(y), bm::erfc(y), y < 1.2247 ? 1e-8 : 4e-10, "compErrorFunc"); if (y > 0) REQUIRE(throws([&] { gpstk::errorFunc(-y); }) && throws([&] { gpstk::compErrorFunc(-y); }), "negative argument accepted");
   double p = g.flag() ? g.real(-1, 1) : g.pick({-1, 1}) * (1 - lg(g, 1e-12, 1)); g << " p=" << d2s(p); if (std::fabs(p) < 1) { double v = gpstk::inverf(p); REQ_NEAR(gpstk::erf(v), p, 4e-15, "erf(inverf(p))"); REQ_NEAR(v, bm::erf_inv(p), 1e-9 + 4e-16 / (1 - std::fabs(p)), "inverf"); } REQ_EQ(gpstk::inverf(1 + y), 9.0e99, "upper limit"); REQ_EQ(gpstk::inverf(-1 - y), -9.0e99, "lower limit");
}
PROP(betas, 200000, 2000000, "a and b different, x inside (0,1)")
{
   double a = g.flag() ? lg(g, 0.2, 80) : g.range(1, 120) / 2., b = g.flag() ? lg(g, 0.2, 80) : g.range(1, 120) / 2.; double x; switch (g.below(5)) { case 0: x = g.real(0, 1); break; case 1: x = (a + 1) / (a + b + 2) + g.rangeO(-2, 2, 0) * 1e-11; break; case 2: x = a / (a + b) + g.rangeO(-2, 2, 0) * 1e-11; break; case 3: x = g.pick({0.95, 0.05, 0., 1.}); break; default: x = g.flag() ? lg(g, 1e-8, 1) : 1 - lg(g, 1e-8, 1); } x = std::min(1., std::max(0., x));
   g << "a=" << d2s(a) << " b=" << d2s(b) << " x=" << d2s(x); if (a != b && x > 0 && x < 1) g.nontrivial(); double B = bm::beta(a, b), I = bm::ibeta(a, b, x), lb = std::log(B);
   REL(betaV(a, b), B, 1e-12, "beta"); REL(betaG(a, b), B, 1e-9, "Geomatics beta"); REQ_NEAR(gpstk::lnbeta(a, b), lb, 1e-12, "lnbeta"); REQ_EQ(betaG(a, b), betaG(b, a), "symmetry");
   double t = 3e-12 * (1 + std::fabs(std::log(std::max(x, 1e-300)))); REQ_NEAR(gpstk::regIncompleteBeta(x, a, b), I, t, "regIncompleteBeta"); REQ_NEAR(gpstk::incompleteBeta(x, a, b), I, 2e-9, "incompleteBeta"); REQ_NEAR(gpstk::regIncompleteBeta(1 - x, b, a) + gpstk::regIncompleteBeta(x, a, b), 1, 2 * t + 1e-6 * 0 + (x < 1e-3 || x > 1 - 1e-3 ? 1e-10 : 1e-11), "complement");
   REQUIRE(throws([&] { gpstk::regIncompleteBeta(x, -a, b); }) && throws([&] { gpstk::regIncompleteBeta(x, a, 0); }) && throws([&] { gpstk::regIncompleteBeta(-0.01 - x, a, b); }) && throws([&] { gpstk::regIncompleteBeta(1.01 + x, a, b); }) && throws([&] { gpstk::incompleteBeta(1.01 + x, a, b); }) && throws([&] { gpstk::incompleteBeta(x, a, -b); }), "argument outside the domain accepted");
}
PROP(distributions, 150000, 1500000, "degrees of freedom above 2")
{
   int n = g.flag() ? g.range(1, 12) : g.range(1, 150), m = g.flag() ? g.range(1, 12) : g.range(1, 150); if (n > 2) g.nontrivial(); double x = g.flag() ? g.real(0.01, 2.5) * n : lg(g, 1e-4, 200), t = (g.flag() ? -1 : 1) * lg(g, 1e-3, 30), f = lg(g, 1e-3, 50), mu = g.pick({0., 3.5, -100.}), sg = g.pick({1., 0.02, 40.}), u = mu + sg * g.real(-6, 6);
   g << "n=" << n << " m=" << m << " x=" << d2s(x) << " t=" << d2s(t) << " F=" << d2s(f) << " u=" << d2s(u) << " mu=" << mu << " sigma=" << sg;
   bm::chi_squared_distribution<double> C(n); bm::students_t_distribution<double> T(n); bm::fisher_f_distribution<double> F(n, m); bm::normal_distribution<double> N(mu, sg);
   gpstk::Chi2Distribution c(n); gpstk::StudentDistribution s(n); gpstk::GaussianDistribution ga(mu, sg); if (g.flag()) { c.setNDF(m); c.setNDF(-n); s.setNDF(m); s.setNDF(-n); ga.setParameters(1, 1); ga.setMean(mu); ga.setSigma(sg); }
   double tl = 2e-12; REL(c.pdf(x), bm::pdf(C, x), 1e-12 * (n + x + 3), "chi-square pdf"); REQ_NEAR(c.cdf(x), bm::cdf(C, x), tl, "chi-square cdf"); REQ_NEAR(c.Q(x), bm::cdf(bm::complement(C, x)), tl, "chi-square Q"); REQ_EQ(c.pdf(-x), 0., "chi-square pdf below 0"); REQ_EQ(c.cdf(-x), 0., "chi-square cdf below 0"); REQ_EQ(c.getNDF(), n, "degrees of freedom");
   REL(s.pdf(t), bm::pdf(T, t), 2e-11, "Student pdf"); REQ_NEAR(s.cdf(t), bm::cdf(T, t), 1e-11, "Student cdf"); REQ_NEAR(s.Q(t), bm::cdf(bm::complement(T, t)), 1e-11, "Student Q"); REQ_EQ(s.getNDF(), n, "degrees of freedom");
   REL(ga.pdf(u), bm::pdf(N, u), 1e-13, "normal pdf"); REQ_NEAR(ga.cdf(u), bm::cdf(N, u), 1e-14, "normal cdf"); REQ_NEAR(ga.Q(u), bm::cdf(bm::complement(N, u)), 1e-14, "normal Q"); REQ_EQ(ga.getMean(), mu, "mean"); REQ_EQ(ga.getSigma(), sg, "sigma");
   { gpstk::Chi2Distribution c2; REQ_EQ(c2.pdf(x, n), c.pdf(x), "pdf with degrees of freedom"); REQ_EQ(c2.cdf(x, n), c.cdf(x), "cdf with degrees of freedom"); REQ_EQ(c2.Q(x, n), c.Q(x), "Q with degrees of freedom"); gpstk::StudentDistribution s2; REQ_EQ(s2.pdf(t, n), s.pdf(t), "pdf"); REQ_EQ(s2.cdf(t, n), s.cdf(t), "cdf"); REQ_EQ(s2.Q(t, n), s.Q(t), "Q"); }
   REL(gpstk::ChisqPDF(x, n), bm::pdf(C, x), 1e-9, "ChisqPDF"); REQ_NEAR(gpstk::ChisqCDF(x, n), bm::cdf(C, x), 1e-9, "ChisqCDF"); REL(gpstk::StudentsPDF(t, n), bm::pdf(T, t), 1e-9, "StudentsPDF"); REQ_NEAR(gpstk::StudentsCDF(t, n), bm::cdf(T, t), 1e-9, "StudentsCDF"); REL(gpstk::FDistPDF(f, n, m), bm::pdf(F, f), 2e-9, "FDistPDF"); REQ_NEAR(gpstk::FDistCDF(f, n, m), bm::cdf(F, f), 2e-9, "FDistCDF"); REL(gpstk::NormalPDF(u, mu, sg), bm::pdf(N, u) * sg * 2.5066282746310005, 1e-12, "NormalPDF (without its factor)"); REQ_NEAR(gpstk::NormalCDF(u, mu, sg), bm::cdf(N, u), 4e-10, "NormalCDF");
   bool th = true; try { c.setNDF(0); th = false; } catch (Exception&) {} try { s.setNDF(0); th = false; } catch (Exception&) {} REQUIRE(th, "zero degrees of freedom accepted");
   REQUIRE(throws([&] { gpstk::ChisqCDF(-x, n); }) && throws([&] { gpstk::ChisqCDF(x, -n); }) && throws([&] { gpstk::StudentsCDF(t, 0); }) && throws([&] { gpstk::FDistCDF(-f, n, m); }) && throws([&] { gpstk::FDistCDF(f, 0, m); }) && throws([&] { gpstk::NormalCDF(u, mu, -sg); }), "argument outside the domain accepted");
}
PROP(inverses, 40000, 400000, "probability off one half")
{
   double p = g.flag() ? g.real(0.001, 0.999) : g.flag() ? lg(g, 1e-8, 1) : 1 - lg(g, 1e-8, 1); if (p >= 1 - 1e-9) p = 0.5; int n = g.range(1, 60), m = g.range(1, 60); double mu = g.pick({0., 3.5, -100.}), sg = g.pick({1., 0.02, 40.}); g << "p=" << d2s(p) << " n=" << n << " m=" << m << " mu=" << mu << " sigma=" << sg; if (std::fabs(p - 0.5) > 1e-3) g.nontrivial();
   double e = 1e-9; double v = gpstk::invNormalCDF(p, mu, sg); REQ_NEAR(bm::cdf(bm::normal_distribution<double>(mu, sg), v), p, e, "invNormalCDF " << d2s(v)); v = gpstk::invChisqCDF(p, n); REQ_NEAR(bm::cdf(bm::chi_squared_distribution<double>(n), v), p, e, "invChisqCDF " << d2s(v)); 
   if (n > 1 || (p > 1e-5 && p < 1 - 1e-5)) { v = gpstk::invStudentsCDF(p, n); REQ_NEAR(bm::cdf(bm::students_t_distribution<double>(n), v), p, 2e-8, "invStudentsCDF " << d2s(v)); }
   if ((n > 2 && m > 2) || (p > 1e-4 && p < 1 - 1e-4)) { v = gpstk::invFDistCDF(p, n, m); REQ_NEAR(bm::cdf(bm::fisher_f_distribution<double>(n, m), v), p, 2e-9, "invFDistCDF " << d2s(v)); }
   gpstk::GaussianDistribution ga(mu, sg); v = ga.invcdf(p); REQ_NEAR(ga.cdf(v), p, 1e-12 + 1e-14, "GaussianDistribution::invcdf " << d2s(v)); REQ_EQ(ga.invcdf(0), -9.0e99, "invcdf(0)"); REQ_EQ(ga.invcdf(1), 9.0e99, "invcdf(1)");
   REQUIRE(throws([&] { ga.invcdf(-p); }) && throws([&] { ga.invcdf(1 + p); }) && throws([&] { gpstk::invNormalCDF(-p, mu, sg); }) && throws([&] { gpstk::invNormalCDF(1 + p, mu, sg); }) && throws([&] { gpstk::invChisqCDF(1, n); }) && throws([&] { gpstk::invStudentsCDF(-p, n); }) && throws([&] { gpstk::invFDistCDF(1 + p, n, m); }) && throws([&] { gpstk::invFDistCDF(p, 0, m); }), "invalid arguments accepted");
}
PBT_MAIN
