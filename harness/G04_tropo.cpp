// G04: the troposphere models against their published formulas, written down here, and the state of a model against the values set
#include "gp.hpp"
#include "gmftables.hpp"
#include "SimpleTropModel.hpp"
#include "GGTropModel.hpp"
#include "GGHeightTropModel.hpp"
#include "NBTropModel.hpp"
#include "SaasTropModel.hpp"
#include "GCATTropModel.hpp"
#include "MOPSTropModel.hpp"
#include "NeillTropModel.hpp"
#include "GlobalTropModel.hpp"
#include "WxObsMap.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include <memory>
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map; using pbt::d2s;
typedef std::function<double(double)> F;
static const double PIr = std::acos(-1.0), D2R = PIr / 180, RE = 6378137.0;
struct Ref { bool valid = false; double dz = 0, wz = 0; F dm, wm; double cut = 0; double corr(double e) const { return e < cut ? 0 : dz * dm(e) + wz * wm(e); } };
static double frac(double s, double a, double b, double c) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
   // linear between 15, 30, 45, 60 and 75 degrees, constant outside
static double tab(const double (&t)[5], double lat) { double x = std::fabs(lat); if (x <= 15) return t[0]; if (x >= 75) return t[4]; int i = (int)std::floor(x / 15) - 1; double w = x / 15 - 1 - i; return t[i] * (1 - w) + t[i + 1] * w; }
static double season(const double (&m)[5], const double (&a)[5], double lat, double phase) { return tab(m, lat) - tab(a, lat) * std::cos(phase); }
   // Niell 1996
static const double dA[5] = {1.2769934e-3, 1.2683230e-3, 1.2465397e-3, 1.2196049e-3, 1.2045996e-3}, dB[5] = {2.9153695e-3, 2.9152299e-3, 2.9288445e-3, 2.9022565e-3, 2.9024912e-3}, dC[5] = {62.610505e-3, 62.837393e-3, 63.721774e-3, 63.824265e-3, 64.258455e-3};
static const double pA[5] = {0, 1.2709626e-5, 2.6523662e-5, 3.4000452e-5, 4.1202191e-5}, pB[5] = {0, 2.1414979e-5, 3.0160779e-5, 7.2562722e-5, 11.723375e-5}, pC[5] = {0, 9.0128400e-5, 4.3497037e-5, 84.795348e-5, 170.37206e-5};
static const double wA[5] = {5.8021897e-4, 5.6794847e-4, 5.8118019e-4, 5.9727542e-4, 6.1641693e-4}, wB[5] = {1.4275268e-3, 1.5138625e-3, 1.4572752e-3, 1.5007428e-3, 1.7599082e-3}, wC[5] = {4.3472961e-2, 4.6729510e-2, 4.3908931e-2, 4.4626982e-2, 5.4736038e-2};
static double heightTerm(double s, double h) { return (1 / s - frac(s, 2.53e-5, 5.49e-3, 1.14e-3)) * h / 1000; }
static double niellDry(double e, double lat, double h, double doy, bool south) { double ph = 2 * PIr * (doy - 28) / 365.25 + (south && lat < 0 ? PIr : 0), s = std::sin(e * D2R); return frac(s, season(dA, pA, lat, ph), season(dB, pB, lat, ph), season(dC, pC, lat, ph)) + heightTerm(s, h); }
static double niellWet(double e, double lat) { double s = std::sin(e * D2R); return frac(s, tab(wA, lat), tab(wB, lat), tab(wC, lat)); }
   // meteorological parameters of UNB3 and MOPS: pressure, temperature, vapour pressure, lapse rate, vapour lapse rate
static const double mean[5][5] = {{1013.25, 1017.25, 1015.75, 1011.75, 1013.00}, {299.65, 294.15, 283.15, 272.15, 263.65}, {26.31, 21.79, 11.66, 6.78, 4.11}, {6.30e-3, 6.05e-3, 5.58e-3, 5.39e-3, 4.53e-3}, {2.77, 3.15, 2.57, 1.81, 1.55}};
static const double ampl[5][5] = {{0, -3.75, -2.25, -1.75, -0.50}, {0, 7.0, 11.0, 15.0, 14.5}, {0, 8.85, 7.24, 5.36, 3.39}, {0, 0.25e-3, 0.32e-3, 0.81e-3, 0.62e-3}, {0, 0.33, 0.46, 0.74, 0.30}};
static double met(int k, double lat, double phase) { return season(mean[k], ampl[k], lat, phase); }
static double vapour(double K, double H) { double th = 300 / K; return 2.409e9 * H * th * th * th * th * std::exp(-22.64 * th); }
static double vapourLeick(double K, double H) { return 0.01 * H * std::exp(-37.2465 + 0.213166 * K - 0.000256908 * K * K); }
static double gravity(double lat, double h) { return 1 - 0.00266 * std::cos(2 * lat * D2R) - 0.00028 * h / 1000; }
   // integral of the fourth power of the quartic profile along the ray, by Gauss-Legendre quadrature with 5 points (exact for degree 9)
static double ray(double e, double h, double top)
{
   double s = std::sin(e * D2R), c2 = 1 - s * s, H = top - h, a = -s / H, b = -c2 / (2 * RE * H), q = (RE + top) / (RE + h), R = (RE + h) * (std::sqrt(q * q - c2) - s);
   static const double x[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640}, w[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891};
   double sum = 0; for (int k = 0; k < 5; k++) { double r = R * (1 + x[k]) / 2, f = 1 + a * r + b * r * r; sum += w[k] * f * f * f * f; } return sum * R / 2;
}
struct Wx { double T, P, H; };
static Ref refSimple(const Wx& w) { Ref r; r.valid = true; double K = w.T + 273.15, cd = 1 + 0.15 * 148.98 * (K - 3.96) / RE, cw = 1 + 0.15 * 12000 / RE; r.dz = 2.343 * (w.P / 1013.25) * (K - 3.96) / K; r.wz = 8.952 / (K * K) * w.H * std::exp(-37.2465 + 0.213166 * K - 0.256908e-3 * K * K); r.dm = [=](double e) { double c = std::cos(e * D2R) / cd; return 1 / std::sqrt(1 - c * c); }; r.wm = [=](double e) { double c = std::cos(e * D2R) / cw; return 1 / std::sqrt(1 - c * c); }; return r; }
   // Goad and Goodman; the library normalises the zenith delays by fixed heights
static Ref refGG(const Wx& w, double c005) { Ref r; r.valid = true; double K = w.T + 273.15, e0 = vapour(K, w.H), nd = 77.624e-6 * w.P / K, nw = 1e-6 * (371900 / K - 12.92) * e0 / K, hd = 5 * 0.002277 * w.P / nd, hw = 5 * 0.002277 * (1255 / K + c005) * e0 / nw; const double sd = 8594.777388436570600, sw = 2540.042008403690900; r.dz = nd * sd; r.wz = nw * sw; r.dm = [=](double e) { return ray(e, 0, hd) / sd; }; r.wm = [=](double e) { return ray(e, 0, hw) / sw; }; return r; }
static Ref refGGH(const Wx& w, double h, double hT, double hP, double hH)
{
   Ref r; r.valid = true; const double L = 6.5e-3; double K = w.T + 273.15, T0 = K + L * hT, em = 978.77 / (2.8704e4 * L), P0 = w.P * std::pow(T0 / (T0 - L * hP), em), topd = 11.385 / 77.624e-3 * T0, zd = (topd - h) / topd, Th = w.T - L * (hH - hT), e = 6.11 * (w.H / 100) * std::pow(10, 7.5 * Th / (237.3 + Th)), E0 = e * std::pow(T0 / (T0 - L * hH), 4 * em), nw = (371900 / T0 - 12.92) / T0, topw = 11385 * (1255 / T0 + 0.05) / nw, zw = (topw - h) / topw;
   r.dz = 1e-6 * 77.624 * P0 / T0 * zd * zd * zd * zd * (topd - h) / 5; r.wz = 1e-6 * nw * E0 * zw * zw * zw * zw * (topw - h) / 5; r.dm = [=](double e) { return ray(e, h, topd) / ((topd - h) / 5); }; r.wm = [=](double e) { return ray(e, h, topw) / ((topw - h) / 5); }; return r;
}
static Ref refSaas(const Wx& w, double lat, double h, int doy, bool recorded) { Ref r; r.valid = doy >= 1 && doy <= 366; double K = w.T + 273.15, pp = 6.11 * w.H / 100 * std::pow(10, 7.5 * w.T / (w.T + 237.3)); r.dz = 0.0022768 * w.P / gravity(lat, h); r.wz = 0.002277 * (1255 / K + 0.05) * vapourLeick(K, recorded ? pp : w.H) / gravity(lat, h); r.dm = [=](double e) { return niellDry(e, lat, h, doy, true); }; r.wm = [=](double e) { return niellWet(e, lat); }; return r; }
static Ref refGCAT(double h) { Ref r; r.valid = true; r.cut = 5; r.dz = 2.29951 * std::exp(-0.000116 * h); r.wz = 0.1; r.dm = r.wm = [](double e) { double s = std::sin(e * D2R); return e < 5 ? 0. : 1.001 / std::sqrt(0.002001 + s * s); }; return r; }
static Ref refNeill(double h, double lat, int doy) { Ref r; r.valid = doy >= 1 && doy <= 366; r.cut = 3; r.dz = 2.29951 * std::exp(-0.000116 * h); r.wz = 0.1; r.dm = [=](double e) { return e < 3 ? 0. : niellDry(e, lat, h, doy, true); }; r.wm = [=](double e) { return e < 3 ? 0. : niellWet(e, lat); }; return r; }
static Ref refMOPS(double h, double lat, int doy)
{
   Ref r = refGCAT(h); r.valid = doy >= 1 && doy <= 366; double ph = 2 * PIr * (doy - (lat < 0 ? 211 : 28)) / 365.25, P = met(0, lat, ph), T = met(1, lat, ph), e = met(2, lat, ph), be = met(3, lat, ph), la = met(4, lat, ph); const double R = 287.054, gm = 9.784, g0 = 9.80665, u = 1 - be * h / T; r.dz = 1e-6 * 77.604 * R * P / gm * std::pow(u, g0 / (R * be)); r.wz = 1e-6 * 382000 * R / (gm * (la + 1) - be * R) * e / T * std::pow(u, (la + 1) * g0 / (R * be) - 1); return r;
}
   // the New Brunswick model; K, P, e are temperature, pressure and vapour pressure in force, at sea level when interpolated
static Ref refNB(double K, double P, double e, bool interp, double lat, double h, int doy)
{
   Ref r; r.valid = doy >= 1 && doy <= 366; double ph = 2 * PIr * (doy - 28) / 365.25, be = met(3, lat, ph), la = met(4, lat, ph), gm = 9.784 * (1 - 2.66e-3 * std::cos(2 * lat * D2R) - 2.8e-7 * h), u = 1 - be * h / K; const double R = 287.054, g0 = 9.80665; r.dz = 1e-6 * 77.604 * R / gm * P * (interp ? std::pow(u, g0 / (R * be)) : 1); r.wz = 1e-6 * 382000 * R / (gm * (la + 1) - be * R) * e / K * (interp ? std::pow(u, (la + 1) * g0 / (R * be) - 1) : 1); r.dm = [=](double el) { return niellDry(el, lat, h, doy, false); }; r.wm = [=](double el) { return niellWet(el, lat); }; return r;
}
struct Gpt { double P, T, U; bool high; };
struct Harm
{
   double a[55], b[55];
   Harm(double lat, double lon) { double s = std::sin(lat * D2R), c = std::sqrt(std::max(0.0, 1 - s * s)), p[10][10] = {{0}}; for (int m = 0; m < 10; m++) { p[m][m] = m ? p[m - 1][m - 1] * (2 * m - 1) * c : 1; if (m < 9) p[m + 1][m] = (2 * m + 1) * s * p[m][m]; for (int n = m + 2; n < 10; n++) p[n][m] = ((2 * n - 1) * s * p[n - 1][m] - (n + m - 1) * p[n - 2][m]) / (n - m); } int i = 0; for (int n = 0; n < 10; n++) for (int m = 0; m <= n; m++, i++) { a[i] = p[n][m] * std::cos(m * lon * D2R); b[i] = p[n][m] * std::sin(m * lon * D2R); } }
   double sum(const double (&A)[55], const double (&B)[55]) const { double r = 0; for (int i = 0; i < 55; i++) r += A[i] * a[i] + B[i] * b[i]; return r; }
};
static Gpt gpt(double h, double lat, double lon, double ph) { using namespace gmf; Harm y(lat, lon); Gpt r; r.U = y.sum(Ageoid, Bgeoid); double H = h - r.U, c = std::cos(ph); r.high = H > 44247; r.P = (y.sum(APressMean, BPressMean) + c * y.sum(APressAmp, BPressAmp)) * std::pow(1 - 2.26e-5 * H, 5.225); r.T = y.sum(ATempMean, BTempMean) + c * y.sum(ATempAmp, BTempAmp) - 6.5e-3 * H; return r; }
static Ref refGlobal(double h, double lat, double lon, double ph, double hum)
{
   using namespace gmf; Gpt m = gpt(h, lat, lon, ph); Ref r; r.valid = !m.high; r.cut = 3; r.dz = 0.0022768 * m.P / gravity(lat, h); r.wz = 0.0122 + 0.00943 * vapourLeick(m.T + 273.15, hum); Harm y(lat, lon); double c = std::cos(ph), ad = 1e-5 * (y.sum(ADryMean, BDryMean) + c * y.sum(ADryAmp, BDryAmp)), aw = 1e-5 * (y.sum(AWetMean, BWetMean) + c * y.sum(AWetAmp, BWetAmp)), ch = 0.062 + ((lat < 0 ? 1 - c : 1 + c) * (lat < 0 ? 0.007 : 0.005) / 2 + (lat < 0 ? 0.002 : 0.001)) * (1 - std::cos(lat * D2R));
   r.dm = [=](double e) { double s = std::sin(e * D2R); return e < 3 ? 0. : frac(s, ad, 0.0029, ch) + heightTerm(s, h); }; r.wm = [=](double e) { double s = std::sin(e * D2R); return e < 3 ? 0. : frac(s, aw, 0.00146, 0.04391); }; return r;
}
   // ------------------------------------------------------------ generators
static double genEl(G& g) { switch (g.weighted({4, 2, 1, 1})) { case 0: return g.real(0.5, 90); case 1: return g.real(2, 8); case 2: return g.pick(vector<double>{90, 5, 3, 10, 45, 2.999, 4.999}); default: return -g.real(0.01, 90); } }
static double genLat(G& g) { return g.oneIn(4) ? g.pick(vector<double>{0, 15, -15, 30, 45, -45, 60, 75, -75, 90, -90, 74.999, 14.999}) : g.real(-90, 90); }
static double genH(G& g) { return g.oneIn(6) ? 0. : g.real(-300, 9000); }
static int genDoy(G& g, bool bad = false) { return bad ? g.pick(vector<int>{0, -1, 367, 400}) : g.oneIn(6) ? g.pick(vector<int>{1, 365, 366, 28, 211}) : (int)g.range(1, 366); }
static Wx genWx(G& g) { Wx w; w.T = g.oneIn(6) ? 0. : g.real(-50, 45); w.P = g.oneIn(10) ? 0.5 : g.real(600, 1060); w.H = g.oneIn(6) ? g.pick(vector<double>{0, 100, 50}) : g.real(0, 100); return w; }
static WxObservation obs(const Wx& w) { return WxObservation(CommonTime(), (float)w.T, (float)w.P, (float)w.H); }
static Wx asFloat(const Wx& w) { return Wx{(float)w.T, (float)w.P, (float)w.H}; }
static bool rel(double a, double b, double t) { return std::fabs(a - b) <= t * (std::fabs(b) + 1e-6); }
template <class M> static bool asks(M& m, int what, double e) { try { switch (what) { case 0: m.correction(e); break; case 1: m.dry_zenith_delay(); break; case 2: m.dry_mapping_function(e); break; default: m.wet_mapping_function(e); } } catch (InvalidTropModel&) { return true; } return false; }
   // everything the model gives against the reference
template <class M> static void compare(G& g, M& m, const Ref& r, double tol, const string& what, bool physical = true)
{
   REQ_EQ(m.isValid(), r.valid, what << ": valid"); double e = genEl(g); g << " elevation " << e;
   if (!r.valid) { for (int k = 0; k < 4; k++) REQUIRE(asks(m, k, std::fabs(e)), what << ": an incomplete model answers call " << k); return; }
   double dz = m.dry_zenith_delay(), wz = m.wet_zenith_delay(); REQUIRE(rel(dz, r.dz, tol), what << ": dry zenith delay " << d2s(dz) << " wanted " << d2s(r.dz)); REQUIRE(rel(wz, r.wz, tol), what << ": wet zenith delay " << d2s(wz) << " wanted " << d2s(r.wz));
   if (e < 0) { REQUIRE(m.dry_mapping_function(e) == 0 && m.wet_mapping_function(e) == 0 && m.correction(e) == 0, what << ": below the horizon"); e = -e; if (e < 0.5) e = 0.5; }
   double dm = m.dry_mapping_function(e), wm = m.wet_mapping_function(e), c = m.correction(e); REQUIRE(rel(dm, r.dm(e), tol), what << ": dry mapping " << d2s(dm) << " wanted " << d2s(r.dm(e))); REQUIRE(rel(wm, r.wm(e), tol), what << ": wet mapping " << d2s(wm) << " wanted " << d2s(r.wm(e)));
   REQUIRE(rel(c, r.corr(e), 4 * tol), what << ": correction " << d2s(c) << " wanted " << d2s(r.corr(e))); REQUIRE(rel(c, e < r.cut ? 0 : dz * dm + wz * wm, 1e-12), what << ": correction is not the sum of the parts");
   if (physical) { double f = e + g.real(0.01, 20); if (f > 90) f = 90; if (e >= r.cut && f > e) { double c2 = m.correction(f); REQUIRE(std::isfinite(c) && c2 >= 0 && c2 <= c * (1 + 1e-12), what << ": correction grows with elevation, " << d2s(c) << " at " << e << ", " << d2s(c2) << " at " << f); } }
}
template <class M> static bool refuse(M& m, G& g, string& how)
{
   Wx w = genWx(g); int k = g.below(5); how = std::to_string(k); try { switch (k) { case 0: m.setWeather(-273.16 - g.real(0, 50), w.P, w.H); break; case 1: m.setWeather(w.T, -g.real(0.01, 500), w.H); break; case 2: m.setWeather(w.T, w.P, -g.real(0.01, 50)); break; case 3: m.setWeather(w.T, w.P, 105.01 + g.real(0, 50)); break; default: { WxObservation o = obs(w); int q = g.below(4); if (q == 0) o.temperatureSource = WxObservation::noWx; else if (q == 1) o.pressureSource = WxObservation::noWx; else if (q == 2) o.humiditySource = WxObservation::noWx; else o = WxObservation(); m.setWeather(o); } } } catch (InvalidParameter&) { return true; } return false;
}
   // sets the weather one way or the other, the weather in force in w
template <class M> static void giveWx(M& m, G& g, Wx& w) { w = genWx(g); if (g.flag()) { w = asFloat(w); m.setWeather(obs(w)); } else { if (g.oneIn(8)) w.H = g.real(100, 105); m.setWeather(w.T, w.P, w.H); if (w.H > 100) w.H = 100; } }

PROP(simple, 240000, 1500000, "explicit weather")
{
   Wx w{20, 980, 50}; std::unique_ptr<SimpleTropModel> m; int k = g.below(3); if (k == 0) m.reset(new SimpleTropModel()); else { w = genWx(g); if (k == 1) m.reset(new SimpleTropModel(w.T, w.P, w.H)); else { w = asFloat(w); m.reset(new SimpleTropModel(obs(w))); } } bool ok = true; int n = g.range(0, 3); for (int i = 0; i < n; i++) { if (g.oneIn(4)) { string how; REQUIRE(refuse(*m, g, how), "bad weather accepted, " << how); ok = false; } else { giveWx(*m, g, w); ok = true; k = 1; } } g.nontrivial(k && ok); g << w.T << " C " << w.P << " mb " << w.H << " %"; Ref r = refSimple(w); r.valid = ok; compare(g, *m, r, k ? 1e-9 : 0.02, "Simple");
   if (ok) { REQ_NEAR(m->dry_mapping_function(90), 1, 1e-12, "dry mapping at the zenith"); REQ_NEAR(m->wet_mapping_function(90), 1, 1e-12, "wet mapping at the zenith"); }
}
PROP(gg, 160000, 1000000, "explicit weather")
{
   Wx w{20, 980, 50}; std::unique_ptr<GGTropModel> m; int k = g.below(3); if (k == 0) m.reset(new GGTropModel()); else { w = genWx(g); w.H = std::max(w.H, 1.0); if (k == 1) m.reset(new GGTropModel(w.T, w.P, w.H)); else { w = asFloat(w); m.reset(new GGTropModel(obs(w))); } } bool ok = true; int n = g.range(0, 3); for (int i = 0; i < n; i++) { if (g.oneIn(4)) { string how; REQUIRE(refuse(*m, g, how), "bad weather accepted, " << how); ok = false; } else { w = genWx(g); w.H = std::max(w.H, 1.0); m->setWeather(w.T, w.P, w.H); ok = true; k = 1; } } g.nontrivial(k && ok); g << w.T << " C " << w.P << " mb " << w.H << " %";
   if (!k && ok) { Ref r = refGG(w, 0.5); compare(g, *m, r, 0.03, "GG of default weather"); return; }
   Ref r = refGG(w, 0.05); r.valid = ok; bool rec = false; if (ok) { double e = 20, got = m->wet_mapping_function(e); if (!rel(got, r.wm(e), 1e-7) && rel(got, refGG(w, 0.5).wm(e), 1e-7)) { rec = true; r = refGG(w, 0.5); } } compare(g, *m, r, 1e-7, "GG");
   if (ok) { double K = w.T + 273.15; REQUIRE(rel(m->correction(90), 0.002277 * (w.P + (1255 / K + (rec ? 0.5 : 0.05)) * vapour(K, w.H)), 1e-7), "zenith correction is not that of Saastamoinen"); } REQUIRE_SIG("gg-wet-height", !rec, "height of the wet profile computed with 1255/T+0.5 instead of 1255/T+0.05");
}
KNOWN("gg-wet-height") { Wx w{20, 980, 50}; GGTropModel m(20, 980, 50); double got = m.wet_mapping_function(20); if (!rel(got, refGG(w, 0.05).wm(20), 1e-7) && rel(got, refGG(w, 0.5).wm(20), 1e-7)) pbt::fail("wet mapping at 20 degrees is " + d2s(got) + ", Goad and Goodman " + d2s(refGG(w, 0.05).wm(20)), "gg-wet-height"); }
PROP(ggheight, 240000, 1500000, "weather, its heights and the receiver height all set")
{
   Wx w{0, 0, 0}; double h = 0, hT = 0, hP = 0, hH = 0; bool vw = false, vh = false, vr = false; std::unique_ptr<GGHeightTropModel> m; int k = g.below(4); if (k == 0) m.reset(new GGHeightTropModel()); else { w = genWx(g); vw = true; if (k == 1) m.reset(new GGHeightTropModel(w.T, w.P, w.H)); else if (k == 2) { w = asFloat(w); m.reset(new GGHeightTropModel(obs(w))); } else { hT = genH(g); hP = genH(g); hH = genH(g); vh = true; m.reset(new GGHeightTropModel(w.T, w.P, w.H, hT, hP, hH)); } }
   int n = g.range(0, 5); for (int i = 0; i < n; i++) switch (g.weighted({3, 1, 2, 3})) { case 0: giveWx(*m, g, w); vw = true; break; case 1: { string how; REQUIRE(refuse(*m, g, how), "bad weather accepted, " << how); vw = false; break; } case 2: hT = genH(g); hP = genH(g); hH = genH(g); m->setHeights(hT, hP, hH); vh = true; break; default: h = genH(g); m->setReceiverHeight(h); vr = true; if (!vh) { hT = hP = hH = h; vh = true; } }
   bool ok = vw && vh && vr; g.nontrivial(ok && (hT != h || hP != h)); g << w.T << " C at " << hT << " " << w.P << " mb at " << hP << " " << w.H << " % at " << hH << " receiver " << h; Ref r; if (ok) r = refGGH(w, h, hT, hP, hH); r.valid = ok; compare(g, *m, r, 1e-5, "GGHeight");
}
PROP(nb, 240000, 1500000, "all set")
{
   double h = 0, lat = 0, K = 0, P = 0, E = 0; int doy = 0; bool vw = false, vl = false, vh = false, vd = false, in = false; std::unique_ptr<NBTropModel> m; Wx w;
   auto interp = [&]() { double ph = 2 * PIr * (doy - 28) / 365.25; K = met(1, lat, ph); P = met(0, lat, ph); E = met(2, lat, ph); vw = in = true; }; auto given = [&]() { K = w.T + 273.15; P = w.P; E = vapour(K, w.H); vw = true; in = false; }; auto touched = [&]() { if (!vw && vl && vd) interp(); };
   int k = g.below(5); if (k) { lat = genLat(g); doy = genDoy(g); vl = vd = true; } switch (k) { case 0: m.reset(new NBTropModel()); break; case 1: m.reset(new NBTropModel(lat, doy)); interp(); break; case 2: w = asFloat(genWx(g)); m.reset(new NBTropModel(lat, doy, obs(w))); given(); break; case 3: w = genWx(g); m.reset(new NBTropModel(lat, doy, w.T, w.P, w.H)); given(); break; default: h = genH(g); vh = true; m.reset(new NBTropModel(h, lat, doy)); interp(); }
   int n = g.range(0, 6); for (int i = 0; i < n; i++) switch (g.weighted({3, 1, 3, 3, 3, 2})) { case 0: giveWx(*m, g, w); given(); g << "wx "; break; case 1: { string how; REQUIRE(refuse(*m, g, how), "bad weather accepted, " << how); vw = false; g << "bad "; break; } case 2: h = genH(g); m->setReceiverHeight(h); vh = true; touched(); g << "height "; break; case 3: lat = genLat(g); m->setReceiverLatitude(lat); vl = true; touched(); g << "lat "; break; case 4: { bool bad = g.oneIn(8); doy = genDoy(g, bad); m->setDayOfYear(doy); vd = !bad; touched(); g << "day "; break; } default: { bool threw = false; try { m->setWeather(); } catch (InvalidTropModel&) { threw = true; } REQ_EQ(threw, !(vl && vd), "own weather without latitude or day refused"); if (threw) vw = false; else interp(); g << "own "; } }
   bool ok = vw && vl && vh && vd; g.nontrivial(ok); g << " h " << h << " lat " << lat << " doy " << doy << " K " << K << " P " << P << " e " << E; Ref r; if (ok) r = refNB(K, P, E, in, lat, h, doy); r.valid = ok; compare(g, *m, r, 1e-9, "NB"); if (ok) REQ_NEAR(m->dry_mapping_function(90), 1, 1e-9, "dry mapping at the zenith");
}
PROP(saas, 240000, 1500000, "all set")
{
   double h = 0, lat = 0; int doy = 0; Wx w{0, 0, 0}; bool vw = false, vl = false, vh = false, vd = false; std::unique_ptr<SaasTropModel> m; int k = g.below(4); if (k) { lat = genLat(g); doy = genDoy(g); vl = vd = true; } switch (k) { case 0: m.reset(new SaasTropModel()); break; case 1: m.reset(new SaasTropModel(lat, doy)); break; case 2: w = asFloat(genWx(g)); m.reset(new SaasTropModel(lat, doy, obs(w))); vw = true; break; default: w = genWx(g); m.reset(new SaasTropModel(lat, doy, w.T, w.P, w.H)); vw = true; }
   int n = g.range(0, 6); for (int i = 0; i < n; i++) switch (g.below(4)) { case 0: w = genWx(g); if (g.flag()) { w = asFloat(w); m->setWeather(obs(w)); } else m->setWeather(w.T, w.P, w.H); vw = true; break; case 1: h = genH(g); m->setReceiverHeight(h); vh = true; break; case 2: lat = genLat(g); m->setReceiverLatitude(lat); vl = true; break; default: { bool bad = g.oneIn(8); doy = genDoy(g, bad); m->setDayOfYear(doy); vd = !bad; } }
   bool ok = vw && vl && vh && vd; g.nontrivial(ok); g << w.T << " C " << w.P << " mb " << w.H << " % h " << h << " lat " << lat << " doy " << doy; Ref r; r.dm = r.wm = [](double) { return 0.; }; bool rec = false; if (ok) { r = refSaas(w, lat, h, doy, false); Ref q = refSaas(w, lat, h, doy, true); double got = m->wet_zenith_delay(); if (!rel(got, r.wz, 1e-9) && rel(got, q.wz, 1e-9)) { rec = true; r = q; } } r.valid = ok; compare(g, *m, r, 1e-9, "Saas"); if (ok) REQ_NEAR(m->dry_mapping_function(90), 1, 1e-9, "dry mapping at the zenith");
   REQUIRE_SIG("saas-wet-humidity", !rec, "wet delay treats the vapour pressure as relative humidity");
}
KNOWN("saas-wet-humidity") { Wx w{20, 980, 50}; SaasTropModel m(45., 100, 20., 980., 50.); m.setReceiverHeight(100); double got = m.wet_zenith_delay(); if (!rel(got, refSaas(w, 45, 100, 100, false).wz, 1e-9) && rel(got, refSaas(w, 45, 100, 100, true).wz, 1e-9)) pbt::fail("wet zenith delay at 20 C and 50 % is " + d2s(got) + " m, Saastamoinen " + d2s(refSaas(w, 45, 100, 100, false).wz), "saas-wet-humidity"); }
PROP(gcat, 160000, 1000000, "always")
{
   double h = 0; std::unique_ptr<GCATTropModel> m; bool ok = g.flag(); if (ok) { h = genH(g); m.reset(new GCATTropModel(h)); } else m.reset(new GCATTropModel()); for (int i = g.below(3); i > 0; i--) { if (g.flag()) { h = genH(g); m->setReceiverHeight(h); ok = true; } else m->setWeather(1, 2, 3); } g.nontrivial(); g << "h " << h; Ref r = refGCAT(h); r.valid = ok; compare(g, *m, r, 1e-9, "GCAT"); if (ok) { double e = g.real(5, 90); REQ_NEAR(m->mapping_function(e), m->dry_mapping_function(e), 0, "mapping functions"); REQ_NEAR(m->mapping_function(90), 1, 1e-6, "mapping at the zenith"); }
}
static Position genRx(G& g) { Position p(genLat(g), g.oneIn(5) ? 0. : g.real(0, 359.9), genH(g), Position::Geodetic); if (g.flag() && std::fabs(p.getGeodeticLatitude()) < 89.9) p.transformTo(Position::Cartesian); return p; }
static CommonTime genT(G& g) { return YDSTime(g.range(1980, 2050), genDoy(g) % 366 + 0, g.real(0, 86399), TimeSystem::GPS); }
static CommonTime time_(G& g, int& doy) { int y = g.range(1980, 2050); doy = g.range(1, gp::leap(y, true) ? 366 : 365); double s = g.flag() ? g.pick(vector<double>{0, 86399.5}) : g.real(0, 86399); return YDSTime(y, doy, s, TimeSystem::GPS); }
template <class M> static void annual(G& g, Ref (*ref)(double, double, int), const string& name)
{
   double h = 0, lat = 0; int doy = 0; bool vl = false, vh = false, vd = false; std::unique_ptr<M> m; int k = g.below(3); if (k == 0) m.reset(new M()); else if (k == 1) { h = genH(g); lat = genLat(g); doy = genDoy(g); m.reset(new M(h, lat, doy)); vl = vh = vd = true; } else { Position p = genRx(g); CommonTime t = time_(g, doy); m.reset(new M(p, t)); h = p.getAltitude(); lat = p.getGeodeticLatitude(); vl = vh = vd = true; }
   int n = g.range(0, 6); for (int i = 0; i < n; i++) switch (g.weighted({3, 3, 3, 2, 1, 1})) { case 0: h = genH(g); m->setReceiverHeight(h); vh = true; break; case 1: lat = genLat(g); m->setReceiverLatitude(lat); vl = true; break; case 2: { bool bad = g.oneIn(8); doy = genDoy(g, bad); m->setDayOfYear(doy); vd = !bad; break; } case 3: { CommonTime t = time_(g, doy); m->setDayOfYear(t); vd = true; break; } case 4: { Position p = genRx(g); CommonTime t = time_(g, doy); m->setAllParameters(t, p); h = p.getHeight(); lat = p.getGeodeticLatitude(); vl = vh = vd = true; g << "all "; break; } default: m->setWeather(1, 2, 3); m->setWeather(WxObservation()); }
   bool ok = vl && vh && vd; g.nontrivial(ok); g << "h " << h << " lat " << lat << " doy " << doy; Ref r = ref(h, lat, doy); r.valid = ok; compare(g, *m, r, 1e-9, name); if (ok) REQ_NEAR(m->dry_mapping_function(90), 1, 1e-6, "dry mapping at the zenith");
}
PROP(neill, 200000, 1250000, "all set") { annual<NeillTropModel>(g, refNeill, "Neill"); }
PROP(mops, 160000, 1000000, "all set") { annual<MOPSTropModel>(g, refMOPS, "MOPS"); }
PROP(sigma, 40000, 200000, "above five degrees") { double e = g.real(0, 90), h = genH(g), lat = genLat(g); MOPSTropModel m(h, lat, genDoy(g)); g << "elevation " << e; g.nontrivial(e >= 5); double s = std::sin(e * D2R), want = e < 5 ? 9.9e9 : 0.12 * 0.12 * 1.001 * 1.001 / (0.002001 + s * s), got = m.MOPSsigma2(e); REQUIRE(rel(got, want, 1e-9), "residual variance " << d2s(got) << " wanted " << d2s(want)); }
static double mjdPhase(double mjd) { return 2 * PIr * (mjd - 44266) / 365.25; }
PROP(global, 32000, 200000, "all set")
{
   double h = 0, lat = 0, lon = 0, ph = 0, hum = 50; bool vl = false, vo = false, vh = false, vd = false, rec = false; int lastDoy = 0; bool byDoy = false; std::unique_ptr<GlobalTropModel> m; int k = g.below(3); auto lonOf = [&]() { return g.oneIn(5) ? 0. : g.real(-180, 360); };
   if (k == 0) m.reset(new GlobalTropModel()); else { vl = vo = vh = vd = true; if (k == 1) { h = genH(g); lat = genLat(g); lon = lonOf(); double mjd = g.oneIn(5) ? 44266. : g.real(40000, 62000); ph = mjdPhase(mjd); m.reset(new GlobalTropModel(h, lat, lon, mjd)); } else { Position p = genRx(g); int d; CommonTime t = time_(g, d); m.reset(new GlobalTropModel(p, t)); h = p.getAltitude(); lat = p.getGeodeticLatitude(); lon = p.getLongitude(); ph = mjdPhase(MJD(t).mjd); } }
   int n = g.range(0, 7); for (int i = 0; i < n; i++) switch (g.weighted({3, 3, 3, 2, 1, 2})) { case 0: h = genH(g); m->setReceiverHeight(h); vh = true; g << "height "; break; case 1: lat = genLat(g); m->setReceiverLatitude(lat); vl = true; g << "lat "; break; case 2: lon = lonOf(); m->setReceiverLongitude(lon); vo = true; g << "lon "; break; case 3: lastDoy = genDoy(g); m->setDayOfYear(lastDoy); ph = 2 * PIr * (lastDoy - 28) / 365.25; byDoy = vd = true; g << "day "; break; case 4: { Position p = genRx(g); int d; CommonTime t = time_(g, d); int twice = g.range(1, 2); for (int j = 0; j < twice; j++) m->setParameters(t, p); h = p.getHeight(); lat = p.getGeodeticLatitude(); lon = p.getLongitude(); ph = mjdPhase(MJD(t).mjd); vl = vo = vh = vd = true; byDoy = false; g << "all "; break; } default: { double x = g.real(0, 100); if (g.oneIn(4)) { bool t = false; try { m->setHumidity(g.flag() ? -1 : 101); } catch (InvalidParameter&) { t = true; } REQUIRE(t, "bad humidity accepted"); } else { hum = x; int q = g.below(3); if (q == 0) m->setHumidity(x); else if (q == 1) m->setWeather(1, 2, x); else { hum = (float)x; m->setWeather(obs(Wx{1, 2, x})); } } g << "humidity "; } }
   bool ok = vl && vo && vh && vd; g.nontrivial(ok); g << "h " << h << " lat " << lat << " lon " << lon << " phase " << ph << " humidity " << hum; Ref r; if (ok) { r = refGlobal(h, lat, lon, ph, hum); if (byDoy) { double q = 2 * PIr * lastDoy / 365.25; double got = m->dry_zenith_delay(); if (!rel(got, r.dz, 1e-8) || !rel(m->wet_zenith_delay(), r.wz, 1e-8)) { Ref s = refGlobal(h, lat, lon, q, hum); if (rel(got, s.dz, 1e-8)) { rec = true; r = s; ph = q; } } } } r.valid = ok; compare(g, *m, r, 1e-8, "Global");
   if (ok) { double P, T, U; m->getGPT(P, T, U); Gpt q = gpt(h, lat, lon, ph); REQUIRE(rel(P, q.P, 1e-9), "pressure " << P << " wanted " << q.P); REQ_NEAR(T, q.T, 1e-6, "temperature"); REQ_NEAR(U, q.U, 1e-6, "undulation"); REQ_NEAR(m->dry_mapping_function(90), 1, 1e-9, "dry mapping at the zenith"); REQ_NEAR(m->wet_mapping_function(90), 1, 1e-9, "wet mapping at the zenith"); REQUIRE(q.P > 200 && q.P < 1150 && q.T > -150 && q.T < 60 && std::fabs(q.U) < 130, "the atmosphere is not that of the Earth"); }
   REQUIRE_SIG("global-day-of-year", !rec, "setDayOfYear(" << lastDoy << ") is " << lastDoy << " days after the coldest day of the model, which is day 28");
}
KNOWN("global-day-of-year") { GlobalTropModel m; m.setReceiverHeight(10); m.setReceiverLatitude(45); m.setReceiverLongitude(10); m.setDayOfYear(100); double got = m.dry_zenith_delay(), want = refGlobal(10, 45, 10, 2 * PIr * 72 / 365.25, 50).dz; if (!rel(got, want, 1e-8) && rel(got, refGlobal(10, 45, 10, 2 * PIr * 100 / 365.25, 50).dz, 1e-8)) pbt::fail("dry zenith delay on day 100 is " + d2s(got) + ", for the date of day 100 it is " + d2s(want), "global-day-of-year"); }
   // a height above the atmosphere is refused and leaves no valid model behind; a good one repairs it
PROP(high, 16000, 60000, "refused by a valid model")
{
   double lat = genLat(g), lon = g.real(0, 360), mjd = g.real(44000, 62000), hi = g.real(44400, 90000), h = genH(g); g << "lat " << lat << " lon " << lon << " height " << hi; GlobalTropModel m(h, lat, lon, mjd); g.nontrivial(); bool t = false; try { m.setReceiverHeight(hi); } catch (InvalidTropModel&) { t = true; } REQUIRE(t, "a height of " << hi << " m is accepted"); REQUIRE(!m.isValid(), "valid after a refused height"); for (int k = 0; k < 4; k++) REQUIRE(asks(m, k, 30), "answers after a refused height"); m.setReceiverHeight(h); compare(g, m, refGlobal(h, lat, lon, mjdPhase(mjd), 50), 1e-8, "Global");
}
   // the correction for positions is that of the elevation after setting what the positions tell
static bool both(const std::function<double()>& a, const std::function<double()>& b, double& x, double& y) { bool ta = false, tb = false; try { x = a(); } catch (InvalidTropModel&) { ta = true; } try { y = b(); } catch (InvalidTropModel&) { tb = true; } REQ_EQ(ta, tb, "refused"); return !ta; }
PROP(positions, 120000, 600000, "satellite above five degrees")
{
   Position rx = genRx(g); int doy; CommonTime t = time_(g, doy); Position sv; { Position up = rx; up.transformTo(Position::Cartesian); double lat = rx.getGeodeticLatitude() * D2R, lon = rx.getLongitude() * D2R, e = g.real(-10, 90) * D2R, a = g.real(0, 2 * PIr), d = 2.3e7, E = std::cos(e) * std::sin(a), N = std::cos(e) * std::cos(a), U = std::sin(e); sv = Position(up.X() + d * (-std::sin(lon) * E - std::sin(lat) * std::cos(lon) * N + std::cos(lat) * std::cos(lon) * U), up.Y() + d * (std::cos(lon) * E - std::sin(lat) * std::sin(lon) * N + std::cos(lat) * std::sin(lon) * U), up.Z() + d * (std::cos(lat) * N + std::sin(lat) * U)); }
   double e = rx.elevation(sv), eg = rx.elevationGeodetic(sv), h = rx.getHeight(), lat = rx.getGeodeticLatitude(), x = 0, y = 0; g << "lat " << lat << " h " << h << " elevation " << e << " doy " << doy; g.nontrivial(e > 5); Wx w = genWx(g); int kind = g.below(9); g << " kind " << kind; int form = g.below(3); Xvt R, S; { Position p = rx; p.transformTo(Position::Cartesian); R.x = Triple(p.X(), p.Y(), p.Z()); S.x = Triple(sv.X(), sv.Y(), sv.Z()); }
   double tol = 1e-7; Position rx2 = rx; if (form == 1) { rx2 = Position(R); }
   switch (kind)
   {
      case 0: { SimpleTropModel m(w.T, w.P, w.H); if (!both([&]() { return form == 1 ? m.correction(R, S, t) : m.correction(rx, sv, t); }, [&]() { return m.correction(e); }, x, y)) return; break; }
      case 1: { GGTropModel m(w.T, w.P, std::max(w.H, 1.)); if (!both([&]() { return form == 1 ? m.correction(R, S, t) : m.correction(rx, sv, t); }, [&]() { return m.correction(e); }, x, y)) return; break; }
      case 2: { GGHeightTropModel m(w.T, w.P, w.H, 10, 20, 30), n(w.T, w.P, w.H, 10, 20, 30); m.setReceiverHeight(77); n.setReceiverHeight(h); if (!both([&]() { return form == 1 ? m.correction(R, S, t) : m.correction(rx, sv, t); }, [&]() { return n.correction(e); }, x, y)) return; break; }
      case 3: { NBTropModel m(77., 12., 300); m.setWeather(w.T, w.P, w.H); NBTropModel n(lat, doy, w.T, w.P, w.H); n.setReceiverHeight(h); if (!both([&]() { return form == 1 ? m.correction(R, S, t) : m.correction(rx, sv, t); }, [&]() { return n.correction(e); }, x, y)) return; break; }
      case 4: { SaasTropModel m, n(lat, doy, w.T, w.P, w.H); m.setWeather(w.T, w.P, w.H); n.setReceiverHeight(h); if (!both([&]() { return form == 1 ? m.correction(R, S, t) : m.correction(rx, sv, t); }, [&]() { return n.correction(e); }, x, y)) return; break; }
      case 5: { GCATTropModel m, n(h); if (!both([&]() { return form == 0 ? m.correction(rx, sv) : form == 1 ? m.correction(R, S, t) : m.correction(rx, sv, t); }, [&]() { return n.correction(eg); }, x, y)) return; break; }
      case 6: { MOPSTropModel m, n(h, lat, doy); if (form == 0) m.setDayOfYear(t); if (!both([&]() { return form == 0 ? (g.flag() ? m.correction(rx, sv) : m.correction(R, S)) : form == 1 ? (g.flag() ? m.correction(R, S, t) : m.correction(R, S, doy)) : g.flag() ? m.correction(rx, sv, t) : m.correction(rx, sv, doy); }, [&]() { return n.correction(eg); }, x, y)) return; break; }
      case 7: { NeillTropModel m, n(h, lat, doy); if (form == 0) m.setDayOfYear(t); if (!both([&]() { return form == 0 ? (g.flag() ? m.correction(rx, sv) : m.correction(R, S)) : form == 1 ? (g.flag() ? m.correction(R, S, t) : m.correction(R, S, doy)) : g.flag() ? m.correction(rx, sv, t) : m.correction(rx, sv, doy); }, [&]() { return n.correction(eg); }, x, y)) return; break; }
      default: { GlobalTropModel m, n(h, lat, rx.getLongitude(), MJD(t).mjd); if (g.flag()) { m.setReceiverHeight(500); m.setReceiverLatitude(-20); m.setReceiverLongitude(20); } m.setHumidity(50); if (!both([&]() { return m.correction(rx, sv, t); }, [&]() { return n.correction(eg); }, x, y)) return; if (g.flag()) { double z = m.correction(rx, sv); REQ_NEAR(z, x, 1e-12, "again without time"); } }
   }
   for (double c : {0., 3., 5.}) if (std::fabs(e - c) < 1e-7 || std::fabs(eg - c) < 1e-7) return; REQUIRE(rel(x, y, tol), "correction for positions " << d2s(x) << ", for the elevation " << d2s(y));
}
PROP(atmosphere, 80000, 300000, "above sea level")
{
   double h = genH(g), T, P, H; g << "h " << h; g.nontrivial(h > 0); TropModel::weatherByStandardAtmosphereModel(h, T, P, H); REQ_NEAR(T, 18 - 0.0065 * h, 1e-9, "temperature"); REQUIRE(rel(P, 1013.25 * std::pow(1 - 2.26e-5 * h, 5.225), 1e-10), "pressure " << P); REQUIRE(rel(H, 50 * std::exp(-6.396e-4 * h), 1e-10), "humidity " << H); ZeroTropModel z; REQUIRE(z.correction(h / 100) == 0 && z.dry_zenith_delay() == 0 && z.wet_zenith_delay() == 0 && z.dry_mapping_function(3) == 0 && z.wet_mapping_function(3) == 0, "the zero model");
}
   // the store of weather observations against a sorted list
PROP(observations, 160000, 800000, "at least three observations")
{
   WxObsData d; map<long, Wx> model; CommonTime base = YDSTime(2010, 100, 0, TimeSystem::GPS); bool src[3]; (void)src; int n = g.range(0, 12); for (int i = 0; i < n; i++) { if (g.oneIn(6)) { long c = g.range(-10, 110); d.flush(base + 100. * c); while (model.size() && model.begin()->first < c) model.erase(model.begin()); g << "flush " << c << " "; } else { long k = g.range(0, 100); Wx w = asFloat(genWx(g)); WxObservation o = obs(w); o.t = base + 100. * k; d.insertObservation(o); model[k] = w; g << k << " "; } REQ_EQ(d.obs.size(), model.size(), "observations kept"); if (model.size()) { REQUIRE(d.firstTime == base + 100. * model.begin()->first && d.lastTime == base + 100. * model.rbegin()->first, "first and last time"); } }
   g.nontrivial(model.size() > 2); long t2 = g.range(-20, 230); CommonTime t = base + 50. * t2; auto after = model.begin(); while (after != model.end() && after->first * 2 <= t2) ++after; g << " at " << t2 / 2.; auto same = [](const WxObservation& o, const Wx& w) { return o.temperature == (float)w.T && o.pressure == (float)w.P && o.humidity == (float)w.H; };
   if (after != model.begin()) { WxObservation o = d.getMostRecent(t); REQUIRE(same(o, std::prev(after)->second), "most recent observation is " << o.temperature << " C"); }
   unsigned iv = 50 * g.range(0, 40); bool ip = g.flag(); const Wx *a = 0, *b = 0; double da = 0, db = 0; if (after != model.end()) { da = 100. * after->first - 50. * t2; if (da <= iv) a = &after->second; } if (after != model.begin()) { auto q = std::prev(after); db = 50. * t2 - 100. * q->first; if (db <= iv) b = &q->second; } g << " within " << iv << (ip ? " interpolated" : ""); WxObservation o; bool none = false; try { o = d.getWxObservation(t, iv, ip); } catch (ObjectNotFound&) { none = true; } REQ_EQ(none, !a && !b, "none found"); if (none) return;
   if (a && b && ip) { double f = db / (da + db); REQ_NEAR(o.temperature, b->T + f * (a->T - b->T), 1e-4, "temperature"); REQ_NEAR(o.pressure, b->P + f * (a->P - b->P), 1e-3, "pressure"); REQ_NEAR(o.humidity, b->H + f * (a->H - b->H), 1e-4, "humidity"); REQUIRE(o.t == t && o.isAllValid(), "time"); } else { const Wx* w = a && b ? (da < db ? a : b) : a ? a : b; REQUIRE(same(o, *w), "wrong observation, " << o.temperature); }
}
PBT_MAIN
