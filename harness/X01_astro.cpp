// X01: earth orientation (fundamental arguments, sidereal time, precession, nutation, polar motion, full
// transformation), the EOP store and its files, and the positions of the sun and the moon.
// The oracles are the published formulae (IAU 1976/1980/1982, IAU 2000/2006, Meeus' low precision theories),
// the three conventions compared with each other, geometry of two circles, and a map as model of the store.
#include "pbt.hpp"
#include "gp.hpp"
#include "EarthOrientation.hpp"
#include "EOPStore.hpp"
#include "EOPPrediction.hpp"
#include "SolarPosition.hpp"
#include "SunPosition.hpp"
#include "MoonPosition.hpp"
#include "AstronomicalFunctions.hpp"
#include "MJD.hpp"
#include <map>
using pbt::G;
namespace gk = gpstk;
typedef long double ld;
typedef gk::EarthOrientation EO;
static const ld PI_ = 3.14159265358979323846264338327950288L, TP = 2 * PI_, AS = PI_ / 648000.0L, DEG = PI_ / 180.0L;

static ld wrap(ld x) { x = fmodl(x, TP); if (x > PI_) x -= TP; if (x < -PI_) x += TP; return x; }
static int taiutc(long mjd)
{
   static const long t[] = {41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247, 47161, 47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754};
   int n = 9; for (long m : t) if (mjd >= m) n++; return n;
}

// a moment, known as UTC and as TT (integer day plus seconds), and as an EphTime in one of the two systems
struct When { long du, dt; ld su, st; gk::EphTime e; ld T() const { return ((ld)(dt - 51544) + (st - 43200.0L) / 86400.0L) / 36525.0L; } };
static When genWhen(G& g, long lo = 41400, long hi = 64000)
{
   When w; w.du = g.oneIn(6) ? 51544 + g.range(-2, 2) : g.range(lo, hi);
   bool tt = g.flag(0.4);
   ld s;
   switch (g.below(5)) { case 0: s = 43200; break; case 1: s = 0; break; case 2: s = 43200 + g.pick({-1.0, 1.0, -1e-6, 1e-6, -0.25, 0.25}); break; default: s = (double)g.range(0, 86399) + 0.125 * g.below(8); }
   // keep away from the leap seconds themselves, where a calendar date does not settle the offset
   int d = taiutc(w.du); if (taiutc(w.du + 2) != d) w.du -= 3; else if (taiutc(w.du - 2) != d) w.du += 3;
   d = taiutc(w.du);
   ld off = d + 32.184L;
   if (tt) { w.dt = w.du; w.st = (double)s; w.su = w.st - off; if (w.su < 0) { w.su += 86400; w.du--; } w.e = gk::EphTime((int)w.dt, (double)w.st, gk::TimeSystem::TT); }
   else { w.su = (double)s; w.dt = w.du; w.st = w.su + off; if (w.st >= 86400) { w.st -= 86400; w.dt++; } w.e = gk::EphTime((int)w.du, (double)w.su, gk::TimeSystem::UTC); }
   g << (tt ? " TT " : " UTC ") << (tt ? w.dt : w.du) << "+" << pbt::d2s((double)s);
   g.label(tt ? "TT" : "UTC");
   if (s == 43200) g.label("exactly noon");
   return w;
}
static gk::IERSConvention conv(int k) { return k == 0 ? gk::IERSConvention::IERS1996 : k == 1 ? gk::IERSConvention::IERS2003 : gk::IERSConvention::IERS2010; }

struct M3 { ld a[3][3]; };
static M3 R(int axis, ld x) { M3 m = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; int i = axis % 3, j = (axis + 1) % 3; m.a[i][i] = m.a[j][j] = cosl(x); m.a[i][j] = sinl(x); m.a[j][i] = -sinl(x); return m; }
static M3 operator*(const M3& x, const M3& y) { M3 z; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { z.a[i][j] = 0; for (int k = 0; k < 3; k++) z.a[i][j] += x.a[i][k] * y.a[k][j]; } return z; }
static M3 tr(const M3& x) { M3 z; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) z.a[i][j] = x.a[j][i]; return z; }
static M3 of(const gk::Matrix<double>& m) { M3 z; REQUIRE(m.rows() == 3 && m.cols() == 3, "a rotation is 3x3"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) z.a[i][j] = m(i, j); return z; }
static ld dist(const M3& x, const M3& y) { ld d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, fabsl(x.a[i][j] - y.a[i][j])); return d; }
static void rot(const M3& m, const char* what)
{
   M3 i = m * tr(m), e = R(1, 0);
   REQUIRE(dist(i, e) < 1e-13L, what << " is not orthogonal");
   ld det = m.a[0][0] * (m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1]) - m.a[0][1] * (m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0]) + m.a[0][2] * (m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0]);
   REQUIRE(fabsl(det - 1) < 1e-13L, what << " has determinant " << (double)det);
}

// Delaunay arguments (radians)
static void delaunay(ld T, ld a[5])
{
   a[0] = (485868.249036L + T * (1717915923.2178L + T * (31.8792L + T * (0.051635L - T * 0.00024470L)))) * AS;
   a[1] = (1287104.793048L + T * (129596581.0481L + T * (-0.5532L + T * (0.000136L - T * 0.00001149L)))) * AS;
   a[2] = (335779.526232L + T * (1739527262.8478L + T * (-12.7512L + T * (-0.001037L + T * 0.00000417L)))) * AS;
   a[3] = (1072260.703692L + T * (1602961601.2090L + T * (-6.3706L + T * (0.006593L - T * 0.00003169L)))) * AS;
   a[4] = (450160.398036L + T * (-6962890.5431L + T * (7.4722L + T * (0.007702L - T * 0.00005939L)))) * AS;
}
// the largest nutation terms, in arcseconds; what is left out stays below 0.08" in longitude and 0.04" in obliquity
static void nutation(ld T, ld& dpsi, ld& deps)
{
   static const struct { int l, lp, f, d, o; ld s, c; } t[] = {
      {0,0,0,0,1,-17.1996L,9.2025L},{0,0,2,-2,2,-1.3187L,0.5736L},{0,0,2,0,2,-0.2274L,0.0977L},{0,0,0,0,2,0.2062L,-0.0895L},{0,1,0,0,0,0.1426L,0.0054L},
      {1,0,0,0,0,0.0712L,-0.0007L},{0,1,2,-2,2,-0.0517L,0.0224L},{0,0,2,0,1,-0.0386L,0.0200L},{1,0,2,0,2,-0.0301L,0.0129L},{0,-1,2,-2,2,0.0217L,-0.0095L},
      {1,0,0,-2,0,-0.0158L,-0.0001L},{0,0,2,-2,1,0.0129L,-0.0070L},{-1,0,2,0,2,0.0123L,-0.0053L}};
   ld a[5]; delaunay(T, a); dpsi = deps = 0;
   for (auto& x : t) { ld p = x.l * a[0] + x.lp * a[1] + x.f * a[2] + x.d * a[3] + x.o * a[4]; dpsi += x.s * sinl(p); deps += x.c * cosl(p); }
   dpsi += -0.01742L * T * sinl(a[4]);
   dpsi *= AS; deps *= AS;
}
static ld frac(ld x) { return x - floorl(x); }
static ld era(long du, ld su, ld dut1) { ld s = su + dut1; return TP * frac(0.7790572732640L + 0.00273781191135448L * ((ld)(du - 51544) + (s - 43200.0L) / 86400.0L) + (s - 43200.0L) / 86400.0L); }
static ld gmst(int k, const When& w, ld dut1)
{
   if (k == 0) { ld s = w.su + dut1, T = ((ld)(w.du - 51544) + (s - 43200.0L) / 86400.0L) / 36525.0L; return TP * frac((24110.54841L + s + T * (8640184.812866L + T * (0.093104L - T * 6.2e-6L))) / 86400.0L); }
   ld T = w.T(), e = era(w.du, w.su, dut1);
   if (k == 1) return e + (0.014506L + T * (4612.15739966L + T * (1.39667721L + T * (-0.00009344L + T * 0.00001882L)))) * AS;
   return e + (0.014506L + T * (4612.156534L + T * (1.3915817L + T * (-0.00000044L + T * (-0.000029956L - T * 0.0000000368L))))) * AS;
}
static double genDut(G& g) { return g.oneIn(5) ? 0.0 : g.range(-9000, 9000) / 10000.0; }

PROP(arguments, 80000, 600000, "the century count is not zero")
{
   double T = g.oneIn(8) ? 0.0 : g.range(-1000000, 1000000) / 1e6; g << "T=" << pbt::d2s(T); g.nontrivial(T != 0);
   ld a[5]; delaunay(T, a);
   struct { const char* n; double v; ld w; } c[] = {{"L", EO::L(T), a[0]}, {"Lp", EO::Lp(T), a[1]}, {"F", EO::F(T), a[2]}, {"D", EO::D(T), a[3]}, {"Omega2003", EO::Omega2003(T), a[4]}, {"Omega", EO::Omega(T), a[4] + 0.2766L * T * AS},
      {"LMe", EO::LMe(T), 4.402608842L + 2608.7903141574L * T}, {"LV", EO::LV(T), 3.176146697L + 1021.3285546211L * T}, {"LE", EO::LE(T), 1.753470314L + 628.3075849991L * T}, {"LMa", EO::LMa(T), 6.203480913L + 334.0612426700L * T},
      {"LJ", EO::LJ(T), 0.599546497L + 52.9690962641L * T}, {"LS", EO::LS(T), 0.874016757L + 21.3299104960L * T}, {"LU", EO::LU(T), 5.481293872L + 7.4781598567L * T}, {"LN", EO::LN(T), 5.311886287L + 3.8133035638L * T}, {"Pa", EO::Pa(T), (0.024381750L + 0.00000538691L * T) * T}};
   for (auto& x : c) REQUIRE(fabsl(wrap(x.v - x.w)) < 1e-8L, x.n << "(" << T << ") = " << pbt::d2s(x.v) << " expected " << pbt::d2s((double)x.w));
   for (int k = 0; k < 3; k++) {
      EO e; e.convention = conv(k);
      ld w = k < 2 ? (84381.448L + T * (-46.8150L + T * (-0.00059L + T * 0.001813L))) * AS : (84381.406L + T * (-46.836769L + T * (-0.0001831L + T * (0.00200340L + T * (-0.000000576L - T * 0.0000000434L))))) * AS;
      REQUIRE(fabsl(e.Obliquity(T) - w) < 1e-12L, "obliquity, convention " << k << ": " << pbt::d2s(e.Obliquity(T)) << " expected " << pbt::d2s((double)w));
   }
}

PROP(sidereal, 48000, 300000, "a moment and an offset UT1-UTC different from zero")
{
   When w = genWhen(g); double dut = genDut(g); g << " UT1-UTC=" << pbt::d2s(dut); g.nontrivial(dut != 0);
   REQUIRE(fabsl(EO::CoordTransTime(w.e) - w.T()) < 1e-14L, "coordinate transformation time " << pbt::d2s(EO::CoordTransTime(w.e)) << " expected " << pbt::d2s((double)w.T()));
   ld dpsi, deps, om[5], eps = 84381.448L * AS - 46.815L * w.T() * AS; nutation(w.T(), dpsi, deps); delaunay(w.T(), om);
   ld eqeq = dpsi * cosl(eps) + 0.00264L * AS * sinl(om[4]);
   double ga[3];
   for (int k = 0; k < 3; k++) {
      EO e; e.convention = conv(k); e.UT1mUTC = dut; e.xp = 0.1; e.yp = 0.2;
      double m = e.GMST(w.e); ld want = gmst(k, w, dut);
      REQUIRE(fabsl(wrap(m - want)) < 1e-9L, "mean sidereal time, convention " << k << ": " << pbt::d2s(m) << " expected " << pbt::d2s((double)want) << " difference " << (double)(wrap(m - want) / AS) << "\"");
      ga[k] = e.GAST(w.e);
      REQUIRE(fabsl(wrap(ga[k] - want - eqeq)) < 0.1L * AS, "apparent sidereal time, convention " << k << ": " << pbt::d2s(ga[k]) << " is " << (double)(wrap(ga[k] - want) / AS) << "\" from the mean one, the equation of the equinoxes is " << (double)(eqeq / AS) << "\"");
   }
   REQUIRE(fabsl(wrap(ga[1] - (ld)ga[2])) < 0.003L * AS, "apparent sidereal time of the 2003 and 2010 conventions differ by " << (double)(wrap(ga[1] - (ld)ga[2]) / AS) << "\"");
   REQUIRE(fabsl(wrap(ga[0] - (ld)ga[2])) < 0.15L * AS, "apparent sidereal time of the 1996 and 2010 conventions differ by " << (double)(wrap(ga[0] - (ld)ga[2]) / AS) << "\"");
   // tides taken out of UT1-UTC are put back: at most some 0.03 s (periods up to 35 days), and the same for GMST and GAST
   EO e; e.convention = conv(0); e.UT1mUTC = dut;
   ld a = wrap(e.GMST(w.e, true) - e.GMST(w.e, false)), b = wrap(e.GAST(w.e, true) - e.GAST(w.e, false));
   REQUIRE(fabsl(a) < 0.25L / 86400 * TP && fabsl(a - b) < 1e-9L, "tides change GMST by " << (double)a << " and GAST by " << (double)b << " rad");
   e.UT1mUTC = -dut;
   ld a2 = wrap(e.GMST(w.e, true) - e.GMST(w.e, false));
   REQUIRE(fabsl(a - a2) < 1e-9L, "the tidal correction depends on UT1-UTC: " << (double)a << " and " << (double)a2);
   if (g.oneIn(10)) {
      EO u; bool t1 = false, t2 = false, t3 = false;
      try { u.GMST(w.e); } catch (gk::Exception&) { t1 = true; } try { u.GAST(w.e); } catch (gk::Exception&) { t2 = true; } try { u.ECEFtoInertial(w.e); } catch (gk::Exception&) { t3 = true; }
      REQUIRE(t1 && t2 && t3, "an undefined convention was accepted"); g.label("no convention");
   }
}

KNOWN("iers2003-era")
{
   EO e; e.convention = conv(1); e.UT1mUTC = 0; e.xp = e.yp = 0; gk::EphTime t(54000, 1000., gk::TimeSystem::UTC);
   M3 A = of(e.ECEFtoInertial(t)), NP = of(e.PreciseEarthRotation(t)), W = of(e.PolarMotionMatrix(t));
   if (dist(A, tr(W * R(3, e.GAST(t)) * NP)) > 1e-6L && dist(A, tr(W * R(3, era(54000, 1000, 0)) * NP)) < 1e-9L) pbt::fail("ECEFtoInertial of the 2003 convention differs from polar motion x GAST x nutation x precession: it turns by the Earth rotation angle", "iers2003-era");
}

PROP(frames, 6000, 40000, "polar motion and UT1-UTC not all zero")
{
   When w = genWhen(g); double dut = genDut(g), xp = g.oneIn(4) ? 0 : g.range(-6000, 6000) / 1e4, yp = g.oneIn(4) ? 0 : g.range(-6000, 6000) / 1e4;
   g << " UT1-UTC=" << pbt::d2s(dut) << " xp=" << xp << " yp=" << yp; g.nontrivial(dut != 0 || xp != 0 || yp != 0);
   ld T = w.T(), dpsi, deps; nutation(T, dpsi, deps);
   M3 full[3];
   for (int k = 0; k < 3; k++) {
      EO e; e.convention = conv(k); e.UT1mUTC = dut; e.xp = xp; e.yp = yp;
      M3 W = of(e.PolarMotionMatrix(w.e)), P = of(e.PrecessionMatrix(w.e)), N = of(e.NutationMatrix(w.e)), A = of(e.ECEFtoInertial(w.e));
      rot(W, "polar motion"); rot(P, "precession"); rot(N, "nutation"); rot(A, "ECEFtoInertial");
      // polar motion: W = R1(-yp) R2(-xp) [R3(s')], to first order in these small angles
      M3 W0 = R(1, -yp * AS) * R(0, 0);
      W0 = k == 0 ? R(2, -xp * AS) * R(1, -yp * AS) : R(1, -yp * AS) * R(2, -xp * AS) * R(3, -0.000047L * AS * T);
      REQUIRE(dist(W, W0) < 1e-14L, "polar motion, convention " << k << ", off by " << (double)dist(W, W0));
      // precession: Lieske's angles (IAU 1976), the IAU 2000/2006 rate is 0.3"/century less, frame bias up to 0.02"
      ld z = T * (2306.2181L + T * (0.30188L + T * 0.017998L)) * AS, th = T * (2004.3109L - T * (0.42665L + T * 0.041833L)) * AS, z2 = T * (2306.2181L + T * (1.09468L + T * 0.018203L)) * AS;
      M3 P0 = R(3, -z2) * R(2, th) * R(3, -z);
      REQUIRE(dist(P, P0) < (k == 0 ? 1e-13L : (0.03L + 0.35L * fabsl(T)) * AS), "precession, convention " << k << ", off by " << (double)(dist(P, P0) / AS) << "\"");
      ld eps = (84381.448L - 46.815L * T) * AS;
      M3 N0 = R(1, -(eps + deps)) * R(3, -dpsi) * R(1, eps);
      REQUIRE(dist(N, N0) < 0.1L * AS, "nutation, convention " << k << ", off by " << (double)(dist(N, N0) / AS) << "\"");
      // composition: celestial to terrestrial = W R3(GAST) N P (with frame bias where the model has one)
      M3 NP = k == 2 ? of(e.PreciseEarthRotation(w.e)) : N * P;
      if (k == 1) REQUIRE(dist(NP, of(e.PreciseEarthRotation(w.e))) < 1e-13L, "PreciseEarthRotation is not nutation times precession");
      if (k == 2) REQUIRE(dist(NP, N * P) < 0.03L * AS, "PreciseEarthRotation differs from nutation times precession by " << (double)(dist(NP, N * P) / AS) << "\"");
      M3 C = tr(W * R(3, e.GAST(w.e)) * NP);
      // recorded: the 2003 convention turns N P, which refers to the equinox, by the Earth rotation angle
      if (k == 1 && dist(A, C) >= 1e-12L && dist(A, tr(W * R(3, era(w.du, w.su, dut)) * NP)) < 1e-9L) { g.label("recorded finding"); A = C; }
      REQUIRE(dist(A, C) < (k == 2 ? 1e-9L : 1e-12L), "ECEFtoInertial, convention " << k << ", differs from polar motion x GAST x nutation x precession by " << (double)(dist(A, C) / AS) << "\"");
      full[k] = A;
   }
   REQUIRE(dist(full[1], full[2]) < 0.005L * AS, "ECEFtoInertial of the 2003 and 2010 conventions differ by " << (double)(dist(full[1], full[2]) / AS) << "\"");
   REQUIRE(dist(full[0], full[2]) < (0.2L + 0.3L * fabsl(T)) * AS, "ECEFtoInertial of the 1996 and 2010 conventions differ by " << (double)(dist(full[0], full[2]) / AS) << "\"");
}

// ------------------------------------------------------------------ EOP store
struct E3 { double x, y, u; };
static E3 genE(G& g) { E3 e; e.x = g.range(-600000, 600000) / 1e6; e.y = g.range(-600000, 600000) / 1e6; e.u = g.range(-900000, 900000) / 1e6; return e; }
static EO mk(const E3& e) { EO o; o.xp = e.x; o.yp = e.y; o.UT1mUTC = e.u; return o; }
typedef std::map<int, E3> Model;
static void same(gk::EOPStore& s, const Model& m, const char* after)
{
   REQUIRE(s.size() == (int)m.size(), after << ": store holds " << s.size() << " entries, model " << m.size());
   REQUIRE(s.getFirstTimeMJD() == (m.empty() ? -1 : m.begin()->first) && s.getLastTimeMJD() == (m.empty() ? -1 : m.rbegin()->first), after << ": limits " << s.getFirstTimeMJD() << " to " << s.getLastTimeMJD() << ", model " << (m.empty() ? -1 : m.begin()->first) << " to " << (m.empty() ? -1 : m.rbegin()->first));
}
// the four days used for a time: the day before, the day, and two after, moved inwards at the ends of the store
static bool four(const Model& m, double mjd, Model::const_iterator out[4])
{
   if (m.size() < 4) return false;
   auto it = m.find((int)mjd); if (it == m.end() || std::next(it) == m.end()) return false;
   auto lo = it; if (it == m.begin()) lo = it; else { lo = std::prev(it); if (std::next(it, 2) == m.end()) lo = std::prev(lo); }
   for (int i = 0; i < 4; i++) { if (lo == m.end()) return false; out[i] = lo; ++lo; }
   return true;
}
static ld lagr(Model::const_iterator p[4], int what, ld t)
{
   ld r = 0;
   for (int i = 0; i < 4; i++) { ld v = what == 0 ? p[i]->second.x : what == 1 ? p[i]->second.y : p[i]->second.u; for (int j = 0; j < 4; j++) if (j != i) v *= (t - p[j]->first) / (ld)(p[i]->first - p[j]->first); r += v; }
   return r;
}
PROP(eopstore, 60000, 500000, "at least one value was interpolated")
{
   gk::EOPStore s, z; Model m; int base = g.range(44300, 62000), n = g.range(3, 40); bool any = false;
   for (int i = 0; i < n; i++) {
      int op = g.weighted({6, 2, 1, 4});
      if (op == 0) {
         int d = base + g.range(0, 14), k = g.range(1, 6); g << " add " << d << "x" << k;
         for (int j = 0; j < k; j++) { E3 e = genE(g); EO o = mk(e); s.addEOP(d + j, o); EO zero; z.addEOP(d + j, zero); m[d + j] = e; }
         same(s, m, "add");
      }
      else if (op == 1 && !m.empty()) {
         // a range that meets the time span of the store
         int a = m.begin()->first, b = m.rbegin()->first, lo = a + g.range(-3, b - a), hi = std::max(lo, a) + g.range(0, b - a + 3); if (g.flag()) std::swap(lo, hi);
         g << " edit " << lo << " " << hi; s.edit(lo, hi); z.edit(lo, hi); if (lo > hi) std::swap(lo, hi);
         for (auto it = m.begin(); it != m.end();) if (it->first < lo || it->first > hi) it = m.erase(it); else ++it;
         same(s, m, "edit");
      }
      else if (op == 2 && g.oneIn(4)) { g << " clear"; s.clear(); z.clear(); m.clear(); same(s, m, "clear"); }
      else {
         double t = base + g.range(-1, 22) + (g.oneIn(4) ? 0.0 : g.range(1, 1023) / 1024.0); int k = g.below(3);
         g << " get " << pbt::d2s(t);
         Model::const_iterator p[4]; bool ok = four(m, t, p), got = true; EO e, e0;
         try { e = s.getEOP(t, conv(k)); } catch (gk::InvalidRequest&) { got = false; }
         REQUIRE(ok == got, "value at " << t << (got ? " was given" : " was refused") << " with " << m.size() << " entries");
         if (!ok) continue;
         e0 = z.getEOP(t, conv(k)); any = true;
         REQUIRE(e.convention == conv(k), "convention of the result");
         // the same store with zeros leaves the tidal terms alone; these are small
         bool daily = p[3]->first - p[0]->first == 3;
         if (daily) REQUIRE(std::fabs(e0.xp) < 0.003 && std::fabs(e0.yp) < 0.003 && std::fabs(e0.UT1mUTC) < 0.002, "tides " << e0.xp << " " << e0.yp << " " << e0.UT1mUTC);
         ld x = lagr(p, 0, t), y = lagr(p, 1, t), u = lagr(p, 2, t);
         ld tol = daily ? 1e-9L : 1e-6L;
         REQUIRE(fabsl(e.xp - e0.xp - x) < tol && fabsl(e.yp - e0.yp - y) < tol && fabsl(e.UT1mUTC - e0.UT1mUTC - u) < tol, "at " << pbt::d2s(t) << " from " << p[0]->first << ".." << p[3]->first << ": " << pbt::d2s(e.xp - e0.xp) << " " << pbt::d2s(e.yp - e0.yp) << " " << pbt::d2s(e.UT1mUTC - e0.UT1mUTC) << " expected " << (double)x << " " << (double)y << " " << (double)u);
         if (t == (int)t) g.label("on a day"); else g.label("within a day");
         if (p[0]->first == (int)t) g.label("first day"); if (p[2]->first == (int)t) g.label("last day");
         if (!daily) g.label("with gaps");
      }
   }
   g.nontrivial(any);
}

PROP(eopfiles, 10000, 60000, "a file was read")
{
   std::string f = pbt::scratch() + "/eop.dat"; gk::EOPStore s; Model m;
   if (g.flag()) {
      // finals2000A.data: MJD in 8-15, pole x 19-27, pole y 38-46, UT1-UTC 59-68
      int d = g.range(41684, 62000), n = g.range(1, 30); std::string t; bool crlf = g.oneIn(4), bad = g.oneIn(8); g << "finals " << d << " x" << n;
      for (int i = 0; i < n; i++, d++) {
         E3 e = genE(g); e.u = std::round(e.u * 1e6) / 1e6;
         std::string l(187, ' '); auto put = [&](int c, const std::string& v) { l.replace(c, v.size(), v); };
         put(7, pbt::strf("%8.2f", (double)d)); put(16, "I"); put(18, pbt::strf("%9.6f", e.x)); put(27, pbt::strf("%9.6f", 0.000091)); put(37, pbt::strf("%9.6f", e.y)); put(46, pbt::strf("%9.6f", 0.000087)); put(57, "I"); put(58, pbt::strf("%10.7f", e.u)); put(68, pbt::strf("%10.7f", 0.0000103));
         if (g.oneIn(3)) l = l.substr(0, 100);
         t += l + (crlf ? "\r\n" : "\n"); m[d] = e;
      }
      if (bad) t += "too short\n";
      pbt::spit(f, t); bool thrown = false; bool direct = g.flag();
      try { if (direct) s.addIERSFile(f); else s.addFile(f); } catch (gk::FileMissingException&) { thrown = true; }
      REQUIRE(thrown == bad, "finals file " << (bad ? "with a short line accepted" : "refused"));
      g.nontrivial(!bad); g.label(bad ? "bad finals" : "finals");
      if (bad) return;
   }
   else {
      // NGA EOPP: the five lines of the prediction formula
      int v = g.range(50000, 62000); ld ta = v - g.range(0, 200), tb = v - g.range(0, 200);
      auto c = [&](int w, int p, double lim) { double x = std::round((2 * g.unit() - 1) * lim * std::pow(10, p)) / std::pow(10, p); (void)w; return x; };
      double A = c(10, 6, 0.3), B = c(10, 6, 0.001), C1 = c(10, 6, 0.2), C2 = c(10, 6, 0.2), D1 = c(10, 6, 0.2), D2 = c(10, 6, 0.2), P1 = 365.25, P2 = 435.0 + g.below(3), E = c(10, 6, 0.3), F = c(10, 6, 0.001), G1 = c(10, 6, 0.2), G2 = c(10, 6, 0.2), H1 = c(10, 6, 0.2), H2 = c(10, 6, 0.2), Q1 = 365.25, Q2 = 435.0 + g.below(3);
      double I = c(10, 6, 0.8), J = c(10, 6, 0.002), K[4], L[4], Rr[4] = {365.25, 182.625, 13.6608, 27.5546}; for (int i = 0; i < 4; i++) { K[i] = c(10, 6, 0.02); L[i] = c(10, 6, 0.02); Rr[i] += g.below(4) / 8.0; }
      int tai = g.range(19, 37), sn = g.range(1, 953);
      std::string t = pbt::strf("%10.2f%10.6f%10.6f%10.6f%10.6f%10.6f%10.6f%6.2f    \n", (double)ta, A, B, C1, C2, D1, D2, P1) + pbt::strf("%6.2f%10.6f%10.6f%10.6f%10.6f%10.6f%10.6f%6.2f%6.2f  \n", P2, E, F, G1, G2, H1, H2, Q1, Q2)
         + pbt::strf("%10.2f%10.6f%10.6f%10.6f%10.6f%10.6f%10.6f          \n", (double)tb, I, J, K[0], K[1], K[2], K[3]) + pbt::strf("%10.6f%10.6f%10.6f%10.6f%9.4f%9.4f%9.4f%9.4f    \n", L[0], L[1], L[2], L[3], Rr[0], Rr[1], Rr[2], Rr[3]) + pbt::strf("%4d%5d%6d %-19s%45s", tai, sn, v, "0.00000 test", "") + (g.flag() ? "\n" : "");
      pbt::spit(f, t); g << "eopp " << v; g.nontrivial(true); g.label("eopp");
      gk::EOPPrediction ep; REQUIRE(ep.loadFile(f) == 0, "loadFile"); REQUIRE(ep.getValidTime() == v && ep.TAIUTC == tai && ep.SerialNo == sn, "header of the prediction: " << ep.getValidTime() << " " << ep.TAIUTC << " " << ep.SerialNo);
      // per the format document: P1 and P2 are periods in days
      auto want = [&](ld x) { E3 e; ld dt = x - ta, du = x - tb; e.x = (double)(A + B * dt + C1 * sinl(TP * dt / P1) + D1 * cosl(TP * dt / P1) + C2 * sinl(TP * dt / P2) + D2 * cosl(TP * dt / P2)); e.y = (double)(E + F * dt + G1 * sinl(TP * dt / Q1) + H1 * cosl(TP * dt / Q1) + G2 * sinl(TP * dt / Q2) + H2 * cosl(TP * dt / Q2)); ld u = I + J * du; for (int i = 0; i < 4; i++) u += K[i] * sinl(TP * du / Rr[i]) + L[i] * cosl(TP * du / Rr[i]); e.u = (double)u; return e; };
      double x = v + g.range(0, 7 * 1024) / 1024.0; EO e = ep.computeEOP(x); E3 w = want(x);
      REQUIRE(std::fabs(e.xp - w.x) < 1e-10 && std::fabs(e.yp - w.y) < 1e-10 && std::fabs(e.UT1mUTC - w.u) < 1e-10, "prediction at " << x << ": " << e.xp << " " << e.yp << " " << e.UT1mUTC << " expected " << w.x << " " << w.y << " " << w.u);
      std::ostringstream os; os << ep; std::string back = os.str(); size_t nl = 0; std::istringstream a(back), b(t); std::string l1, l2;
      for (; nl < 5 && std::getline(a, l1) && std::getline(b, l2); nl++) { while (!l1.empty() && l1.back() == ' ') l1.pop_back(); while (!l2.empty() && l2.back() == ' ') l2.pop_back(); REQUIRE(l1 == l2, "line " << nl << " written as " << pbt::q(l1) << " read from " << pbt::q(l2)); }
      REQUIRE(nl == 5, "five lines");
      if (g.flag()) s.addFile(f); else s.addEOPPFile(f);
      for (int i = 0; i < 7; i++) m[v + i] = want(v + i);
      if (g.oneIn(3)) { int extra = v + g.range(-5, 12); s.addEOP(extra, ep); m[extra] = want(extra); }
   }
   same(s, m, "file");
   gk::EOPStore z; for (auto& x : m) { EO o; z.addEOP(x.first, o); }
   for (int i = 0; i < 4; i++) {
      double t = m.begin()->first + (m.rbegin()->first - m.begin()->first) * (double)g.below(1024) / 1024.0; Model::const_iterator p[4];
      if (!four(m, t, p)) continue;
      EO e = s.getEOP(t, conv(2)), e0 = z.getEOP(t, conv(2));
      REQUIRE(fabsl(e.xp - e0.xp - lagr(p, 0, t)) < 1e-6L && fabsl(e.yp - e0.yp - lagr(p, 1, t)) < 1e-6L && fabsl(e.UT1mUTC - e0.UT1mUTC - lagr(p, 2, t)) < 1e-6L, "values read from the file, at " << pbt::d2s(t) << ": " << e.xp - e0.xp << " " << e.yp - e0.yp << " " << e.UT1mUTC - e0.UT1mUTC);
   }
}

PROP(eopserial, 16000, 60000, "the day lies in the first or last fortnight of a year")
{
   long d = g.range(45000, 73000); g << "MJD " << d;
   // last digit of the year, and number of the week in it, of the Friday of the week (Sunday to Saturday) before
   long sun = d - ((d - 44244) % 7) - 7, fri = sun + 5; int y = 1979; long j = 43874; for (;;) { int len = gp::leap(y, true) ? 366 : 365; if (fri < j + len) break; j += len; y++; }
   int n = 0; for (long q = j; q <= fri; q++) if ((q - 44244) % 7 == 5) n++;
   g.nontrivial(fri - j < 14 || fri - j > 350);
   REQ_EQ(gk::EOPPrediction::getSerialNumber((int)d), (y % 10) * 100 + n, "serial number");
}

// ------------------------------------------------------------------ sun and moon
static ld gmstUT(ld jd) { ld T = (jd - 2451545.0L) / 36525.0L, s = frac(jd - 0.5L) * 86400; return TP * frac((24110.54841L + s + T * (8640184.812866L + T * (0.093104L - T * 6.2e-6L))) / 86400.0L); }
static void ecef(ld lam, ld bet, ld eps, ld r, ld th, ld o[3])
{
   ld x = cosl(bet) * cosl(lam), y = cosl(bet) * sinl(lam), z = sinl(bet), Y = y * cosl(eps) - z * sinl(eps), Z = y * sinl(eps) + z * cosl(eps);
   o[0] = r * (x * cosl(th) + Y * sinl(th)); o[1] = r * (-x * sinl(th) + Y * cosl(th)); o[2] = r * Z;
}
static void sunRef(ld jd, ld o[3])
{
   ld T = (jd - 2451545.0L) / 36525.0L, L0 = 280.46646L + T * (36000.76983L + T * 0.0003032L), M = (357.52911L + T * (35999.05029L - T * 0.0001537L)) * DEG, e = 0.016708634L - T * (0.000042037L + T * 0.0000001267L);
   ld C = (1.914602L - T * 0.004817L) * sinl(M) + (0.019993L - 0.000101L * T) * sinl(2 * M) + 0.000289L * sinl(3 * M), nu = M + C * DEG, r = 1.000001018L * (1 - e * e) / (1 + e * cosl(nu));
   ld lam = (L0 + C - 0.00569L) * DEG; ecef(lam, 0, (23.4392911L - 0.0130042L * T) * DEG, r * 149597870700.0L, gmstUT(jd), o);
}
static void moonRef(ld jd, ld o[3])
{
   ld T = (jd - 2451545.0L) / 36525.0L, Lp = 218.3164477L + 481267.88123421L * T - 0.0015786L * T * T, D = (297.8501921L + 445267.1114034L * T - 0.0018819L * T * T) * DEG, M = (357.5291092L + 35999.0502909L * T) * DEG, A = (134.9633964L + 477198.8675055L * T + 0.0087414L * T * T) * DEG, F = (93.2720950L + 483202.0175233L * T - 0.0036539L * T * T) * DEG;
   ld l = 6.288774L * sinl(A) + 1.274027L * sinl(2 * D - A) + 0.658314L * sinl(2 * D) + 0.213618L * sinl(2 * A) - 0.185116L * sinl(M) - 0.114332L * sinl(2 * F) + 0.058793L * sinl(2 * D - 2 * A) + 0.057066L * sinl(2 * D - M - A) + 0.053322L * sinl(2 * D + A) + 0.045758L * sinl(2 * D - M) - 0.040923L * sinl(M - A) - 0.034720L * sinl(D) - 0.030383L * sinl(M + A) + 0.015327L * sinl(2 * D - 2 * F);
   ld b = 5.128122L * sinl(F) + 0.280602L * sinl(A + F) + 0.277693L * sinl(A - F) + 0.173237L * sinl(2 * D - F) + 0.055413L * sinl(2 * D - A + F) + 0.046271L * sinl(2 * D - A - F) + 0.032573L * sinl(2 * D + F) + 0.017198L * sinl(2 * A + F);
   ld r = 385000.56L - 20905.355L * cosl(A) - 3699.111L * cosl(2 * D - A) - 2955.968L * cosl(2 * D) - 569.925L * cosl(2 * A) + 48.888L * cosl(M) - 3.149L * cosl(2 * F) + 246.158L * cosl(2 * D - 2 * A) - 152.138L * cosl(2 * D - M - A) - 170.733L * cosl(2 * D + A) - 204.586L * cosl(2 * D - M) - 129.620L * cosl(M - A) + 108.743L * cosl(D) + 104.755L * cosl(M + A);
   ecef((Lp + l) * DEG, b * DEG, (23.4392911L - 0.0130042L * T) * DEG, r * 1000, gmstUT(jd), o);
}
static ld ang(const ld a[3], const ld b[3]) { ld c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; return atan2l(sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / DEG; }
static ld len(const ld a[3]) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
PROP(sunmoon, 120000, 1000000, "any epoch")
{
   long d = g.oneIn(6) ? 51544 + g.range(-3, 3) : g.range(15080, 88126); double s = g.oneIn(4) ? 43200.0 * g.below(2) : g.range(0, 86399) + 0.25 * g.below(4);
   g << "MJD " << d << " " << pbt::d2s(s); g.nontrivial(true); if (d < 51544) g.label("before 2000"); else g.label("after 2000");
   gk::CommonTime t = gk::MJD((ld)d + (ld)s / 86400.0L, gk::TimeSystem::UTC).convertToCommonTime(); ld jd = 2400000.5L + d + (ld)s / 86400.0L;
   ld sr[3], mr[3]; sunRef(jd, sr); moonRef(jd, mr); double ar = 0, am = 0;
   gk::Position sp = gk::SolarPosition(t, ar), lp = gk::LunarPosition(t, am); gk::Triple s2 = gk::SunPosition().getPosition(t), m2 = gk::MoonPosition().getPosition(t);
   ld a[3] = {sp.X(), sp.Y(), sp.Z()}, b[3] = {s2[0], s2[1], s2[2]}, c[3] = {lp.X(), lp.Y(), lp.Z()}, e[3] = {m2[0], m2[1], m2[2]};
   REQUIRE(ang(a, sr) < 0.025L && fabsl(len(a) / len(sr) - 1) < 4e-4L, "SolarPosition is " << (double)ang(a, sr) << " deg and " << (double)(len(a) / len(sr) - 1) << " of the distance away from the sun");
   REQUIRE(fabsl(ar - asinl(6.9634e8L / len(sr)) / DEG) < 0.001L, "angular radius of the sun " << ar);
   REQUIRE(ang(b, sr) < 0.04L && fabsl(len(b) / len(sr) - 1) < 4e-4L, "SunPosition is " << (double)ang(b, sr) << " deg and " << (double)(len(b) / len(sr) - 1) << " of the distance away from the sun");
   REQUIRE(ang(c, mr) < 0.6L && fabsl(len(c) / len(mr) - 1) < 0.006L, "LunarPosition is " << (double)ang(c, mr) << " deg and " << (double)(len(c) / len(mr) - 1) << " of the distance away from the moon");
   REQUIRE(fabsl(am - asinl(1.7374e6L / len(mr)) / DEG) < 0.003L, "angular radius of the moon " << am << " deg");
   REQUIRE(ang(e, mr) < 0.15L && fabsl(len(e) / len(mr) - 1) < 0.002L, "MoonPosition is " << (double)ang(e, mr) << " deg and " << (double)(len(e) / len(mr) - 1) << " of the distance away from the moon");
   ld th = gk::UTC2SID(t) / 24 * TP; REQUIRE(fabsl(wrap(th - gmstUT(jd))) < 1e-8L, "UTC2SID " << pbt::d2s(gk::UTC2SID(t)) << " h, sidereal time is " << (double)(gmstUT(jd) / TP * 24));
   gk::Triple ci = gk::SunPosition().getPositionCIS(t), back = gk::CIS2CTS(ci, t); for (int k = 0; k < 3; k++) REQUIRE(back[k] == s2[k], "getPosition is getPositionCIS turned by CIS2CTS");
   double lat, lon; gk::CrudeSolarPosition(t, lat, lon);
   ld slat = asinl(sr[2] / len(sr)) / DEG, slon = atan2l(sr[1], sr[0]);
   REQUIRE(fabsl(lat - slat) < 2.5L && fabsl(wrap(lon * DEG - slon)) < 13 * DEG, "CrudeSolarPosition " << lat << " " << lon << ", the sun is over " << (double)slat << " " << (double)(slon / DEG));
}

PROP(sunrange, 1200, 3000, "outside the span of the theory")
{
   long d = g.flag() ? 15078 - g.range(1, 4000) : 88126 + g.range(1, 4000); g << "MJD " << d; g.nontrivial(true); bool a = false, b = false;
   gk::CommonTime t = gk::MJD((ld)d, gk::TimeSystem::UTC).convertToCommonTime();
   try { gk::SunPosition().getPosition(t); } catch (gk::InvalidRequest&) { a = true; } try { gk::MoonPosition().getPosition(t); } catch (gk::InvalidRequest&) { b = true; }
   REQUIRE(a && b, "an epoch outside 1900-2100 was accepted");
}

PROP(shadow, 240000, 2000000, "partly covered")
{
   double Re = g.real(0.01, 1.3), Rs = g.weighted({3, 1}) == 0 ? Re * g.real(0.001, 1.0) : g.real(0.01, 1.3), d;
   switch (g.below(4)) { case 0: d = Re * g.unit(); break; case 1: d = std::fabs(Re - Rs) + 2 * std::min(Re, Rs) * g.unit(); break; case 2: d = std::fabs(Re - Rs) * g.unit(); break; default: d = (Re + Rs) * g.real(0.9, 1.2); }
   g << "earth " << pbt::d2s(Re) << " sun " << pbt::d2s(Rs) << " distance " << pbt::d2s(d);
   ld R = Re, r = Rs, L = d, w; if (L >= R + r) w = 0; else if (L <= fabsl(R - r)) w = R >= r ? 1 : (R / r) * (R / r);
   else { ld x = (L * L + R * R - r * r) / (2 * L), y2 = R * R - x * x, y = y2 > 0 ? sqrtl(y2) : 0, A = R * R * atan2l(y, x) - x * y + r * r * atan2l(y, L - x) - (L - x) * y; w = A / (PI_ * r * r); g.nontrivial(true); if (L - x < 0) g.label("more than half, edge behind the centre"); }
   if (Rs > Re) g.label("earth smaller than the sun");
   double v = gk::shadowFactor(Re, Rs, d); REQUIRE(std::isfinite(v) && fabsl(v - w) < 1e-5L, "covered fraction " << pbt::d2s(v) << " expected " << pbt::d2s((double)w));
}
PBT_MAIN
