// G02: azimuth, elevation, range, local frames, pierce points, curvature against an independent frame in long double
#include "pbt.hpp"
#include "Position.hpp"
#include "WGS84Ellipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "ENUUtil.hpp"
#include "NEDUtil.hpp"
#include "RACRotation.hpp"
#include "Triple.hpp"
#include "Xvt.hpp"
using namespace std;
using namespace gpstk;
using pbt::d2s;
typedef long double L;
static const L PIL = 3.14159265358979323846264338327950288L, D2R = PIL / 180;
struct V { L x, y, z; };
static V operator+(V a, V b) { return V{a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return V{a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(L s, V a) { return V{s * a.x, s * a.y, s * a.z}; }
static L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return V{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static L mag(V a) { return std::sqrt(dot(a, a)); }
struct Frame { V e, n, u; };
static Frame frame(L lat, L lon) { Frame f; L sl = std::sin(lat), cl = std::cos(lat), so = std::sin(lon), co = std::cos(lon); f.u = V{cl * co, cl * so, sl}; f.e = V{-so, co, 0}; f.n = cross(f.u, f.e); return f; }
static double genLat(pbt::G& g) { switch (g.below(5)) { case 0: return g.pick({0., 45., -30., 89.9, -89.99}); case 1: return (g.flag() ? -1 : 1) * (90 - g.logReal(-3, 0, false)); default: return g.real(-90, 90); } }
static double genLon(pbt::G& g) { switch (g.below(4)) { case 0: return g.pick({0., 90., 180., 270., 359.999}); default: return g.real(0, 360); } }
static double adiff(double a, double b) { double d = std::fmod(std::fabs(a - b), 360); return std::min(d, 360 - d); }
static V vec(const Position& P) { return V{P.X(), P.Y(), P.Z()}; }
static const Position::CoordinateSystem SYS[] = {Position::Geodetic, Position::Geocentric, Position::Cartesian, Position::Spherical};

PROP(angles, 80000, 800000, "target off the vertical, receiver off the equator")
{
   static WGS84Ellipsoid w; static PZ90Ellipsoid pz; EllipsoidModel* e = g.flag() ? (EllipsoidModel*)&w : &pz; double lat = genLat(g), lon = genLon(g), h = g.pick({0., 120., -50., 3000., 5e5}); Position R(lat, lon, h, Position::Geodetic, e); V r = vec(R); int rs = g.below(4);
   // target by elevation, azimuth and distance in one of the two frames
   double el, az, d; switch (g.below(4)) { case 0: el = g.pick({90., -90., 0., 89.9999, 45.}); break; default: el = g.real(-90, 90); } az = g.flag() ? g.real(0, 360) : g.pick({0., 90., 180., 270., 359.9999999}); d = g.logReal(0, 7.7, false); bool geo = g.flag(); L clat = std::atan2(r.z, std::sqrt(r.x * r.x + r.y * r.y));
   Frame fg = frame(lat * D2R, lon * D2R), fc = frame(clat, lon * D2R); Frame& f = geo ? fg : fc; L ce = std::cos(el * D2R), se = std::sin(el * D2R); V t = r + (L)d * (ce * std::sin(az * D2R) * f.e + ce * std::cos(az * D2R) * f.n + se * f.u); g << "lat " << d2s(lat) << " lon " << d2s(lon) << " h " << d2s(h) << " el " << d2s(el) << " az " << d2s(az) << " d " << d2s(d) << (geo ? " geodetic" : " geocentric");
   Position T((double)t.x, (double)t.y, (double)t.z, Position::Cartesian, e); if (mag(t) < 6.3e6) return; double pos = 1e-8 + 2e-16 * (double)mag(t); if (d > 1e5 && g.flag()) { T.transformTo(SYS[g.below(4)]); pos = 2e-4; } if (g.flag()) { R.transformTo(SYS[rs]); pos = std::max(pos, 2e-3); if (d < 1e5) return; } t = vec(T);
   V z = t - r; L dist = mag(z); if (std::fabs(el) < 89.9 && std::fabs(lat) > 1) g.nontrivial();
   for (int k = 0; k < 2; ++k)
   {
      Frame& q = k ? fg : fc; L up = dot(z, q.u), ea = dot(z, q.e), no = dot(z, q.n), ho = std::sqrt(ea * ea + no * no); double want = (double)(std::atan2(up, ho) / D2R), waz = (double)(std::atan2(ea, no) / D2R); if (waz < 0) waz += 360; double ta = (double)(pos / dist / D2R) + 1e-10, s = (double)(ho / dist); double te = ta + 57.3 * std::min(4e-8, 4e-16 / std::max(s, 1e-12)) + 1e-11;
      double ge = k ? R.elevationGeodetic(T) : R.elevation(T); REQ_NEAR(ge, want, te, (k ? "geodetic" : "geocentric") << " elevation"); REQUIRE(ge >= -90 && ge <= 90, "elevation out of range");
      if (ho > 1e-3) { double ga = k ? R.azimuthGeodetic(T) : R.azimuth(T); double tz = (double)((pos + 2e-13 * dist) / ho / D2R) + 1e-10 + (k && rs != 0 ? 1e-6 : 0); tz *= 3; REQUIRE(adiff(ga, waz) <= tz, (k ? "geodetic" : "geocentric") << " azimuth " << d2s(ga) << " expected " << d2s(waz) << " tolerance " << tz); REQUIRE(ga >= 0 && ga <= 360, "azimuth out of range " << d2s(ga)); }
   }
   REQ_NEAR(range(R, T), (double)dist, 2 * pos + 1e-15 * (double)dist, "range"); REQ_NEAR(range(R, T), range(T, R), 0, "range symmetry");
   bool t1 = false, t2 = false, t3 = false; try { R.elevation(R); } catch (GeometryException&) { t1 = true; } try { R.elevationGeodetic(R); } catch (GeometryException&) { t2 = true; } try { R.azimuthGeodetic(R); } catch (GeometryException&) { t3 = true; } REQUIRE(t1 && t2 && t3, "angles to the receiver itself not refused");
}
PROP(rotations, 80000, 800000, "always")
{
   g.nontrivial(); double lat = genLat(g), lon = g.flag() ? genLon(g) : -genLon(g); double s = g.logReal(-3, 8, false); V v{(L)(g.real(-1, 1) * s), (L)(g.real(-1, 1) * s), (L)(g.real(-1, 1) * s)}, w{(L)g.real(-5e3, 5e3), (L)g.real(-5e3, 5e3), (L)g.real(-5e3, 5e3)}; v = V{(double)v.x, (double)v.y, (double)v.z}; w = V{(double)w.x, (double)w.y, (double)w.z}; g << "lat " << d2s(lat) << " lon " << d2s(lon) << " v " << d2s((double)v.x) << " " << d2s((double)v.y) << " " << d2s((double)v.z); double t = 1e-15 * s * 10, tw = 1e-10;
   double la = (double)(lat * D2R), lo = (double)(lon * D2R); Frame f = frame(la, lo); ENUUtil en(la, lo); NEDUtil ne(la, lo); if (g.flag()) { ENUUtil a(0.1, 0.2); a.updatePosition(la, lo); en = a; NEDUtil b(0.3, -1); b.updatePosition(la, lo); ne = b; }
   Triple T((double)v.x, (double)v.y, (double)v.z), W((double)w.x, (double)w.y, (double)w.z); Vector<double> vv(3); for (int i = 0; i < 3; ++i) vv(i) = T[i]; Xvt xv; xv.x = T; xv.v = W; xv.clkbias = 1e-4; xv.clkdrift = 2e-9; xv.relcorr = -3e-8; L ev[3] = {dot(v, f.e), dot(v, f.n), dot(v, f.u)}, ew[3] = {dot(w, f.e), dot(w, f.n), dot(w, f.u)};
   Triple a = en.convertToENU(T), b = ne.convertToNED(T); Vector<double> av = en.convertToENU(vv), bv = ne.convertToNED(vv); Xvt ax = en.convertToENU(xv), bx = ne.convertToNED(xv);
   static const int M[3] = {1, 0, 2}; for (int i = 0; i < 3; ++i) { double sg = i == 2 ? -1 : 1; REQ_NEAR(a[i], (double)ev[i], t, "ENU component " << i); REQ_EQ(av(i), a[i], "Vector form"); REQ_EQ(ax.x[i], a[i], "Xvt position"); REQ_NEAR(ax.v[i], (double)ew[i], tw, "Xvt velocity"); REQ_NEAR(b[i], sg * (double)ev[M[i]], t, "NED component " << i); REQ_EQ(bv(i), b[i], "Vector form"); REQ_EQ(bx.x[i], b[i], "Xvt position"); REQ_NEAR(bx.v[i], sg * (double)ew[M[i]], tw, "NED velocity"); }
   REQUIRE(ax.clkbias == xv.clkbias && ax.clkdrift == xv.clkdrift && ax.relcorr == xv.relcorr && bx.clkbias == xv.clkbias && bx.clkdrift == xv.clkdrift && bx.relcorr == xv.relcorr, "clock lost"); bool th = false; try { Vector<double> x4(4); en.convertToENU(x4); } catch (Exception&) { try { Vector<double> x2(2); ne.convertToNED(x2); } catch (Exception&) { th = true; } } REQUIRE(th, "vector of wrong length accepted");
   // radial, along, cross
   V r = (L)(2.6e7 / std::max<L>(mag(v), 1e-30)) * v; r = V{(double)r.x, (double)r.y, (double)r.z}; L sinang = mag(cross(r, w)) / (mag(r) * std::max<L>(mag(w), 1e-9)); if (sinang > 1e-3 && mag(w) > 1)
   {
      V ru = (1 / mag(r)) * r, c = cross(r, w), cu = (1 / mag(c)) * c, au = cross(cu, ru); Triple Rt((double)r.x, (double)r.y, (double)r.z); Xvt o; o.x = Rt; o.v = W; RACRotation q(Rt, W), q2(o); V rows[3] = {ru, au, cu}; double tt = (double)(1e-14L / sinang); for (int i = 0; i < 3; ++i) { REQ_NEAR(q(i, 0), (double)rows[i].x, tt, "rotation row " << i); REQ_NEAR(q(i, 1), (double)rows[i].y, tt, "rotation row " << i); REQ_NEAR(q(i, 2), (double)rows[i].z, tt, "rotation row " << i); for (int j = 0; j < 3; ++j) REQ_EQ(q2(i, j), q(i, j), "rotation from Xvt"); }
      Triple x = q.convertToRAC(T); Vector<double> xv2 = q.convertToRAC(vv); Xvt y = q.convertToRAC(xv); for (int i = 0; i < 3; ++i) { REQ_NEAR(x[i], (double)dot(v, rows[i]), tt * s * 4, "RAC component " << i); REQ_EQ(xv2(i), x[i], "Vector form"); REQ_EQ(y.x[i], x[i], "Xvt position"); REQ_NEAR(y.v[i], (double)dot(w, rows[i]), tt * 1e5, "Xvt velocity"); } REQUIRE(y.clkbias == xv.clkbias && y.clkdrift == xv.clkdrift && y.relcorr == xv.relcorr, "clock lost");
   }
   // Triple
   Triple U((double)w.x / 5e3, (double)w.y / 5e3, (double)w.z / 5e3); V u{U[0], U[1], U[2]}; Triple C = T.cross(U); V c = cross(v, u); REQ_NEAR(T.dot(U), (double)dot(v, u), t, "dot"); REQ_NEAR(C[0], (double)c.x, t, "cross"); REQ_NEAR(C[1], (double)c.y, t, "cross"); REQ_NEAR(C[2], (double)c.z, t, "cross"); REQ_NEAR(T.mag(), (double)mag(v), t, "mag"); REQ_NEAR(T.slantRange(U), (double)mag(v - u), t + 1e-15, "slantRange");
   if (mag(v) > 1e-6 && mag(u) > 1e-6) { REQ_NEAR(T.cosVector(U), (double)(dot(v, u) / (mag(v) * mag(u))), 1e-14, "cosVector"); REQ_NEAR(T.cosVector(T), 1, 1e-15, "cosVector with itself"); REQ_NEAR(T.unitVector()[1], (double)(v.y / mag(v)), 1e-15, "unitVector"); } bool tz = false; try { Triple(0, 0, 0).unitVector(); } catch (GeometryException&) { tz = true; } REQUIRE(tz, "unit vector of zero");
   double an = g.flag() ? g.real(-720, 720) : 90 * g.rangeO(-4, 4, 0); L ca = std::cos(an * D2R), sa = std::sin(an * D2R); Triple r1 = T.R1(an), r2 = T.R2(an), r3 = T.R3(an); double ta = t + 1e-12 * s; REQ_EQ(r1[0], T[0], "R1"); REQ_NEAR(r1[1], (double)(ca * v.y + sa * v.z), ta, "R1"); REQ_NEAR(r1[2], (double)(-sa * v.y + ca * v.z), ta, "R1"); REQ_NEAR(r2[0], (double)(ca * v.x - sa * v.z), ta, "R2"); REQ_EQ(r2[1], T[1], "R2"); REQ_NEAR(r2[2], (double)(sa * v.x + ca * v.z), ta, "R2"); REQ_NEAR(r3[0], (double)(ca * v.x + sa * v.y), ta, "R3"); REQ_NEAR(r3[1], (double)(-sa * v.x + ca * v.y), ta, "R3"); REQ_EQ(r3[2], T[2], "R3");
   Triple sum = T + U, dif = T - U, sc = 3.0 * T; REQUIRE(sum[0] == T[0] + U[0] && sum[2] == T[2] + U[2] && dif[1] == T[1] - U[1] && sc[2] == 3 * T[2] && T == Triple(T[0], T[1], T[2]) && !(T == sc && s > 0 && mag(v) > 0), "Triple arithmetic"); vector<double> sv = T.toStdVector(); Vector<double> gv = T.toVector(); REQUIRE(sv.size() == 3 && gv.size() == 3, "sizes"); for (int i = 0; i < 3; ++i) REQUIRE(sv[i] == T[i] && gv(i) == T[i], "component " << i);
}
PROP(pierce, 60000, 600000, "pierce point more than one degree from the receiver")
{
   static WGS84Ellipsoid e; double clat = genLat(g), lon = genLon(g), el = g.flag() ? g.real(0, 90) : g.pick({0., 90., 5., 89.99}), az = g.flag() ? g.real(0, 360) : g.pick({0., 90., 180., 270.}), ht = g.pick({450000., 350000., 1e5, 5e6}); Position R(clat, lon, e.a(), Position::Geocentric, &e); int s = g.below(4); R.transformTo(SYS[s]); g << "lat " << d2s(clat) << " lon " << d2s(lon) << " el " << d2s(el) << " az " << d2s(az) << " height " << ht << " form " << s;
   Position I = R.getIonosphericPiercePoint(el, az, ht); REQUIRE(I.getCoordinateSystem() == SYS[s], "form of the pierce point"); REQ_NEAR(I.radius(), e.a() + ht, 2e-3, "pierce point height"); REQUIRE(I.longitude() >= 0 && I.longitude() < 360, "longitude " << d2s(I.longitude()));
   V r = vec(R); Frame f = frame(clat * D2R, lon * D2R); L ce = std::cos(el * D2R), se = std::sin(el * D2R); V u = ce * std::sin(az * D2R) * f.e + ce * std::cos(az * D2R) * f.n + se * f.u; r = (L)e.a() * f.u; L b = dot(r, u), cc = (L)e.a() * e.a() - ((L)e.a() + ht) * ((L)e.a() + ht), t = -b + std::sqrt(b * b - cc); V want = r + t * u, got = vec(I); double d = (double)mag(got - want); REQUIRE(d < 0.6, "pierce point off the line of sight by " << d2s(d) << " m"); if (std::acos((double)(dot(want, r) / mag(want) / mag(r))) > 0.0175) g.nontrivial();
   REQUIRE(R.getCoordinateSystem() == SYS[s], "receiver was transformed");
}
PROP(curvature, 40000, 400000, "latitude not 0 or 90")
{
   static WGS84Ellipsoid w; static PZ90Ellipsoid pz; EllipsoidModel* e = g.flag() ? (EllipsoidModel*)&w : &pz; double lat = genLat(g), lon = genLon(g); Position R(lat, lon, g.pick({0., 1000.}), Position::Geodetic, e); if (g.flag()) R.transformTo(SYS[g.below(4)]); g << "lat " << d2s(lat); if (lat != 0 && std::fabs(lat) < 89.99) g.nontrivial(); L A = e->a(), e2 = e->eccSquared(), s = std::sin(lat * D2R), W = std::sqrt(1 - e2 * s * s);
   REQ_NEAR(R.getCurvMeridian(), (double)(A * (1 - e2) / (W * W * W)), 1e-3, "meridian radius of curvature"); REQ_NEAR(R.getCurvPrimeVertical(), (double)(A / W), 1e-3, "prime vertical radius"); L N = A / W, c = std::cos(lat * D2R), x = N * c, z = N * (1 - e2) * s; REQ_NEAR(R.radiusEarth(), (double)std::sqrt(x * x + z * z), 1e-3, "radius of the ellipsoid"); REQ_NEAR(Position::radiusEarth(lat, e->a(), e->eccSquared()), (double)std::sqrt(x * x + z * z), 1e-6, "radius of the ellipsoid");
}
PBT_MAIN
