// G01: Position conversions against closed forms in long double, chains of conversions, text, arithmetic, refusals
#include "pbt.hpp"
#include "Position.hpp"
#include "WGS84Ellipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "CGCS2000Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "GalileoEllipsoid.hpp"
#include "Xvt.hpp"
#include <cmath>
using namespace std;
using namespace gpstk;
using pbt::d2s; using pbt::strf;
typedef long double L;
static const L PIL = 3.14159265358979323846264338327950288L, D2R = PIL / 180;
static EllipsoidModel* model(int i) { static WGS84Ellipsoid a; static PZ90Ellipsoid b; static CGCS2000Ellipsoid c; static GPSEllipsoid d; static GalileoEllipsoid e; EllipsoidModel* m[] = {&a, &b, &c, &d, &e}; return m[i]; }
struct Ref { L x, y, z, lat, lon, h, clat, r, p; };   // degrees and metres
static void rest(Ref& q) { q.p = std::sqrt(q.x * q.x + q.y * q.y); q.r = std::sqrt(q.p * q.p + q.z * q.z); q.clat = std::atan2(q.z, q.p) / D2R; q.lon = std::atan2(q.y, q.x) / D2R; if (q.lon < 0) q.lon += 360; }
static Ref fromGeodetic(L lat, L lon, L h, L A, L e2) { Ref q; L s = std::sin(lat * D2R), c = std::cos(lat * D2R), N = A / std::sqrt(1 - e2 * s * s); q.x = (N + h) * c * std::cos(lon * D2R); q.y = (N + h) * c * std::sin(lon * D2R); q.z = (N * (1 - e2) + h) * s; q.lat = lat; q.h = h; rest(q); return q; }
static Ref fromXYZ(L x, L y, L z, L A, L e2) { Ref q; q.x = x; q.y = y; q.z = z; rest(q); L f = std::atan2(z, q.p * (1 - e2)); for (int i = 0; i < 60; ++i) { L s = std::sin(f), N = A / std::sqrt(1 - e2 * s * s); f = std::atan2(z + e2 * N * s, q.p); } L s = std::sin(f), N = A / std::sqrt(1 - e2 * s * s); q.h = q.p * std::cos(f) + z * s - A * A / N; q.lat = f / D2R; return q; }
static double genLat(pbt::G& g) { switch (g.below(5)) { case 0: return g.pick({90., -90., 0., 45., 89.999999, -89.9999999, 89.99}); case 1: return (g.flag() ? -1 : 1) * (90 - g.logReal(-12, 0, false)); case 2: return g.logReal(-12, 0, true); default: return g.real(-90, 90); } }
static double genLon(pbt::G& g) { switch (g.below(4)) { case 0: return g.pick({0., 90., 180., 270., 359.9999999, 1e-9, 45.}); case 1: return std::max(0., std::min(359.99999999, g.range(0, 4) * 90 + g.logReal(-9, 0, true))); default: return g.real(0, 360); } }
static double genH(pbt::G& g) { switch (g.below(5)) { case 0: return 0; case 1: return g.real(-10000, 10000); case 2: return g.real(2e5, 5e7); case 3: return g.pick({-1000., 2.02e7, 3.5786e7}); default: return g.rangeO(-500, 9000, 0); } }
static double lonDiff(L a, L b) { L d = std::fmod(a - b, 360.0L); if (d > 180) d -= 360; if (d < -180) d += 360; return std::fabs((double)d); }
static void compare(const Position& P, const Ref& q, double tol, const char* what)
{
   REQ_NEAR(P.X(), (double)q.x, tol, what << " X"); REQ_NEAR(P.Y(), (double)q.y, tol, what << " Y"); REQ_NEAR(P.Z(), (double)q.z, tol, what << " Z");
   double R = (double)q.r; REQ_NEAR(P.radius(), R, tol, what << " radius"); REQ_NEAR(P.height(), (double)q.h, tol, what << " height");
   double deg = tol / R / (double)D2R; REQ_NEAR(P.geodeticLatitude(), (double)q.lat, deg, what << " geodetic latitude"); REQ_NEAR(P.geocentricLatitude(), (double)q.clat, deg, what << " geocentric latitude"); REQ_NEAR(P.theta(), 90 - (double)q.clat, deg, what << " theta");
   if (q.p > 1e-2) { double ld = tol / (double)q.p / (double)D2R; REQUIRE(lonDiff(P.longitude(), q.lon) <= ld, what << " longitude " << d2s(P.longitude()) << " expected " << d2s((double)q.lon)); REQUIRE(lonDiff(P.phi(), q.lon) <= ld, what << " phi " << d2s(P.phi())); }
   REQUIRE(P.longitude() >= 0 && P.longitude() < 360 && P.phi() >= 0 && P.phi() < 360, what << " longitude out of [0,360): " << d2s(P.longitude())); REQUIRE(std::fabs(P.geodeticLatitude()) <= 90 && std::fabs(P.geocentricLatitude()) <= 90 && P.theta() >= 0 && P.theta() <= 180, what << " latitude out of range");
   REQUIRE(P.getX() == P.X() && P.getY() == P.Y() && P.getZ() == P.Z() && P.getGeodeticLatitude() == P.geodeticLatitude() && P.getGeocentricLatitude() == P.geocentricLatitude() && P.getLongitude() == P.longitude() && P.getHeight() == P.height() && P.getAltitude() == P.height() && P.getTheta() == P.theta() && P.getPhi() == P.phi() && P.getRadius() == P.radius(), what << " accessor synonyms differ");
}
static const Position::CoordinateSystem SYS[] = {Position::Geodetic, Position::Geocentric, Position::Cartesian, Position::Spherical};
static double tolFor(const Ref& q) { return (q.p < 1e-2 ? 1.1 * (double)q.p : 0) + 2e-4 + 1e-13 * (double)q.r; }
static Position make(pbt::G& g, Ref& q, int m, int from, bool shift)
{
   EllipsoidModel* e = model(m); L A = e->a(), e2 = e->eccSquared(); double lat = genLat(g), lon = genLon(g), h = genH(g); g << "ellipsoid " << m << " form " << from << " lat " << d2s(lat) << " lon " << d2s(lon) << " h " << d2s(h); Ref t = fromGeodetic(lat, lon, h, A, e2); double in[3];
   double k = shift ? 360. * g.rangeO(-3, 3, 0) : 0;
   switch (from) { case 0: in[0] = lat; in[1] = lon; in[2] = h; q = t; break; case 1: in[0] = (double)t.clat; in[1] = (double)t.lon; in[2] = (double)t.r; break; case 2: in[0] = (double)t.x; in[1] = (double)t.y; in[2] = (double)t.z; break; default: in[0] = 90 - (double)t.clat; in[1] = (double)t.lon; in[2] = (double)t.r; }
   if (from == 2) q = fromXYZ(in[0], in[1], in[2], A, e2); else if (from) { L cl = (from == 1 ? (L)in[0] : 90 - (L)in[0]) * D2R, lo = (L)in[1] * D2R, r = in[2]; q = fromXYZ(r * std::cos(cl) * std::cos(lo), r * std::cos(cl) * std::sin(lo), r * std::sin(cl), A, e2); }
   if (from != 2) in[1] += k; if (k) g << " turns " << k;
   Position P; switch (g.below(5)) { case 0: P = Position(in[0], in[1], in[2], SYS[from], e); break; case 1: P = Position(in, SYS[from], e); break; case 2: P = Position(Triple(in[0], in[1], in[2]), SYS[from], e); break; case 3: P = Position(1, 2, 3); P.setEllipsoidModel(e); switch (from) { case 0: P.setGeodetic(in[0], in[1], in[2]); break; case 1: P.setGeocentric(in[0], in[1], in[2]); break; case 2: P.setECEF(in[0], in[1], in[2]); break; default: P.setSpherical(in[0], in[1], in[2]); } break; default: if (from == 0) P.setGeodetic(in[0], in[1], in[2], e); else P = Position(in[0], in[1], in[2], SYS[from], e); }
   REQUIRE(P.getCoordinateSystem() == SYS[from], "coordinate system after construction"); return P;
}
PROP(chains, 60000, 1000000, "two or more conversions away from the stored form")
{
   Ref q; int m = g.below(5), from = g.below(4); Position P = make(g, q, m, from, g.oneIn(3)); if (q.r < 1e6) return; double tol = tolFor(q); compare(P, q, tol, "as given");
   int n = g.range(0, 6), changes = 0, cur = from; for (int i = 0; i < n; ++i) { int to = g.below(4); g << " ->" << to; if (to != cur) ++changes; cur = to; if (to == 0 && g.flag()) P.asGeodetic(); else if (to == 2 && g.flag()) P.asECEF(); else P.transformTo(SYS[to]); REQUIRE(P.getCoordinateSystem() == SYS[to], "system after transformTo"); compare(P, q, tol * (i + 2), "after conversion"); } if (changes > 1) g.nontrivial();
   Position::CoordinateSystem s = P.getCoordinateSystem(); P.transformTo(Position::Unknown); REQUIRE(P.getCoordinateSystem() == s, "transformTo(Unknown) changed the form");
   // fundamental routines
   EllipsoidModel* e = model(m); Triple geo(P.geodeticLatitude(), P.longitude(), P.height()), xyz, llr, back, llr2, geo2, tpr; Position::convertGeodeticToCartesian(geo, xyz, e->a(), e->eccSquared()); Position::convertGeodeticToGeocentric(geo, llr, e->a(), e->eccSquared()); Position::convertCartesianToGeocentric(xyz, llr2); Position::convertCartesianToGeodetic(xyz, geo2, e->a(), e->eccSquared()); Position::convertCartesianToSpherical(xyz, tpr);
   double t = tol * (n + 4), deg = t / (double)q.r / (double)D2R; REQ_NEAR(llr[0], llr2[0], deg, "geocentric latitude by two routes"); REQ_NEAR(llr[2], llr2[2], t, "radius by two routes"); REQ_NEAR(geo2[0], geo[0], deg, "geodetic latitude round trip"); REQ_NEAR(geo2[2], geo[2], t, "height round trip"); REQ_NEAR(tpr[0], 90 - llr2[0], 1e-12, "theta");
   Position::convertGeocentricToGeodetic(llr, back, e->a(), e->eccSquared()); REQ_NEAR(back[0], geo[0], deg, "geodetic latitude from geocentric"); REQ_NEAR(back[2], geo[2], t, "height from geocentric"); Position::convertGeocentricToCartesian(llr2, back); for (int i = 0; i < 3; ++i) REQ_NEAR(back[i], xyz[i], t, "geocentric to cartesian"); Position::convertSphericalToCartesian(tpr, back); for (int i = 0; i < 3; ++i) REQ_NEAR(back[i], xyz[i], t, "spherical to cartesian");
}
PROP(arithmetic, 40000, 400000, "operands stored in different forms")
{
   int m = g.below(5), m2 = g.oneIn(4) ? g.below(5) : m, f1 = g.below(4), f2 = g.below(4); Ref q, r; Position P = make(g, q, m, f1, false), Q = make(g, r, m2, f2, false); if (q.r < 1e6 || r.r < 1e6) return; if (f1 != f2) g.nontrivial(); double tol = tolFor(q) + tolFor(r);
   Position S = P + Q, D = P - Q; REQ_NEAR(S.X(), (double)(q.x + r.x), tol, "sum X"); REQ_NEAR(S.Y(), (double)(q.y + r.y), tol, "sum Y"); REQ_NEAR(S.Z(), (double)(q.z + r.z), tol, "sum Z"); REQ_NEAR(D.X(), (double)(q.x - r.x), tol, "difference X"); REQ_NEAR(D.Y(), (double)(q.y - r.y), tol, "difference Y"); REQ_NEAR(D.Z(), (double)(q.z - r.z), tol, "difference Z"); REQUIRE(S.getCoordinateSystem() == Position::Cartesian && D.getCoordinateSystem() == Position::Cartesian, "sum not Cartesian");
   Position T(P); T += Q; REQUIRE(T.getCoordinateSystem() == P.getCoordinateSystem(), "+= changed the form"); L sr = std::sqrt((q.x + r.x) * (q.x + r.x) + (q.y + r.y) * (q.y + r.y) + (q.z + r.z) * (q.z + r.z)); if (sr > 6.2e6) { REQ_NEAR(T.X(), (double)(q.x + r.x), 3 * tol + 5e-4, "+= X"); REQ_NEAR(T.Z(), (double)(q.z + r.z), 3 * tol + 5e-4, "+= Z"); T -= Q; REQ_NEAR(T.X(), (double)q.x, 3 * tol + 5e-4, "-= X"); REQ_NEAR(T.Y(), (double)q.y, 3 * tol + 5e-4, "-= Y"); REQ_NEAR(T.Z(), (double)q.z, 3 * tol + 5e-4, "-= Z"); REQUIRE(T.getCoordinateSystem() == P.getCoordinateSystem(), "-= changed the form"); }
   L d = std::sqrt((q.x - r.x) * (q.x - r.x) + (q.y - r.y) * (q.y - r.y) + (q.z - r.z) * (q.z - r.z)); bool same = model(m)->a() == model(m2)->a() && model(m)->eccSquared() == model(m2)->eccSquared(); bool th = false; double rg = 0; try { rg = range(P, Q); } catch (GeometryException&) { th = true; } REQ_EQ(th, !same, "range between different ellipsoids"); if (same) REQ_NEAR(rg, (double)d, 2 * tol, "range");
   REQ_NEAR(P.slantRange(P), 0, 0, "range to itself"); if (f1 == 2) { Position c = 2.5 * P; REQ_EQ(c.X(), 2.5 * P.X(), "scaled"); c = P * 3; REQ_EQ(c.Z(), 3 * P.Z(), "scaled"); }
   // equality: distance below the tolerance, same ellipsoid and frame
   double e = g.pick({0.0, 0.5, 2.0}); double tl = g.pick({0.001, 0.05, 10.}); Position A(P), B(P); A.asECEF(); B.asECEF(); A.setTolerance(tl); B.setECEF(A.X(), A.Y(), A.Z() + e * tl); if (g.flag()) B.transformTo(SYS[f2]); if (q.p > 1) { bool eq = A == B; REQ_EQ(eq, e < 1, "equality at " << e << " of the tolerance"); REQ_EQ(A != B, !eq, "!="); if (e < 1) { A.setReferenceFrame(ReferenceFrame::WGS84G873); REQUIRE(!(A == B) && A != B, "different frames compare equal"); } }
   { Position C(A); C.setEllipsoidModel(model(1)); bool eq = C == A; REQ_EQ(eq, model(m)->a() == model(1)->a(), "different ellipsoids"); bool t2 = false; try { C.setEllipsoidModel(NULL); } catch (GeometryException&) { t2 = true; } REQUIRE(t2, "null ellipsoid accepted"); }
   Xvt xv; xv.x = Triple((double)q.x, (double)q.y, (double)q.z); Position X(xv); REQUIRE(X.getCoordinateSystem() == Position::Cartesian && X.X() == (double)q.x && X.Y() == (double)q.y && X.Z() == (double)q.z, "from Xvt");
}
struct Tok { char c; double v; };
PROP(text, 40000, 400000, "form of the text differs from the stored form")
{
   Ref q; int f1 = g.below(4); Position P = make(g, q, 0, f1, false); if (q.r < 1e6) return; int pr = g.range(4, 9);
   string all = "xyzXYZAaLlwWtTpPrRhH"; double v[] = {P.X(), P.Y(), P.Z(), P.X() / 1000, P.Y() / 1000, P.Z() / 1000, P.geodeticLatitude(), P.geocentricLatitude(), P.longitude(), P.longitude(), 360 - P.longitude(), 360 - P.longitude(), P.theta(), P.theta() * (double)D2R, P.phi(), P.phi() * (double)D2R, P.radius(), P.radius() / 1000, P.height(), P.height() / 1000};
   size_t k = g.below(all.size()); string fl = g.pick<string>({"", "0", "-", " "}); int w = g.range(0, 18); string spec = fl + (w && fl != " " ? strf("%d", w) : "") + strf(".%d", pr); if (!w && fl == "0") spec = strf(".%d", pr); string out = P.printf("a%" + spec + all[k] + "b"); string want = strf(("a%" + spec + "fb").c_str(), v[k]);
   if (all[k] == 'T' || all[k] == 'P') { if (out != want) REQ_NEAR(std::atof(out.c_str() + 1 + (out[1] == ' ')), v[k], 1.1 * std::pow(10., -pr), "printf %" << spec << all[k] << " gave " << out << " expected " << want); } else REQ_EQ(out, want, "printf %" << spec << all[k]);
   // scanning what was printed
   struct C { const char* f; int sys; double res; } c[] = {{"x y z", 2, 1}, {"X Y Z", 2, 1000}, {"A L h", 0, 0}, {"A w H", 0, 0}, {"A W h", 0, 0}, {"a l r", 1, 0}, {"a w R", 1, 0}, {"t p r", 3, 0}, {"T P R", 3, 0}}; const C& s = c[g.below(9)]; string sep = g.pick<string>({" ", ",", ", ", " ; "}), lead = g.pick<string>({"", "pos ", "("}); string p = g.flag() ? "." + strf("%d", pr) : ""; string fmt = lead; double res = 0; for (int i = 0; i < 3; ++i) { if (i) fmt += sep; char ch = s.f[2 * i]; fmt += "%" + p + ch; double r; if (strchr("xyzrh", ch)) r = 1; else if (strchr("XYZRH", ch)) r = 1000; else if (ch == 'T' || ch == 'P') r = (double)q.r; else r = (double)(q.r * D2R); res += r; } double unit = p.empty() ? 1e-6 : std::pow(10., -pr);
   string txt = P.printf(fmt); g << " format " << pbt::q(fmt) << " text " << pbt::q(txt); if (SYS[s.sys] != P.getCoordinateSystem()) g.nontrivial(); if (strchr(s.f, 'T') && P.theta() > 179.98) return; if (!strncmp(s.f, "t", 1) && std::atof(txt.c_str() + lead.size()) > 180) return;
   Position Q; Q.setToString(txt, fmt); REQUIRE(Q.getCoordinateSystem() == SYS[s.sys], "form after setToString"); double d = range(P, Q); REQUIRE(d <= res * unit + 1e-3 + tolFor(q), "printed and scanned position is " << d2s(d) << " m away");
   // refusals
   bool th = false; Position Z(Q); string bad = g.pick<string>({"95.1 20 100|%A %L %h", "-90.5 20 100|%a %L %r", "45 20 -7|%a %l %r", "181 20 7000|%t %p %r", "-1 20 7000|%t %p %r", "3.2 1 7000|%T %P %R", "1 2|%x %y", "1 2 3|%x %y %L", "1 2 3|%A %L %r"}); size_t b = bad.find('|'); try { Z.setToString(bad.substr(0, b), bad.substr(b + 1)); } catch (GeometryException&) { th = true; } REQUIRE(th, "accepted " << bad); REQUIRE(Z.getCoordinateSystem() == Q.getCoordinateSystem() && Z.X() == Q.X(), "failed setToString changed the position");
   ostringstream o; o << P; REQ_EQ(o.str(), P.asString(), "asString");
}
template <class F> static bool refused(F f) { try { f(); } catch (GeometryException&) { return true; } return false; }
PROP(refusals, 20000, 200000, "always")
{
   g.nontrivial(); double over = (g.flag() ? 1 : -1) * (90 + g.logReal(-9, 3, false)), lon = g.real(-400, 800), r = g.logReal(-3, 8, false), th = g.flag() ? -g.logReal(-9, 2, false) : 180 + g.logReal(-9, 2, false), lat = g.real(-90, 90); g << "lat " << d2s(over) << " theta " << d2s(th) << " lon " << d2s(lon) << " r " << d2s(r); Position P(1, 2, 3);
   double a1[3] = {over, lon, r}, a2[3] = {lat, lon, -r}, a3[3] = {th, lon, r}; for (int k = 0; k < 2; ++k) { Position::CoordinateSystem s = k ? Position::Geocentric : Position::Geodetic; REQUIRE(refused([&] { Position x(over, lon, r, s); }) && refused([&] { Position x(a1, s); }) && refused([&] { Position x(Triple(over, lon, r), s); }), "latitude beyond 90 accepted"); }
   for (int k = 0; k < 2; ++k) { Position::CoordinateSystem s = k ? Position::Geocentric : Position::Spherical; a2[0] = k ? lat : lat + 90; REQUIRE(refused([&] { Position x(a2[0], lon, -r, s); }) && refused([&] { Position x(a2, s); }) && refused([&] { Position x(Triple(a2[0], lon, -r), s); }), "negative radius accepted"); }
   REQUIRE(refused([&] { Position x(th, lon, r, Position::Spherical); }) && refused([&] { Position x(a3, Position::Spherical); }) && refused([&] { Position x(Triple(th, lon, r), Position::Spherical); }), "theta outside [0,180] accepted");
   REQUIRE(refused([&] { P.setGeodetic(over, lon, r); }) && refused([&] { P.setGeocentric(over, lon, r); }) && refused([&] { P.setGeocentric(lat, lon, -r); }) && refused([&] { P.setSpherical(th, lon, r); }) && refused([&] { P.setSpherical(lat + 90, lon, -r); }), "setter accepted invalid coordinates"); REQUIRE(P.X() == 1 && P.Y() == 2 && P.Z() == 3 && P.getCoordinateSystem() == Position::Cartesian, "refused setter changed the position");
   // the ellipsoids are consistent with themselves
   for (int i = 0; i < 5; ++i) { EllipsoidModel* e = model(i); REQ_NEAR(e->eccSquared(), 2 * e->flattening() - e->flattening() * e->flattening(), 2e-12, "flattening and eccentricity of ellipsoid " << i); REQ_NEAR(e->eccentricity() * e->eccentricity(), e->eccSquared(), 1e-13, "eccentricity"); REQ_NEAR(e->a_km() * 1000, e->a(), 1e-6, "axis in km"); REQ_NEAR(e->gm_km() * 1e9, e->gm(), 1e-12 * e->gm(), "GM in km of ellipsoid " << i); REQ_NEAR(e->c_km() * 1000, e->c(), 1e-6, "speed of light in km"); REQ_EQ(e->c(), 299792458., "speed of light"); }
}
PBT_MAIN
