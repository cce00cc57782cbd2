// G07: Helmert transformations against the seven parameter formula in long double and its exact inverse; names of frames
#include "gp.hpp"
#include "HelmertTransform.hpp"
#include "YDSTime.hpp"
#include <sstream>
using namespace gpstk; using pbt::G; using std::string; using std::vector;
typedef long double D;
static const D pi = acosl(-1.0L);
static ReferenceFrame genFrame(G& g, bool unknown = false) { return (ReferenceFrame)g.range(unknown ? 0 : 1, (int)ReferenceFrame::Last - 1); }
struct Par { ReferenceFrame f, t; D r[3], T[3], S; D mr() const { return std::max(fabsl(r[0]), std::max(fabsl(r[1]), fabsl(r[2]))); } D mT() const { return fabsl(T[0]) + fabsl(T[1]) + fabsl(T[2]); } };
static void forward(const Par& p, const D* x, D* o) { o[0] = x[0] - p.r[2] * x[1] + p.r[1] * x[2]; o[1] = p.r[2] * x[0] + x[1] - p.r[0] * x[2]; o[2] = -p.r[1] * x[0] + p.r[0] * x[1] + x[2]; for (int k = 0; k < 3; k++) o[k] += p.S * x[k] + p.T[k]; }
   // exact inverse, by iteration
static void backward(const Par& p, const D* y, D* o) { for (int k = 0; k < 3; k++) o[k] = y[k]; for (int it = 0; it < 40; it++) { D f[3]; forward(p, o, f); for (int k = 0; k < 3; k++) o[k] += y[k] - f[k]; } }
static D bound(const Par& p, D n) { D e = 2 * p.mr() + fabsl(p.S); return 3 * (e * e * n + e * p.mT()) + 2e-8L; }
static void genPoint(G& g, double* x) { double s = g.pick(vector<double>{6.4e6, 2.6e7, 1, 1000}); for (int k = 0; k < 3; k++) x[k] = g.oneIn(5) ? 0 : g.real(-s, s); }
   // every way to transform a point
static void all(G& g, HelmertTransform h, ReferenceFrame from, ReferenceFrame to, const double* x, const D* want, D tol, const string& what)
{
   auto near = [&](double a, double b, double c, const char* w) { double v[3] = {a, b, c}; for (int k = 0; k < 3; k++) REQUIRE(fabsl(v[k] - want[k]) <= tol, what << ", " << w << ": component " << k << " moves by " << v[k] - x[k] << " wanted " << (double)(want[k] - x[k]) << " within " << (double)tol); };
   Position p(x[0], x[1], x[2], Position::Cartesian), q; p.setReferenceFrame(from); if (g.flag()) { q = p; h.transform(q, q); } else h.transform(p, q); near(q.X(), q.Y(), q.Z(), "position"); REQUIRE(q.getReferenceFrame() == to, what << ": frame of the result " << q.getReferenceFrame()); REQUIRE(p.X() == x[0] && p.Y() == x[1] && p.Z() == x[2] && p.getReferenceFrame() == from, what << ": the input changed");
   Vector<double> v(3), w; for (int k = 0; k < 3; k++) v[k] = x[k]; h.transform(v, from, w); REQUIRE(w.size() == 3, what << ": vector of " << w.size()); near(w[0], w[1], w[2], "vector"); Triple a(x[0], x[1], x[2]), b; h.transform(a, from, b); near(b[0], b[1], b[2], "triple"); double r[3]; h.transform(x[0], x[1], x[2], from, r[0], r[1], r[2]); near(r[0], r[1], r[2], "doubles");
   Xvt s, o; s.x = a; s.v = Triple(1, 2, 3); s.clkbias = 0.5; s.clkdrift = 0.25; s.relcorr = 0.125; s.frame = from; h.transform(s, o); near(o.x[0], o.x[1], o.x[2], "xvt"); REQUIRE(o.frame == to, what << ": frame of the xvt " << o.frame); REQUIRE(o.clkbias == 0.5 && o.clkdrift == 0.25 && o.relcorr == 0.125, what << ": clock of the xvt");
}
static bool refused(const std::function<void()>& f) { try { f(); } catch (InvalidRequest&) { return true; } return false; }
static void refusals(HelmertTransform h, ReferenceFrame other) { Position p(1, 2, 3, Position::Cartesian), q; p.setReferenceFrame(other); Vector<double> v(3, 1.0), w; Triple a(1, 2, 3), b; double r[3]; Xvt s, o; s.x = a; s.frame = other; REQUIRE(refused([&] { h.transform(p, q); }) && refused([&] { h.transform(v, other, w); }) && refused([&] { h.transform(a, other, b); }) && refused([&] { h.transform(1.0, 2.0, 3.0, other, r[0], r[1], r[2]); }) && refused([&] { h.transform(s, o); }), "frame " << other << " was transformed"); }

PROP(general, 60000, 1200000, "all three rotations, the scale and a translation are not zero")
{
   Par p; p.f = genFrame(g); p.t = genFrame(g); if (p.t == p.f) p.t = p.f == ReferenceFrame::ITRF ? ReferenceFrame::PZ90 : ReferenceFrame::ITRF; double size = g.pick(vector<double>{1e-9, 1e-6, 9.9e-4}), deg[3], T[3], S = g.oneIn(4) ? 0 : g.real(-1, 1) * g.pick(vector<double>{1e-9, 1e-6}); int nz = 0; for (int k = 0; k < 3; k++) { deg[k] = g.oneIn(4) ? 0 : g.real(-1, 1) * size * 57.29577951308232; p.r[k] = deg[k] * pi / 180; T[k] = g.oneIn(4) ? 0 : g.real(-100, 100); p.T[k] = T[k]; nz += deg[k] != 0; } p.S = S; double x[3]; genPoint(g, x); g << "rotations " << deg[0] << " " << deg[1] << " " << deg[2] << " deg translation " << T[0] << " " << T[1] << " " << T[2] << " scale " << S << " at " << x[0] << " " << x[1] << " " << x[2]; g.nontrivial(nz == 3 && S != 0 && p.mT() > 0);
   CommonTime ep = YDSTime(g.range(1980, 2030), g.range(1, 365), 0, TimeSystem::UTC); HelmertTransform h(p.f, p.t, deg[0], deg[1], deg[2], T[0], T[1], T[2], S, "test", ep); REQUIRE(h.getFromFrame() == p.f && h.getToFrame() == p.t && h.getEpoch() == ep, "frames and epoch"); D y[3] = {x[0], x[1], x[2]}, o[3], n = sqrtl(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]); forward(p, y, o); all(g, h, p.f, p.t, x, o, 2e-8L, "forward"); backward(p, y, o); all(g, h, p.t, p.f, x, o, bound(p, n), "inverse"); Position a(x[0], x[1], x[2], Position::Cartesian), b, c; a.setReferenceFrame(p.f); h.transform(a, b); h.transform(b, c); REQUIRE(c.getReferenceFrame() == p.f && fabs(c.X() - x[0]) <= bound(p, n) && fabs(c.Y() - x[1]) <= bound(p, n) && fabs(c.Z() - x[2]) <= bound(p, n), "there and back is not the identity");
   ReferenceFrame other = genFrame(g, true); if (other != p.f && other != p.t) refusals(h, other);
}
   // positions in other coordinate systems are transformed as their Cartesian equivalent
PROP(systems, 6000, 120000, "a position not in Cartesian coordinates")
{
   double deg[3], T[3], S = g.real(-1e-8, 1e-8); for (int k = 0; k < 3; k++) { deg[k] = g.real(-1e-4, 1e-4); T[k] = g.real(-10, 10); } HelmertTransform h(ReferenceFrame::PZ90, ReferenceFrame::ITRF, deg[0], deg[1], deg[2], T[0], T[1], T[2], S, "test", CommonTime::BEGINNING_OF_TIME); Position p(g.real(-85, 85), g.real(0, 359), g.real(-100, 2e7), Position::Geodetic), q = p, a, b; q.transformTo(Position::Cartesian); Position::CoordinateSystem sys = g.pick(vector<Position::CoordinateSystem>{Position::Geodetic, Position::Geocentric, Position::Spherical, Position::Cartesian}); p.transformTo(sys); g.nontrivial(sys != Position::Cartesian); ReferenceFrame f = g.flag() ? ReferenceFrame::PZ90 : ReferenceFrame::ITRF; p.setReferenceFrame(f); q.setReferenceFrame(f); g << q.X() << " " << q.Y() << " " << q.Z() << " system " << (int)sys << " frame " << f; h.transform(p, a); h.transform(q, b); REQUIRE(fabs(a.X() - b.X()) < 1e-5 && fabs(a.Y() - b.Y()) < 1e-5 && fabs(a.Z() - b.Z()) < 1e-5, "differs from the Cartesian position's"); REQUIRE(a.getReferenceFrame() == b.getReferenceFrame() && p.getCoordinateSystem() == sys, "frame, or the input changed");
}
PROP(construct, 10000, 100000, "angles near the limit")
{
   double lim = (double)(1e-3L * 180 / pi), deg[3]; bool bad = false, nearLim = false; for (double& d : deg) { switch (g.below(4)) { case 0: d = lim * g.real(0.999, 1.001); nearLim = true; break; case 1: d = g.real(-5, 5); break; default: d = g.real(-1, 1) * lim; } if (g.flag()) d = -d; if (fabs(fabs(d) / lim - 1) < 1e-9) d = 0; bad |= fabs(d) > lim; } ReferenceFrame f = genFrame(g, true), t = genFrame(g, true); g << deg[0] << " " << deg[1] << " " << deg[2] << " " << f << " " << t; g.nontrivial(nearLim); bad |= f == ReferenceFrame::Unknown || t == ReferenceFrame::Unknown; REQ_EQ(refused([&] { HelmertTransform h(f, t, deg[0], deg[1], deg[2], 1, 2, 3, 0, "x", CommonTime::BEGINNING_OF_TIME); }), bad, "refused"); HelmertTransform d; REQUIRE(d.getFromFrame() == ReferenceFrame::Unknown && d.getToFrame() == ReferenceFrame::Unknown, "default");
   HelmertTransform h(ReferenceFrame::PZ90, ReferenceFrame::ITRF, 0, 0, 0, 1, 2, 3, 0, "x", CommonTime::BEGINNING_OF_TIME); int n = g.below(6); Vector<double> v(n, 1.0), w; if (n != 3) REQUIRE(refused([&] { h.transform(v, ReferenceFrame::PZ90, w); }), "a vector of " << n << " elements");
}
   // the predefined transformations: Boucher and Altamimi 2001 and GLONASS ICD table 3.2
PROP(predefined, 6000, 120000, "a transformation that is not the identity")
{
   static const ReferenceFrame W = ReferenceFrame::WGS84, I = ReferenceFrame::ITRF, P = ReferenceFrame::PZ90; static const struct { ReferenceFrame f, t; double mas[3], T[3], ppb; bool before; } tab[5] = {{W, I, {0, 0, 0}, {0, 0, 0}, 0, false}, {P, W, {-19, -4, 353}, {0.07, 0, -0.77}, -3, true}, {P, W, {0, 0, 0}, {-0.36, 0.08, 0.18}, 0, false}, {P, I, {-19, -4, 353}, {0.07, 0, -0.77}, -3, true}, {P, I, {0, 0, 0}, {-0.36, 0.08, 0.18}, 0, false}};
   REQ_EQ(HelmertTransform::stdCount, 5, "count"); CommonTime change = YDSTime(2007, 263, 61200, TimeSystem::UTC); REQUIRE(HelmertTransform::PZ90Epoch == change, "epoch of PZ-90.02"); int k = g.below(5); g << "transformation " << k; const HelmertTransform& h = HelmertTransform::stdTransforms[k]; Par p; p.f = tab[k].f; p.t = tab[k].t; for (int i = 0; i < 3; i++) { p.r[i] = tab[k].mas[i] * 1e-3L / 3600 * pi / 180; p.T[i] = tab[k].T[i]; } p.S = tab[k].ppb * 1e-9L; REQUIRE(h.getFromFrame() == p.f && h.getToFrame() == p.t, "frames"); REQUIRE(tab[k].f != P || (h.getEpoch() >= change) == !tab[k].before, "epoch"); double x[3]; genPoint(g, x); g << " at " << x[0] << " " << x[1] << " " << x[2]; g.nontrivial(k > 0); D y[3] = {x[0], x[1], x[2]}, o[3], n = sqrtl(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]); forward(p, y, o); all(g, h, p.f, p.t, x, o, 1e-7L, "forward"); backward(p, y, o); all(g, h, p.t, p.f, x, o, bound(p, n) + 1e-7L, "inverse"); ReferenceFrame other = genFrame(g, true); if (other != p.f && other != p.t) refusals(h, other);
}
PROP(names, 4000, 60000, "a text that is not a name")
{
   static const char* names[] = {"Unknown", "WGS84", "WGS84(G730)", "WGS84(G873)", "WGS84(G1150)", "ITRF", "PZ90", "PZ90KGS", "CGCS2000"}; int n = (int)ReferenceFrame::Last; REQ_EQ(n, 9, "number of frames"); int k = g.below(n); ReferenceFrame f = (ReferenceFrame)k; REQ_EQ(StringUtils::asString(f), string(names[k]), "name"); REQUIRE(StringUtils::asReferenceFrame(names[k]) == f, "frame of " << names[k]); std::ostringstream o; o << f; REQ_EQ(o.str(), string(names[k]), "output"); string s = names[k]; switch (g.below(5)) { case 0: s += g.pick(vector<string>{" ", "0", ")", "K"}); break; case 1: s.pop_back(); break; case 2: s[g.below(s.size())] ^= 32; break; case 3: s = g.str("WGSITRFPZ90", 0, 6); break; default: s = " " + s; } g << pbt::q(s); int want = 0; for (int i = 0; i < n; i++) if (s == names[i]) want = i; g.nontrivial(want == 0); REQ_EQ((int)StringUtils::asReferenceFrame(s), want, "frame of the text");
}
PBT_MAIN
