// G05: the Klobuchar model of IS-GPS-200 20.3.3.5.2.5, written down here in long double; the store of models against a map
#include "gp.hpp"
#include "timegen.hpp"
#include "IonoModel.hpp"
#include "IonoModelStore.hpp"
#include "EngAlmanac.hpp"
#include "GPSWeekSecond.hpp"
#include "YDSTime.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map;
typedef long double D;
static const D pi = acosl(-1.0L);
struct Par { double a[4], b[4]; };
static Par genPar(G& g)
{
   static const int pa[4] = {-30, -27, -24, -24}, pb[4] = {11, 14, 16, 16}; Par p; int kind = g.below(4);
   for (int k = 0; k < 4; k++) { int x = g.range(-128, 127), y = g.range(-128, 127); if (kind == 0) { x = k == 0 ? std::abs(x) : x / 16; y = k == 0 ? std::abs(y) : y / 16; } if (kind == 1 && k == 0) { x = std::abs(x); y = std::abs(y); } p.a[k] = std::ldexp((double)x, pa[k]); p.b[k] = std::ldexp((double)y, pb[k]); if (kind == 3 && g.oneIn(3)) p.a[k] = p.b[k] = 0; }
   return p;
}
   // seconds at L1; near tells that the place is within rounding of the end of the day side
static D klobuchar(const Par& p, D lat, D lon, D el, D az, D sod, bool& near, bool& day)
{
   D E = el / 180, psi = 0.0137L / (E + 0.11L) - 0.022L, phi = lat / 180 + psi * cosl(az * pi / 180); if (phi > 0.416L) phi = 0.416L; if (phi < -0.416L) phi = -0.416L; D lam = lon / 180 + psi * sinl(az * pi / 180) / cosl(phi * pi), pm = phi + 0.064L * cosl((lam - 1.617L) * pi), t = fmodl(43200 * lam + sod, 86400); if (t < 0) t += 86400;
   D F = 1 + 16 * powl(0.53L - E, 3), per = 0, amp = 0, q = 1; for (int k = 0; k < 4; k++) { amp += p.a[k] * q; per += p.b[k] * q; q *= pm; } if (amp < 0) amp = 0; if (per < 72000) per = 72000; D x = 2 * pi * (t - 50400) / per; near = fabsl(fabsl(x) - 1.57L) < 1e-7L || t < 1e-6L || t > 86400 - 1e-6L; day = fabsl(x) < 1.57L; return F * (5e-9L + (day ? amp * (1 - x * x / 2 + x * x * x * x / 24) : 0));
}
struct Geo { double lat, lon, h, el, az; Position p; };
static Geo genGeo(G& g)
{
   Geo x; x.lat = g.oneIn(4) ? g.real(-90, 90) : g.oneIn(5) ? g.pick(vector<double>{-90, 90, 0, 74.88, -74.88}) : g.real(-70, 70); x.lon = g.oneIn(4) ? g.pick(vector<double>{0, 180, 179.999, 359.99, 340, 350, 359}) : g.real(0, 359.999); if (g.oneIn(5)) x.lon -= 180; x.h = g.real(-100, 9000); x.el = g.oneIn(5) ? g.pick(vector<double>{0, 5, 90, 95.4}) : g.real(0, 90); if (x.el > 90) x.el = 90; x.az = g.oneIn(5) ? g.pick(vector<double>{0, 90, 180, 270, 360}) : g.real(-20, 380); x.p = Position(x.lat, x.lon, x.h, Position::Geodetic);
   if (g.oneIn(3)) { x.p.transformTo(Position::Cartesian); if (fabs(x.lat) > 89.999) x.p = Position(x.lat, x.lon, x.h, Position::Geodetic); } return x;
}
static double genSodD(G& g) { return g.flag() ? g.range(0, 86399) + 0.0 : g.real(0, 86399.9); }

PROP(delay, 300000, 4500000, "on the day side and amplitude or period not clamped")
{
   Par p = genPar(g); Geo x = genGeo(g); double sod = genSodD(g); int doy = g.range(1, 365), y = g.range(1980, 2060); CommonTime t = YDSTime(y, doy, sod, g.pick(vector<TimeSystem>{TimeSystem::GPS, TimeSystem::UTC, TimeSystem::Any})); bool radians = g.flag(); Par q = p; if (radians) for (int k = 1; k < 4; k++) { q.a[k] /= (double)powl(pi, k); q.b[k] /= (double)powl(pi, k); }
   g << "lat " << x.lat << " lon " << x.lon << " h " << x.h << " el " << x.el << " az " << x.az << " sod " << sod << " alpha"; for (double v : p.a) g << " " << v; g << " beta"; for (double v : p.b) g << " " << v; if (radians) g << " in radians";
   IonoModel m; if (g.flag()) m = radians ? IonoModel(q.a, q.b, false) : IonoModel(q.a, q.b); else { REQUIRE(!m.isValid(), "a default model is valid"); if (g.flag()) { Par z = genPar(g); m.setModel(z.a, z.b, g.flag()); } if (radians) m.setModel(q.a, q.b, false); else m.setModel(q.a, q.b); } REQUIRE(m.isValid(), "valid");
   bool near, day; D s = klobuchar(p, x.lat, x.lon, x.el, x.az, sod, near, day), F = 1 + 16 * powl(0.53L - x.el / 180.0L, 3), c = 299792458.0L; if (near) { g.label("near the end of the day side"); return; } g.nontrivial(day && s > F * 6e-9L); double l1 = m.getCorrection(t, x.p, x.el, x.az), l1b = m.getCorrection(t, x.p, x.el, x.az, CarrierBand::L1), l2 = m.getCorrection(t, x.p, x.el, x.az, CarrierBand::L2), l5 = m.getCorrection(t, x.p, x.el, x.az, CarrierBand::L5); D tol = 1e-8L + 1e-8L * s * c; if (day) { g.label("day"); tol += 1e-6L; }
   REQUIRE(fabsl(l1 - s * c) <= tol, "delay at L1 is " << l1 << " wanted " << (double)(s * c)); REQUIRE(l1 == l1b, "the default band is L1"); REQUIRE(l1 >= (double)(5e-9L * F * c) * (1 - 1e-9), "below the night value"); REQUIRE(fabsl(l2 / (D)l1 - (154.0L / 120) * (154.0L / 120)) < 1e-12L && fabsl(l5 / (D)l1 - (154.0L / 115) * (154.0L / 115)) < 1e-12L, "ratio of bands " << l2 / l1 << " " << l5 / l1);
}
PROP(refused, 20000, 180000, "a band that has no correction")
{
   Geo x = genGeo(g); CommonTime t = YDSTime(2010, g.range(1, 365), genSodD(g), TimeSystem::GPS); int band = g.below((int)CarrierBand::Last); CarrierBand b = (CarrierBand)band; bool can = b == CarrierBand::L1 || b == CarrierBand::L2 || b == CarrierBand::L5, valid = g.flag(); g << "band " << band << " valid " << valid; g.nontrivial(valid && !can); Par p = genPar(g); IonoModel m; if (valid) m.setModel(p.a, p.b); bool thrown = false; try { m.getCorrection(t, x.p, x.el, x.az, b); } catch (IonoModel::InvalidIonoModel&) { thrown = true; } REQ_EQ(thrown, !(valid && can), "InvalidIonoModel thrown");
}
PROP(equality, 20000, 180000, "models that differ in one parameter")
{
   Par p = genPar(g), q = p; int k = g.below(9); if (k < 4) q.a[k] += std::ldexp(1.0, -31); else if (k < 8) q.b[k - 4] += 1; g << "differ in " << k; g.nontrivial(k < 8); IonoModel a(p.a, p.b), b(q.a, q.b); REQ_EQ(a == b, k == 8, "=="); REQ_EQ(a != b, k < 8, "!=");
}
   // page 18 of subframe 4 gives the model that a user of the almanac gets
PROP(almanac, 15000, 180000, "on the day side")
{
   static const int pa[4] = {-30, -27, -24, -24}, pb[4] = {11, 14, 16, 16}; int v[8]; for (int& k : v) k = g.range(-127, 127); if (g.flag()) { v[0] = std::abs(v[0]); v[4] = std::abs(v[4]); for (int k = 0; k < 8; k++) if (k % 4) v[k] /= 16; } Par p; for (int k = 0; k < 4; k++) { p.a[k] = std::ldexp((double)v[k], pa[k]); p.b[k] = std::ldexp((double)v[4 + k], pb[k]); } uint32_t sf[10] = {0}; auto put = [&](int from, int n, uint32_t x) { for (int k = 0; k < n; k++) { int b = from - 1 + k; if ((x >> (n - 1 - k)) & 1) sf[b / 30] |= 1u << (29 - b % 30); } }; put(1, 8, 0x8b); put(31, 17, 1000 + 5 * g.below(100)); put(50, 3, 4); put(61, 2, 1); put(63, 6, 56); static const int pos[8] = {69, 77, 91, 99, 107, 121, 129, 137}; for (int k = 0; k < 8; k++) put(pos[k], 8, v[k] & 255); EngAlmanac alm; if (g.oneIn(10)) { REQUIRE(!IonoModel(alm).isValid(), "valid without the page"); return; } alm.addSubframe(sf, g.range(1100, 2000)); IonoModel m(alm); REQUIRE(m.isValid(), "valid"); Geo x = genGeo(g); double sod = genSodD(g); bool near, day; D s = klobuchar(p, x.lat, x.lon, x.el, x.az, sod, near, day) * 299792458.0L; g << "alpha"; for (double k : p.a) g << " " << k; g << " beta"; for (double k : p.b) g << " " << k; g << " lat " << x.lat << " lon " << x.lon << " el " << x.el << " az " << x.az << " sod " << sod; if (near) return; g.nontrivial(day); double got = m.getCorrection(YDSTime(2012, 77, sod, TimeSystem::GPS), x.p, x.el, x.az); REQUIRE(fabsl(got - s) <= 1e-6L + 1e-7L * s, "delay " << got << " wanted " << (double)s);
}
PROP(store, 30000, 450000, "a time before a model that was added earlier")
{
   IonoModelStore st; map<long, int> model; vector<Par> kinds; int nk = g.range(1, 4); for (int k = 0; k < nk; k++) { Par p = genPar(g); p.a[0] = std::ldexp(20.0 + 20 * k, -30); kinds.push_back(p); } CommonTime base = GPSWeekSecond(g.range(1000, 2500), g.range(0, 604799), TimeSystem::GPS); int n = g.range(1, 25); bool late = false; long span = g.pick(vector<long>{4, 12, 100000});
   for (int k = 0; k < n; k++)
   {
      switch (g.weighted({5, 5, 1, 1}))
      {
         case 0: { long t = g.range(0, span); int kind = g.below(nk); auto i = model.upper_bound(t); bool want = true; if (i != model.begin()) { --i; want = i->second != kind; } g << "add " << kind << "@" << t << " "; late |= model.size() && model.rbegin()->first > t; REQ_EQ(st.addIonoModel(base + (double)t, IonoModel(kinds[kind].a, kinds[kind].b)), want, "added"); if (want) model[t] = kind; break; }
         case 1: { double t = g.range(-2, span + 2) + (g.oneIn(3) ? 0.5 : 0); g << "get " << t << " "; Geo x = genGeo(g); CommonTime ct = base + t; CarrierBand b = g.pick(vector<CarrierBand>{CarrierBand::L1, CarrierBand::L2, CarrierBand::L5}); auto i = model.upper_bound((long)std::floor(t)); bool got = true; double v = 0; try { v = b == CarrierBand::L1 && g.flag() ? st.getCorrection(ct, x.p, x.el, x.az) : st.getCorrection(ct, x.p, x.el, x.az, b); } catch (IonoModelStore::NoIonoModelFound&) { got = false; } REQ_EQ(got, i != model.begin(), "model found at " << t); if (got) { --i; const Par& p = kinds[i->second]; REQUIRE(v == IonoModel(p.a, p.b).getCorrection(ct, x.p, x.el, x.az, b), "not the model in force at " << t); } break; }
         case 2: { REQUIRE(!st.addIonoModel(base + (double)g.range(0, span), IonoModel()), "an invalid model was added"); break; }
         default: { long a = g.range(-1, span), b = g.range(a, span + 1); bool open = g.flag(); g << "edit " << a << " " << (open ? -1 : b) << " "; if (open) st.edit(base + (double)a); else st.edit(base + (double)a, base + (double)b); for (auto i = model.begin(); i != model.end();) if (i->first < a || (!open && i->first > b)) i = model.erase(i); else ++i; }
      }
   }
   g.nontrivial(late);
}
PBT_MAIN
