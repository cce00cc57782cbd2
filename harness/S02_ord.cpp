// S02: observed range deviations against an independent light-time solution and the definitions of the corrections; clock models against direct recomputation of their statistics
#include "gp.hpp"
#include "ObsRngDev.hpp"
#include "ORDEpoch.hpp"
#include "EpochClockModel.hpp"
#include "LinearClockModel.hpp"
#include "EphemerisRange.hpp"
#include "ord.hpp"
#include "IonoModelStore.hpp"
#include "NBTropModel.hpp"
#include "GPSEphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
#include "GPSEllipsoid.hpp"
#include "YDSTime.hpp"
using namespace gpstk; using pbt::G; using std::string; using std::vector; using std::map; using std::set;
typedef long double D; static const double C = 299792458.0, OM = 7.2921151467e-5, R2D = 180 / 3.14159265358979323846;
struct Sv { double p[3], v[3], c0, c1; };
struct Store : XvtStore<SatID>
{
   CommonTime t0; map<SatID, Sv> sv;
   Xvt getXvt(const SatID& id, const CommonTime& t) const override { auto i = sv.find(id); if (i == sv.end()) { InvalidRequest e("no ephemeris"); GPSTK_THROW(e); } const Sv& s = i->second; double d = t - t0; Xvt x; for (int k = 0; k < 3; k++) { x.x[k] = s.p[k] + s.v[k] * d; x.v[k] = s.v[k]; } x.clkbias = s.c0 + s.c1 * d; x.clkdrift = s.c1; x.relcorr = -2 * (x.x[0] * s.v[0] + x.x[1] * s.v[1] + x.x[2] * s.v[2]) / C / C; x.health = Xvt::Healthy; return x; }
   Xvt computeXvt(const SatID& id, const CommonTime& t) const throw() override { try { return getXvt(id, t); } catch (...) { return Xvt(); } }
   Xvt::HealthStatus getSVHealth(const SatID&, const CommonTime&) const throw() override { return Xvt::Healthy; }
   void dump(std::ostream&, short) const override {} void edit(const CommonTime&, const CommonTime&) override {} void clear() override {} TimeSystem getTimeSystem() const override { return TimeSystem::GPS; } CommonTime getInitialTime() const override { return CommonTime::BEGINNING_OF_TIME; } CommonTime getFinalTime() const override { return CommonTime::END_OF_TIME; } bool hasVelocity() const override { return true; } bool isPresent(const SatID& s) const override { return sv.count(s); } set<SatID> getIndexSet() const override { return set<SatID>(); }
};
   // a troposphere model of the elevation alone
struct Trop : TropModel
{
   double z; Trop(double zz) : z(zz) { valid = true; } string name() override { return "test"; }
   double correction(double e) const override { return z * (1.5 - e / 100); } double correction(const Position&, const Position&, const CommonTime&) override { return 1e6; } double correction(const Xvt&, const Xvt&, const CommonTime&) override { return 1e6; } double dry_zenith_delay() const override { return z; } double wet_zenith_delay() const override { return 0; } double dry_mapping_function(double) const override { return 1; } double wet_mapping_function(double) const override { return 1; }
};
struct Look { double el, az, elg, azg; };
static void toEnu(const D* d, D lat, D lon, D* o) { D sl = sinl(lat), cl = cosl(lat), so = sinl(lon), co = cosl(lon); o[0] = -so * d[0] + co * d[1]; o[1] = -sl * co * d[0] - sl * so * d[1] + cl * d[2]; o[2] = cl * co * d[0] + cl * so * d[1] + sl * d[2]; }
static D norm(const D* a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static void rot(const D* x, D tau, D* o) { D w = (D)OM * tau; o[0] = cosl(w) * x[0] + sinl(w) * x[1]; o[1] = -sinl(w) * x[0] + cosl(w) * x[1]; o[2] = x[2]; }
static double azDiff(double a, double b) { double d = std::fmod(a - b, 360); if (d > 180) d -= 360; if (d < -180) d += 360; return std::fabs(d); }
struct Scene { CommonTime t; double lat, lon, h; D rx[3]; Position pos; SatID id; Store eph; Sv sv; };
static void genScene(G& g, Scene& s)
{
   s.t = GPSWeekSecond(g.range(1000, 2300), g.range(0, 604799) + (g.flag() ? 0 : 0.25), TimeSystem::GPS); s.lat = g.real(-1.5, 1.5); s.lon = g.real(-3.14159, 3.14159); s.h = g.oneIn(8) ? g.real(-500, 40000) : g.real(-100, 3000);
   D a = 6378137, e2 = 0.00669437999014L, n = a / sqrtl(1 - e2 * sinl(s.lat) * sinl(s.lat)); s.rx[0] = (n + s.h) * cosl(s.lat) * cosl(s.lon); s.rx[1] = (n + s.h) * cosl(s.lat) * sinl(s.lon); s.rx[2] = (n * (1 - e2) + s.h) * sinl(s.lat); s.pos = Position((double)s.rx[0], (double)s.rx[1], (double)s.rx[2]);
   double el = g.oneIn(10) ? g.real(-80, -3) : g.real(3, 88), az = g.real(0, 360), rho = g.real(1.9e7, 4e7); D sl = sinl(s.lat), cl = cosl(s.lat), so = sinl(s.lon), co = cosl(s.lon), E = sinl(az / R2D) * cosl(el / R2D), N = cosl(az / R2D) * cosl(el / R2D), U = sinl(el / R2D); D d[3] = {-so * E - sl * co * N + cl * co * U, co * E - sl * so * N + cl * so * U, cl * N + sl * U};
   for (int k = 0; k < 3; k++) { s.sv.p[k] = (double)(s.rx[k] + rho * d[k]); s.sv.v[k] = g.real(-3000, 3000); } s.sv.c0 = g.oneIn(5) ? 0 : g.real(-1e-3, 1e-3); s.sv.c1 = g.oneIn(5) ? 0 : g.real(-1e-10, 1e-10); s.id = SatID(g.range(1, 32), g.oneIn(3) ? SatelliteSystem::Galileo : SatelliteSystem::GPS); s.eph.t0 = s.t; s.eph.sv[s.id] = s.sv;
   g << "rx " << s.lat << " " << s.lon << " " << s.h << " el " << el << " az " << az << " rho " << rho << " v " << s.sv.v[0] << " " << s.sv.v[1] << " " << s.sv.v[2] << " clk " << s.sv.c0 << " " << s.sv.c1 << ";";
}
   // satellite state at t0 + d
static void at(const Sv& v, D d, D* p, D& clk, D& rel) { D dot = 0; for (int k = 0; k < 3; k++) { p[k] = v.p[k] + (D)v.v[k] * d; dot += p[k] * v.v[k]; } clk = v.c0 + (D)v.c1 * d; rel = -2 * dot / C / C; }
static D lightTime(const Scene& s, const D* p, D* o) { D tau = 0.07; for (int k = 0; k < 8; k++) { rot(p, tau, o); D d[3]; for (int j = 0; j < 3; j++) d[j] = o[j] - s.rx[j]; tau = norm(d) / C; } return tau * C; }
static Look look(const Scene& s, const D* p) { D d[3], e[3]; Look l; for (int k = 0; k < 3; k++) d[k] = p[k] - s.rx[k]; D r = norm(d); D latc = asinl(s.rx[2] / norm(s.rx)), lon = atan2l(s.rx[1], s.rx[0]); toEnu(d, latc, lon, e); l.el = (double)(asinl(e[2] / r) * R2D); l.az = (double)(atan2l(e[0], e[1]) * R2D); toEnu(d, s.lat, lon, e); l.elg = (double)(asinl(e[2] / r) * R2D); l.azg = (double)(atan2l(e[0], e[1]) * R2D); return l; }
struct Want { D rho, clk, drift, rel, p[3], v[3]; Look l; D corrected() const { return rho - clk - rel; } };
   // kind: 1 received at t; 2 received at t with this pseudorange; 3 sent at t (satellite clock) with this pseudorange; 4 received at t, pseudorange unknown
static Want want(const Scene& s, int kind, double pr)
{
   Want w; D p[3], q[3], clk = 0, rel = 0, d = 0, rho;
   if (kind == 1) { D tau = 0.07; for (int k = 0; k < 12; k++) { at(s.sv, -tau, p, clk, rel); tau = lightTime(s, p, q) / C; } d = -tau; }
   else { if (kind == 4) { at(s.sv, 0, p, clk, rel); pr = (double)(lightTime(s, p, q) - (clk + rel) * C); } if (kind != 3) { d = -(D)pr / C; for (int k = 0; k < 6; k++) { at(s.sv, d, p, clk, rel); d = -(D)pr / C - clk - rel; } } }
   at(s.sv, d, p, clk, rel);
   if (kind == 3) { rot(p, (D)pr / C - clk - rel, q); D e[3]; for (int j = 0; j < 3; j++) e[j] = q[j] - s.rx[j]; rho = norm(e); } else rho = lightTime(s, p, q);
   w.rho = rho; w.clk = clk * C; w.drift = s.sv.c1 * (D)C; w.rel = rel * C; D v[3] = {s.sv.v[0], s.sv.v[1], s.sv.v[2]}; rot(v, rho / C, w.v); for (int k = 0; k < 3; k++) w.p[k] = q[k]; w.l = look(s, q); return w;
}
static double realistic(G& g, const Scene& s) { D p[3], q[3], c, r; at(s.sv, -0.075L, p, c, r); return (double)(lightTime(s, p, q) - (c + r) * C) + (g.flag() ? g.real(-50, 50) : g.real(-1000, 1000)); }
static void checkCer(const Scene& s, const CorrectedEphemerisRange& c, double got, const Want& w, const char* what, double tol)
{
   REQ_NEAR(c.rawrange, (double)w.rho, tol, what << " geometric range"); REQ_NEAR(c.svclkbias, (double)w.clk, 1e-5, what << " clock bias"); REQ_NEAR(c.svclkdrift, (double)w.drift, 1e-8, what << " clock drift"); REQ_NEAR(c.relativity, (double)w.rel, tol > 2e-3 ? 1.6e-2 : 1e-4, what << " relativity"); REQ_NEAR(got, (double)w.corrected(), tol, what << " corrected range");
   REQ_NEAR(c.elevation, w.l.el, 1e-7, what << " elevation"); REQ_NEAR(c.elevationGeodetic, w.l.elg, 1e-7, what << " geodetic elevation"); double ta = 1e-7 / std::cos(w.l.el / R2D); REQUIRE(azDiff(c.azimuth, w.l.az) < ta, what << " azimuth " << c.azimuth << " expected " << w.l.az); REQUIRE(azDiff(c.azimuthGeodetic, w.l.azg) < 1e-7 / std::cos(w.l.elg / R2D), what << " geodetic azimuth " << c.azimuthGeodetic << " expected " << w.l.azg);
   for (int k = 0; k < 3; k++) { REQ_NEAR(c.cosines[k], (double)((s.rx[k] - w.p[k]) / w.rho), 1e-9, what << " direction cosine " << k); REQ_NEAR(c.svPosVel.x[k], (double)w.p[k], tol * 2, what << " position " << k); }
}
PROP(ranges, 60000, 1500000, "the satellite clock, its velocity and the rotation of the Earth all matter")
{
   Scene s; genScene(g, s); double pr = realistic(g, s); g << " pseudorange " << pr; Want w1 = want(s, 1, 0), w2 = want(s, 2, pr), w3 = want(s, 3, pr), w4 = want(s, 4, 0); Xvt x; g.nontrivial(s.sv.c0 != 0 && std::fabs((double)(w2.rho - w3.rho)) > 1);
   CorrectedEphemerisRange c; double got = c.ComputeAtReceiveTime(s.t, s.pos, s.id, s.eph); checkCer(s, c, got, w1, "ComputeAtReceiveTime", 1e-3); REQ_NEAR(s.t - c.transmit, (double)(w1.rho / C), 1e-11, "transmit time of ComputeAtReceiveTime"); got = c.ComputeAtTransmitTime(s.t, pr, s.pos, s.id, s.eph); checkCer(s, c, got, w2, "ComputeAtTransmitTime", 1e-3); got = c.ComputeAtTransmitSvTime(s.t, pr, s.pos, s.id, s.eph); checkCer(s, c, got, w3, "ComputeAtTransmitSvTime", 2e-2); got = c.ComputeAtTransmitTime(s.t, s.pos, s.id, s.eph); checkCer(s, c, got, w4, "ComputeAtTransmitTime without pseudorange", 1e-3);
   auto pv = [&](const Want& w, const char* what, double tol, bool vel) { for (int k = 0; k < 3; k++) { REQ_NEAR(x.x[k], (double)w.p[k], 2 * tol, what << " position " << k); if (vel) REQ_NEAR(x.v[k], (double)w.v[k], 1e-4, what << " velocity " << k); } REQ_NEAR(ord::SvClockBiasCorrection(x), -(double)w.clk, 1e-5, what << " SvClockBiasCorrection"); if (vel) REQ_NEAR(ord::SvRelativityCorrection(x), -(double)w.rel, 1e-4, what << " SvRelativityCorrection"); };
   REQ_NEAR(ord::RawRange1(s.pos, s.id, s.t, s.eph, x), (double)w1.rho, 1e-3, "RawRange1"); pv(w1, "RawRange1", 1e-3, true); REQ_NEAR(ord::RawRange2(pr, s.pos, s.id, s.t, s.eph, x), (double)w2.rho, 1e-3, "RawRange2"); pv(w2, "RawRange2", 1e-3, true); REQ_NEAR(ord::RawRange3(pr, s.pos, s.id, s.t, s.eph, x), (double)w3.rho, 3e-3, "RawRange3"); pv(w3, "RawRange3", 3e-3, false); REQ_NEAR(ord::RawRange4(s.pos, s.id, s.t, s.eph, x), (double)w4.rho, 1e-3, "RawRange4"); pv(w4, "RawRange4", 1e-3, true);
   Xvt e = ord::getSvXvt(s.id, s.t, s.eph); for (int k = 0; k < 3; k++) REQ_EQ(e.x[k], s.sv.p[k], "getSvXvt"); D p[3], q[3], cl, re; at(s.sv, 0, p, cl, re); D rho = lightTime(s, p, q); REQ_NEAR(e.preciseRho(s.pos, GPSEllipsoid()), (double)(rho - (cl + re) * C), 3e-3, "Xvt::preciseRho"); double corr = g.real(-100, 100); REQ_NEAR(e.preciseRho(s.pos, GPSEllipsoid(), corr), (double)(rho - (cl + re) * C) - corr, 3e-3, "Xvt::preciseRho with a correction"); REQ_NEAR(RelativityCorrection(e) * 1e9, (double)re * 1e9, 1e-4, "RelativityCorrection");
   SatID other(s.id.id % 32 + 1, s.id.system); int bad = 0; for (int k = 0; k < 8; k++) try { switch (k) { case 0: ord::RawRange1(s.pos, other, s.t, s.eph, x); break; case 1: ord::RawRange2(pr, s.pos, other, s.t, s.eph, x); break; case 2: ord::RawRange3(pr, s.pos, other, s.t, s.eph, x); break; case 3: ord::RawRange4(s.pos, other, s.t, s.eph, x); break; case 4: c.ComputeAtReceiveTime(s.t, s.pos, other, s.eph); break; case 5: c.ComputeAtTransmitTime(s.t, pr, s.pos, other, s.eph); break; case 6: c.ComputeAtTransmitSvTime(s.t, pr, s.pos, other, s.eph); break; default: ord::getSvXvt(other, s.t, s.eph); } } catch (InvalidRequest&) { bad++; } catch (Exception&) {} REQ_EQ(bad, 8, "functions that refuse a satellite without ephemeris");
}
static IonoModelStore iono(G& g, const CommonTime& t) { double a[4] = {g.real(0, 3e-8), g.real(-3e-8, 3e-8), g.real(-1e-7, 1e-7), g.real(-2e-7, 2e-7)}, b[4] = {g.real(8e4, 1.5e5), g.real(-2e5, 2e5), g.real(-3e5, 3e5), g.real(-6e5, 6e5)}; IonoModel m(a, b); IonoModelStore s; s.addIonoModel(t - g.range(0, 86400), m); return s; }
PROP(deviations, 40000, 1000000, "ionosphere or a second frequency")
{
   Scene s; genScene(g, s); double obs = realistic(g, s); bool sv = g.flag(), dual = g.oneIn(3); GPSEllipsoid em; Trop tm(g.real(0, 20)); bool nb = g.flag(), io = !dual && g.flag(); IonoModelStore is = iono(g, s.t); CarrierBand band = g.flag() ? CarrierBand::L1 : CarrierBand::L2; double gamma = g.oneIn(3) ? g.real(1.2, 2) : GAMMA_GPS, p2 = obs + (dual ? g.real(-20, 60) : 0), used = dual ? (double)(((D)p2 - (D)gamma * obs) / (1 - (D)gamma)) : obs; g << " obs " << obs << " p2 " << p2 << " sv " << sv << " nb " << nb << " io " << io << " dual " << dual; g.nontrivial(io || dual);
   Want w = want(s, sv ? 3 : 2, used); std::unique_ptr<ObsRngDev> r; bool defg = gamma == GAMMA_GPS && g.flag();
   if (dual) { if (nb) r.reset(defg ? new ObsRngDev(obs, p2, s.id, s.t, s.pos, s.eph, em, sv) : new ObsRngDev(obs, p2, s.id, s.t, s.pos, s.eph, em, sv, gamma)); else r.reset(defg ? new ObsRngDev(obs, p2, s.id, s.t, s.pos, s.eph, em, tm, sv) : new ObsRngDev(obs, p2, s.id, s.t, s.pos, s.eph, em, tm, sv, gamma)); }
   else if (io) { if (nb) r.reset(new ObsRngDev(obs, s.id, s.t, s.pos, s.eph, em, is, band, sv)); else r.reset(new ObsRngDev(obs, s.id, s.t, s.pos, s.eph, em, tm, is, band, sv)); }
   else { if (nb) r.reset(new ObsRngDev(obs, s.id, s.t, s.pos, s.eph, em, sv)); else r.reset(new ObsRngDev(obs, s.id, s.t, s.pos, s.eph, em, tm, sv)); }
   REQUIRE(r->getTime() == s.t && r->getSvID() == s.id, "time and satellite"); REQ_NEAR((double)(float)r->getElevation(), w.l.el, 1e-5, "elevation"); REQUIRE(azDiff((float)r->getAzimuth(), w.l.az) < 5e-5 + 1e-6 / std::cos(w.l.el / R2D), "azimuth " << r->getAzimuth() << " expected " << w.l.az); REQ_NEAR((double)r->rho, (double)w.corrected(), sv ? 2e-2 : 1e-3, "expected range"); REQUIRE(!r->getHealth().is_valid() && !r->getIODC().is_valid() && !r->wonky, "health and IODC are unknown for such a store");
   double trop, ion = 0; if (nb) { NBTropModel m(s.h, s.lat * R2D, (int)YDSTime(s.t).doy); trop = m.correction(w.l.el); } else trop = tm.correction(w.l.el); REQ_NEAR((double)r->getTrop(), trop, 1e-3 + 1e-4 * std::fabs(trop), "troposphere");
   Position geo(s.pos); geo.asGeodetic(&em); if (io) { ion = is.getCorrection(s.t, geo, w.l.el, w.l.az < 0 ? w.l.az + 360 : w.l.az, band); if (w.l.el > 0) REQ_NEAR((double)r->getIono(), ion, 1e-3, "ionosphere"); else ion = r->getIono(); } else if (dual) REQ_NEAR((double)r->getIono(), obs - used, 1e-4, "ionosphere of two frequencies"); else REQUIRE(!r->getIono().is_valid(), "no ionosphere");
   REQ_NEAR(r->getORD(), used - (double)w.corrected() - (double)r->getTrop() - ion, sv ? 2.1e-2 : 2e-3, "deviation"); double o = r->getORD(), off = g.real(-1e5, 1e5); r->applyClockOffset(off); REQ_NEAR(r->getORD(), o - off, 1e-8, "deviation less the clock offset");
      // the functions of ord give the terms
   Xvt x; for (int k = 0; k < 3; k++) x.x[k] = (double)w.p[k]; REQ_NEAR(ord::TroposphereCorrection(tm, s.pos, x), tm.correction(w.l.el), 1e-5, "TroposphereCorrection"); double iw = is.getCorrection(s.t, geo, w.l.el, w.l.az < 0 ? w.l.az + 360 : w.l.az, band); if (w.l.el > 0) REQ_NEAR(ord::IonosphereModelCorrection(is, s.t, band, s.pos, x), -iw, 1e-4, "IonosphereModelCorrection");
   double f1 = g.real(1.1e9, 1.6e9), f2 = f1 * g.real(0.6, 0.95); D gm = ((D)f1 / f2) * ((D)f1 / f2); double icpr = (double)(((D)p2 - gm * obs) / (1 - gm)); REQ_NEAR(ord::IonosphereFreeRange({f1, f2}, {obs, p2}), icpr, 1e-5, "IonosphereFreeRange"); int bad = 0; for (auto& b : vector<std::pair<vector<double>, vector<double> > >{{{f1, f2}, {obs}}, {{f1}, {obs}}, {{}, {}}, {{f1, f2, f1}, {obs, p2, obs}}, {{f1}, {obs, p2}}}) try { ord::IonosphereFreeRange(b.first, b.second); } catch (Exception&) { bad++; } REQ_EQ(bad, 5, "IonosphereFreeRange refuses");
   if (!dual && io) { IonoModelStore none; bool th = false; try { ObsRngDev z(obs, s.id, s.t, s.pos, s.eph, em, tm, none, band, sv); } catch (Exception&) { th = true; } REQUIRE(th, "no ionosphere model and no exception"); }
}
PROP(broadcast, 6000, 150000, "an unhealthy satellite")
{
   GPSEphemerisStore st; int wk = g.range(1500, 2300), n = g.range(1, 3), health = g.pick(vector<int>{0, 0x20, 0x3f, 1, 0x1f}), iodc = g.range(0, 1023); SatID id(g.range(1, 32), SatelliteSystem::GPS); CommonTime toe = GPSWeekSecond(wk, 3600.0 * 2 * g.range(2, 70), TimeSystem::GPS); st.setOnlyHealthyFlag(false); (void)n;
   GPSEphemeris e; e.satID = id; e.obsID = ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA); e.ctToe = e.ctToc = toe; e.dataLoadedFlag = true; e.fitDuration = 4; e.IODC = iodc; e.IODE = iodc & 255; e.health = health; e.accuracyFlag = 0; e.A = 26560000.0; e.ecc = g.real(0, 0.02); e.i0 = 0.96; e.OMEGA0 = g.real(-3, 3); e.w = g.real(-3, 3); e.M0 = g.real(-3, 3); e.OMEGAdot = -8e-9; e.af0 = g.real(-1e-4, 1e-4); e.af1 = 1e-12; e.transmitTime = toe - 7200; e.HOWtime = (long)GPSWeekSecond(e.transmitTime).sow; e.beginValid = toe - 7200; e.endValid = toe + 7200; st.addEphemeris(e);
   CommonTime t = toe + g.range(-3000, 3000); Xvt x = st.getXvt(id, t); double r = std::sqrt(x.x[0] * x.x[0] + x.x[1] * x.x[1] + x.x[2] * x.x[2]), tilt = g.real(0, 1); Triple u; for (int k = 0; k < 3; k++) u[k] = x.x[k] / r * 6371000.0; Position rx(u[0] + tilt * 1e6, u[1] - tilt * 5e5, u[2]); double pr = x.preciseRho(rx, GPSEllipsoid()) + g.real(-100, 100); g << "health " << health << " iodc " << iodc << " pr " << pr; g.nontrivial(health != 0);
   GPSEllipsoid em; Trop tm(2); ObsRngDev o(pr, id, t, rx, st, em, tm); REQUIRE(o.getHealth().is_valid() && (short)o.getHealth() == health, "health of the ephemeris"); REQUIRE(o.getIODC().is_valid() && (short)o.getIODC() == iodc, "IODC of the ephemeris"); CorrectedEphemerisRange c; REQ_NEAR(o.getORD(), pr - c.ComputeAtTransmitTime(t, pr, rx, id, st) - tm.correction((float)o.getElevation()), 1e-4, "deviation with a broadcast ephemeris");
}
   // ---- clock models
typedef ObsClockModel M;
struct Obs { SatID id; double ord, el; bool hasEl; int health; unsigned wonky; };
static ObsRngDev mk(const Obs& o) { ObsRngDev r; r.svid = o.id; r.ord = o.ord; if (o.hasEl) r.elevation = (float)o.el; if (o.health >= 0) r.health = (short)o.health; r.wonky = o.wonky; return r; }
struct Cfg { double sigma, mask; bool wonky; map<SatID, M::SvMode> modes; };
struct Result { map<SatID, M::SvStatus> st; vector<double> used; D mean; bool ambiguous; };
static D average(const vector<double>& v) { D s = 0; for (double x : v) s += x; return v.empty() ? 0 : s / v.size(); }
static D stdev(const vector<double>& v) { D m = average(v), s = 0; for (double x : v) s += (x - m) * (x - m); return v.size() < 2 ? 0 : sqrtl(s / (v.size() - 1)); }
static Result simple(const vector<Obs>& obs, Cfg& c)
{
   Result r; r.ambiguous = false; vector<double> v; for (auto& o : obs) { M::SvMode m = c.modes.count(o.id) ? c.modes[o.id] : M::IGNORE; M::SvStatus s = m == M::IGNORE ? M::MANUAL : m == M::HEALTHY && o.health >= 0 && (o.health & 0x20) ? M::SVHEALTH : M::USED; if ((double)(float)o.el < c.mask) s = M::ELEVATION; if (o.wonky && !c.wonky) s = M::WONKY; r.st[o.id] = s; if (s == M::USED) v.push_back(o.ord); }
   if (v.size() > 2) { D m = average(v), lim = (D)c.sigma * stdev(v), mag = 0; for (double x : v) mag = std::max(mag, fabsl(x)); for (auto& o : obs) if (r.st[o.id] == M::USED) { D d = fabsl(o.ord - m); if (fabsl(d - lim) < 1e-7L * (mag + 1e-3L)) r.ambiguous = true; if (d > lim) r.st[o.id] = M::SIGMA; } }
   for (auto& o : obs) if (r.st[o.id] == M::USED) r.used.push_back(o.ord); r.mean = average(r.used); return r;
}
static Cfg genCfg(G& g) { Cfg c; c.sigma = g.pick(vector<double>{2, 1, 1.5, 3, 0.8}); c.mask = g.pick(vector<double>{0, 5, 10, 15.5}); c.wonky = g.oneIn(4); M::SvMode d = g.pick(vector<M::SvMode>{M::ALWAYS, M::ALWAYS, M::HEALTHY, M::IGNORE}); for (int k = 1; k <= MAX_PRN; k++) c.modes[SatID(k, SatelliteSystem::GPS)] = d; return c; }
static const vector<SatID> pool = [] { vector<SatID> v; for (int k = 1; k <= 12; k++) v.push_back(SatID(k, SatelliteSystem::GPS)); v.push_back(SatID(1, SatelliteSystem::Glonass)); v.push_back(SatID(32, SatelliteSystem::GPS)); return v; }();
static vector<Obs> genEpoch(G& g, const Cfg& c, double base, double noise)
{
   vector<Obs> v; double pin = g.pick(vector<double>{0.3, 0.6, 0.9}); for (auto& id : pool) if (g.flag(pin)) { Obs o; o.id = id; o.ord = base + g.real(-noise, noise) + (g.oneIn(8) ? g.real(-30, 30) * noise : 0); o.el = g.oneIn(6) ? c.mask : g.real(-5, 90); o.hasEl = true; o.health = g.pick(vector<int>{0, 0, 0, -1, 0x20, 0x3f, 0x1f, 1}); o.wonky = g.oneIn(8) ? g.pick(vector<unsigned>{1, 2, 0x80}) : 0; v.push_back(o); } return v;
}
static void apply(M& m, const Cfg& c, G& g) { m.setSigmaMultiplier(c.sigma); m.setElevationMask(c.mask); m.setUseWonkyData(c.wonky); if (g.flag()) { for (auto& x : c.modes) m.setSvMode(x.first, x.second); } else m.setSvModeMap(c.modes); }
static ORDEpoch epoch(const vector<Obs>& v, const CommonTime& t) { ORDEpoch e; e.time = t; for (auto& o : v) e.ords[o.id] = mk(o); return e; }
static string show(const vector<Obs>& v) { string s; for (auto& o : v) s += pbt::strf(" %c%d:%.17g el%g h%d w%u", o.id.system == SatelliteSystem::GPS ? (char)71 : (char)82, o.id.id, o.ord, o.el, o.health, o.wonky); return s; }
static void checkStatus(const M& m, const Result& r, const vector<Obs>& v) { REQ_EQ(m.getSvStatusMap().size(), r.st.size(), "satellites with a status"); for (auto& o : v) REQ_EQ((int)m.getSvStatus(o.id), (int)r.st.at(o.id), "status of " << o.id); for (auto& id : pool) if (!r.st.count(id)) { bool th = false; try { m.getSvStatus(id); } catch (ObjectNotFound&) { th = true; } REQUIRE(th, "a status for a satellite not in the epoch"); break; } }
PROP(epochclock, 60000, 1200000, "an outlier and another kind of rejection")
{
   Cfg c = genCfg(g); for (auto& x : c.modes) if (g.oneIn(6)) x.second = g.pick(vector<M::SvMode>{M::ALWAYS, M::HEALTHY, M::IGNORE}); bool one = g.flag(); EpochClockModel m(one ? c.sigma : 2, one ? c.mask : 0); if (g.oneIn(10)) { M::SvMode d = g.pick(vector<M::SvMode>{M::ALWAYS, M::HEALTHY, M::IGNORE}); for (auto& x : c.modes) x.second = d; m = EpochClockModel(c.sigma, c.mask, d); m.setUseWonkyData(c.wonky); if (g.flag()) m.setSvMode(d); } else if (g.oneIn(4)) { map<SatID, M::SvMode> some; for (auto& x : c.modes) { if (g.flag()) some[x.first] = x.second; else x.second = M::IGNORE; } apply(m, c, g); m.setSvModeMap(some); } else apply(m, c, g);
   REQUIRE(!m.isOffsetValid(), "valid before any epoch"); REQUIRE(m.getSigmaMultiplier() == c.sigma && m.getElevationMask() == c.mask && m.getUseWonkyData() == c.wonky, "settings"); for (int k : {1, 7, 12, 32}) REQ_EQ((int)m.getSvMode(SatID(k, SatelliteSystem::GPS)), (int)c.modes[SatID(k, SatelliteSystem::GPS)], "mode of " << k); bool th = false; try { m.getSvMode(SatID(3, SatelliteSystem::BeiDou)); } catch (ObjectNotFound&) { th = true; } REQUIRE(th, "a mode for a satellite never set");
   int ne = g.range(1, 3); bool nt = false; CommonTime t0 = GPSWeekSecond(2000, 1000.0 * g.range(0, 500), TimeSystem::GPS);
   for (int k = 0; k < ne; k++)
   {
      CommonTime t = t0 + 30 * k; double noise = g.pick(vector<double>{1, 3, 0.1}), base = g.oneIn(3) ? 0 : g.real(-1e5, 1e5); vector<Obs> v = genEpoch(g, c, base, noise); g << " epoch" << show(v); Result r = simple(v, c); if (r.ambiguous) { g.assume(false); return; } ORDEpoch e = epoch(v, t); m.addEpoch(e); checkStatus(m, r, v); int sig = 0, oth = 0; for (auto& x : r.st) { sig += x.second == M::SIGMA; oth += x.second != M::SIGMA && x.second != M::USED; } nt |= sig && oth;
      REQ_EQ(m.isOffsetValid(), r.used.size() >= 3, "validity with " << r.used.size() << " used"); REQ_EQ(m.isOffsetValid(t), r.used.size() >= 3, "validity at the epoch"); REQ_NEAR(m.getOffset(), (double)r.mean, 1e-7, "offset"); REQ_EQ(m.getOffset(t), m.getOffset(), "offset at the epoch"); int bad = 0; try { m.getOffset(t + 1); } catch (InvalidArgumentException&) { bad++; } try { m.isOffsetValid(t - 1); } catch (InvalidArgumentException&) { bad++; } REQ_EQ(bad, 2, "other times refused");
      Stats<double> st = m.simpleOrdClock(e); REQ_EQ((size_t)st.N(), r.used.size(), "number in the statistics"); REQ_NEAR(st.Average(), (double)r.mean, 1e-7, "mean of the statistics");
      ORDEpoch a = e; a.applyClockModel(m); REQ_EQ(a.ords.size(), v.size(), "records"); bool val = r.used.size() >= 3; REQ_EQ(a.clockOffset.is_valid(), val, "clock offset set"); if (val) REQ_NEAR((double)a.clockOffset, (double)r.mean, 1e-7, "clock offset"); for (auto& o : v) REQ_NEAR(a.ords[o.id].getORD(), o.ord - (val ? (double)r.mean : 0), 1e-7, "deviation after the model of " << o.id);
      if (!v.empty()) { SatID x = g.pick(v).id, y(31, SatelliteSystem::GPS); a = e; a.removeORD(y); REQ_EQ(a.ords.size(), v.size(), "removing one that is not there"); a.removeORD(x); REQUIRE(a.ords.size() + 1 == v.size() && !a.ords.count(x), "removeORD"); double off = g.real(-10, 10); a.removeOffset(off); for (auto& o : v) if (!(o.id == x)) REQ_NEAR(a.ords[o.id].getORD(), o.ord - off, 1e-9, "removeOffset"); }
   }
   g.nontrivial(nt); if (g.oneIn(10)) { Obs o{pool[0], 1, 0, false, 0, 0}; bool t2 = false; try { m.addEpoch(epoch({o}, t0)); } catch (InvalidValue&) { t2 = true; } REQUIRE(t2, "a deviation without elevation"); }
}
PROP(linearclock, 12000, 250000, "a jump of the clock, or epochs that leave the window")
{
   struct P { double t, y; }; Cfg c = genCfg(g); LinearClockModel m; apply(m, c, g); if (g.oneIn(8)) m.reset(); std::ostringstream sink; int ne = g.range(2, 60); double slope = g.oneIn(3) ? 0 : g.real(-0.05, 0.05), icpt = g.real(-1e4, 1e4), noise = g.pick(vector<double>{0.1, 1, 2}), step = g.pick(vector<double>{30, 60, 300, 450}); CommonTime t0 = GPSWeekSecond(2000, 1000.0 * g.range(0, 500), TimeSystem::GPS); bool nt = false; vector<P> win; double first = 0, last = 0, base = 0; int toss = 0; bool any = false; double tt = 0; bool dirty = false, fresh = true;
   g << "epochs " << ne << " step " << step << " slope " << slope << " icpt " << icpt << " noise " << noise << " sigma " << c.sigma << " mask " << c.mask;
   for (int k = 0; k < ne; k++)
   {
      double t = tt; if (!g.oneIn(12)) tt += step; else tt += step * g.range(2, 8); if (g.oneIn(15) && t > 2 * step) t -= step * 1.5; bool jump = g.oneIn(40); if (jump) icpt += g.real(-200, 200); vector<Obs> v = g.oneIn(12) ? vector<Obs>() : genEpoch(g, c, icpt + slope * t, noise); g << pbt::strf(" [%g n%d%s]", t, (int)v.size(), jump ? " jump" : ""); Result r = simple(v, c); if (r.ambiguous) { g.assume(false); return; } CommonTime ct = t0 + t;
      if (win.empty()) { first = last = base = t; toss = 0; any = true; if (!fresh) dirty = true; } double d = t - base; first = std::min(first, t); last = std::max(last, t); D pred = r.mean; D sx = 0, sy = 0, sxx = 0, sxy = 0; auto fit = [&](D& a, D& b) { sx = sy = sxx = sxy = 0; for (auto& p : win) { sx += p.t; sy += p.y; } D n = win.size(), mx = sx / n, my = sy / n; for (auto& p : win) { sxx += (p.t - mx) * (p.t - mx); sxy += (p.t - mx) * (p.y - my); } b = sxx == 0 ? 0 : sxy / sxx; a = my - b * mx; };
      if (win.size() > 24) { D a, b; fit(a, b); pred = a + b * d; if (sxx == 0 && dirty) { g.assume(false); return; } } if (fabsl(fabsl(r.mean - pred) - 20) < 1e-4) { g.assume(false); return; }
      std::streambuf* old = std::cout.rdbuf(sink.rdbuf()); try { m.addEpoch(epoch(v, ct)); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); checkStatus(m, r, v);
      if (fabsl(r.mean - pred) > 20) { nt = true; if (++toss > 5) { win.clear(); any = false; toss = 0; dirty = false; fresh = true; } } else { toss = 0; for (double y : r.used) win.push_back({d, y}); if (!r.used.empty()) fresh = false; }
      size_t before = win.size(); win.erase(std::remove_if(win.begin(), win.end(), [&](const P& p) { return d - p.t > 1800; }), win.end()); if (win.size() != before) { nt = true; dirty = true; }
      bool ok = any && win.size() > 1; for (double q : {first, last, (first + last) / 2, t, first - 1, last + 1}) { bool inside = ok && q >= first && q <= last; CommonTime cq = t0 + q; REQ_EQ(m.isOffsetValid(cq), inside, "validity at " << q << " of " << first << " to " << last << " with " << win.size()); if (!inside) REQ_EQ(m.getOffset(cq), 0.0, "offset when not valid"); else { D a, b; fit(a, b); if (sxx == 0 && dirty) continue; double tol = 1e-6 + 1e-9 * (double)(std::fabs(icpt) + fabsl(b) * 1e4); if (sxx > 0) tol += 1e-13 * (1 + last) * (1 + last) / std::sqrt((double)(sxx / win.size()) + 1) * (1 + std::fabs(icpt)) / std::sqrt((double)sxx + 1); REQ_NEAR(m.getOffset(cq), (double)(a + b * (q - base)), tol, "offset at " << q); } }
   }
   g.nontrivial(nt); if (g.oneIn(4)) { m.reset(); REQUIRE(!m.isOffsetValid(t0) && m.getOffset(t0) == 0, "after reset"); }
}
PBT_MAIN
