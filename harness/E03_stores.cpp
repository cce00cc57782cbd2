// E03: broadcast ephemeris stores against a scan over a plain list of the records they were given.
#include "gp.hpp"
#include <memory>
#include "OrbitEphStore.hpp"
#include "GPSEphemerisStore.hpp"
#include "GalEphemerisStore.hpp"
#include "BDSEphemerisStore.hpp"
#include "QZSEphemerisStore.hpp"
#include "OrbElemStore.hpp"
#include "GPSOrbElemStore.hpp"
#include "OrbElemRinex.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "GPSAlmanacStore.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using pbt::G; using pbt::strf; using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr;

static TimeSystem tsOf(SatelliteSystem s) { return s == SatelliteSystem::Galileo ? TimeSystem::GAL : s == SatelliteSystem::BeiDou ? TimeSystem::BDT : s == SatelliteSystem::QZSS ? TimeSystem::QZS : s == SatelliteSystem::Glonass ? TimeSystem::GLO : TimeSystem::GPS; }
static int g_week; // the week in which second 0 of the model lies
static CommonTime ct(double s, TimeSystem ts) { CommonTime t(GPSWeekSecond(g_week, 0.0, TimeSystem::GPS)); t.addSeconds((long)std::floor(s)); t.addSeconds(s - std::floor(s)); t.setTimeSystem(ts); return t; }
static double sec(const CommonTime& t0) { CommonTime t(t0); t.setTimeSystem(TimeSystem::GPS); return t - CommonTime(GPSWeekSecond(g_week, 0.0, TimeSystem::GPS)); }

template <class E> static void elems(E& o, const SatID& s, double toe, double m0) { o.dataLoadedFlag = true; o.satID = s; o.ctToe = ct(toe, tsOf(s.system)); o.ctToc = o.ctToe; o.af0 = 1e-5 * m0; o.af1 = 1e-12; o.af2 = 0; o.M0 = m0; o.dn = 4e-9; o.dndot = 0; o.ecc = 0.01; o.A = 26560000; o.Adot = 0; o.OMEGA0 = 1; o.i0 = 0.96; o.w = 0.5; o.OMEGAdot = -8e-9; o.idot = 1e-10; o.Cuc = 1e-6; o.Cus = 2e-6; o.Crc = 100; o.Crs = 50; o.Cic = 1e-7; o.Cis = 1e-7; }
static OrbitEph* make(const SatID& s, double beg, double toe, double end, double m0, bool healthy, bool generic)
{
   OrbitEph* p; if (generic) p = new OrbitEph(); else if (s.system == SatelliteSystem::GPS) { GPSEphemeris* x = new GPSEphemeris(); x->health = healthy ? 0 : 1; x->IODC = 5; x->fitDuration = 4; p = x; } else if (s.system == SatelliteSystem::Galileo) { GalEphemeris* x = new GalEphemeris(); x->health = healthy ? Xvt::Healthy : Xvt::Unhealthy; p = x; } else if (s.system == SatelliteSystem::BeiDou) { BDSEphemeris* x = new BDSEphemeris(); x->health = healthy ? 0 : 1; p = x; } else { QZSEphemeris* x = new QZSEphemeris(); x->health = healthy ? 0 : 1; p = x; }
   elems(*p, s, toe, m0); p->beginValid = ct(beg, tsOf(s.system)); p->endValid = ct(end, tsOf(s.system)); return p;
}
static bool same(const Xvt& a, const Xvt& b) { for (int k = 0; k < 3; k++) if (a.x[k] != b.x[k] || a.v[k] != b.v[k]) return false; return a.clkbias == b.clkbias && a.clkdrift == b.clkdrift && a.relcorr == b.relcorr; }

   // data sets as a satellite sends them: every two hours, sometimes an upload 16 s off or a gap
struct Set { double first, toe, end; }; // first: earliest transmission
static vector<Set> timeline(G& g, int n) { vector<Set> v; double t = 7200.0 * g.range(-2, 2), off = 0; for (int k = 0; k < n; k++) { t += 7200; if (g.oneIn(6)) t += 7200.0 * g.range(1, 3); if (g.oneIn(5)) off = g.pick(vector<int>{0, 16, 32}); Set s; s.toe = t - off; s.first = t - 7200 + 30 * g.range(0, 100); s.end = t + 7200; v.push_back(s); } return v; }
struct Rec { SatID sat; double beg, toe, end, key; int id; shared_ptr<OrbitEph> obj; };

PROP(orbitephstore, 9000, 250000, "at least four records stored and two of one satellite")
{
   g_week = g.range(1400, 2300); int kind = g.below(6); bool near = g.oneIn(3); std::unique_ptr<OrbitEphStore> st; vector<SatelliteSystem> sys; switch (kind) { case 1: st.reset(new GPSEphemerisStore()); sys = {SatelliteSystem::GPS}; break; case 2: st.reset(new GalEphemerisStore()); sys = {SatelliteSystem::Galileo}; break; case 3: st.reset(new BDSEphemerisStore()); sys = {SatelliteSystem::BeiDou}; break; case 4: st.reset(new QZSEphemerisStore()); sys = {SatelliteSystem::QZSS}; break; default: st.reset(new OrbitEphStore()); sys = {SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS}; }
   OrbitEphStore& s = *st; if (near) REQUIRE(s.SearchNear(), "SearchNear of an empty store"); else REQUIRE(s.SearchUser(), "SearchUser of an empty store"); vector<SatID> sats; int ns = g.range(1, 3); for (int k = 0; k < ns; k++) { SatelliteSystem y = g.pick(sys); SatID x(y == SatelliteSystem::QZSS ? g.range(193, 196) : y == SatelliteSystem::BeiDou ? g.range(6, 9) : g.range(1, 3), y); if (std::find(sats.begin(), sats.end(), x) == sats.end()) sats.push_back(x); }
   map<SatID, vector<Set> > tl; map<SatID, vector<double> > m0; for (auto& x : sats) { tl[x] = timeline(g, g.range(1, 8)); for (size_t k = 0; k < tl[x].size(); k++) m0[x].push_back(g.real(-3, 3)); }
   vector<Rec> model; double lo = 0, hi = 0; bool lim = false; int steps = g.range(1, 40), idc = 0; bool onlyH = g.oneIn(4); s.setOnlyHealthyFlag(onlyH); REQ_EQ(s.getOnlyHealthyFlag(), onlyH, "getOnlyHealthyFlag"); g << "kind " << kind << (near ? " near" : " user") << ";"; set<SatID> ever; size_t most = 0;
   for (int step = 0; step < steps; step++)
   {
      int op = g.below(20);
      if (op < 17)
      {
         const SatID x = g.pick(sats); int k = g.below(tl[x].size()); const Set& d = tl[x][k]; double beg = d.first + (near || g.flag() ? 0 : 30 * g.range(0, 70)), toe = d.toe; bool conflict = g.oneIn(25); if (conflict) toe += 100; if (near && conflict) { toe = d.toe; conflict = false; }
         Rec r{x, beg, toe, d.end, near ? toe : beg, idc++, shared_ptr<OrbitEph>(make(x, beg, toe, d.end, m0[x][k], !g.oneIn(6), kind == 0 && g.flag()))}; g << " add " << gpstk::StringUtils::asString(x) << " beg " << beg << " toe " << toe << ";"; int same = -1, sameKey = -1; for (size_t i = 0; i < model.size(); i++) if (model[i].sat == x) { if (model[i].toe == toe) same = i; if (model[i].key == r.key) sameKey = i; }
         if (conflict && sameKey < 0) continue; // only a conflict of two data sets sent from the same time on
         bool thrown = false; OrbitEph* ret = nullptr; try { ret = s.addEphemeris(r.obj.get()); } catch (InvalidParameter&) { thrown = true; } ever.insert(x);
         if (sameKey >= 0) { bool dup = model[sameKey].toe == toe; REQ_EQ(thrown, !dup, "adding a data set sent from the same time as another one"); REQUIRE(ret == nullptr, "a duplicate is not added"); }
         else
         {
            REQUIRE(!thrown, "add"); bool add = same < 0 || model[same].key > r.key; REQ_EQ(ret != nullptr, add, "addEphemeris returns the new record if it was added"); if (add) { REQUIRE(ret->ctToe == r.obj->ctToe && ret->beginValid == r.obj->beginValid && ret != r.obj.get(), "the record returned"); if (same >= 0) model.erase(model.begin() + same); model.push_back(r); lo = lim ? std::min(lo, r.beg) : r.beg; hi = lim ? std::max(hi, r.end) : r.end; lim = true; }
         }
      }
      else if (op == 17 && g.oneIn(3)) { g << " clear;"; s.clear(); model.clear(); ever.clear(); lim = false; }
      else if (op == 18 && g.oneIn(2)) { double a = 600.0 * g.range(-30, 60), b = a + 600.0 * g.range(0, 150); g << " edit " << a << " " << b << ";"; CommonTime ta = ct(a, TimeSystem::Any), tb = ct(b, TimeSystem::Any); if (g.flag()) { s.edit(ta); b = 1e300; } else s.edit(ta, tb); vector<Rec> m; for (auto& r : model) if (r.key >= a && r.key <= b) m.push_back(r); model = m; if (b > 1e200) break; lo = a; hi = b; lim = true; }
      most = std::max(most, model.size());
         // content
      REQ_EQ((size_t)s.size(), model.size(), "size"); map<SatID, int> n; map<SatelliteSystem, int> nsys; for (auto& r : model) { n[r.sat]++; nsys[r.sat.system]++; } for (auto& x : sats) { REQ_EQ((int)s.size(x), n[x], "size of a satellite"); if (n[x]) REQUIRE(s.isPresent(x), "isPresent"); if (!ever.count(x)) REQUIRE(!s.isPresent(x), "isPresent of a satellite never added"); }
      for (auto y : sys) REQ_EQ((int)s.size(SatID(-1, y)), nsys[y], "size of a system"); REQ_EQ((size_t)s.size(SatID(-1, SatelliteSystem::Mixed)), model.size(), "size of all systems"); set<SatID> idx = s.getIndexSet(); for (auto& x : idx) REQUIRE(ever.count(x), "index set has a satellite never added"); for (auto& r : model) REQUIRE(idx.count(r.sat), "index set lacks a satellite");
      if (lim) { REQUIRE(sec(s.getInitialTime()) == lo && sec(s.getFinalTime()) == hi, "time limits " << s.getInitialTime() << " " << s.getFinalTime() << " wanted " << lo << " " << hi); } else REQUIRE(model.size() || s.getInitialTime() == CommonTime::END_OF_TIME, "limits of an empty store");
         // query
      SatID x = g.pick(sats); double t; vector<double> marks; for (auto& r : model) if (r.sat == x) { marks.push_back(r.beg); marks.push_back(r.end); marks.push_back(r.toe); } if (marks.size() && g.flag()) t = g.pick(marks) + g.pick(vector<double>{0, 0, -1, 1, -0.001, 0.001, 3600, -3600, 3592}); else t = g.range(-20000, 90000); CommonTime q = ct(t, tsOf(x.system)); g << " at " << t << ";";
      const Rec *user = nullptr, *nearest = nullptr; for (auto& r : model) if (r.sat == x) { bool valid = r.beg <= t && t <= r.end; if (r.beg <= t && (!user || r.beg > user->beg)) user = &r; if (valid && (!nearest || std::fabs(r.toe - t) < std::fabs(nearest->toe - t) || (std::fabs(r.toe - t) == std::fabs(nearest->toe - t) && r.toe > nearest->toe))) nearest = &r; } if (user && t > user->end) user = nullptr;
      if (!near) { const OrbitEph* e = s.findUserOrbitEph(x, q); REQ_EQ(e != nullptr, user != nullptr, "findUserOrbitEph finds"); if (e) REQUIRE(e->M0 == user->obj->M0 && e->beginValid == user->obj->beginValid, "findUserOrbitEph gives the set sent from " << sec(e->beginValid) << " with toe " << sec(e->ctToe) << ", wanted " << user->beg); } else { const OrbitEph* e = s.findNearOrbitEph(x, q); REQ_EQ(e != nullptr, nearest != nullptr, "findNearOrbitEph finds"); if (e) REQUIRE(e->M0 == nearest->obj->M0, "findNearOrbitEph gives toe " << sec(e->ctToe) << ", wanted " << nearest->toe); }
      const Rec* w = near ? nearest : user; const OrbitEph* e = s.findOrbitEph(x, q); REQUIRE((e != nullptr) == (w != nullptr) && (!e || e->M0 == w->obj->M0), "findOrbitEph follows the chosen search"); bool thrown = false; Xvt xv; try { xv = s.getXvt(x, q); } catch (InvalidRequest&) { thrown = true; } REQ_EQ(thrown, !w || (onlyH && !w->obj->isHealthy()), "getXvt refuses"); Xvt cx = s.computeXvt(x, q); Xvt::HealthStatus h = !w ? Xvt::Unavailable : w->obj->isHealthy() ? Xvt::Healthy : Xvt::Unhealthy; REQUIRE(cx.health == h && s.getSVHealth(x, q) == h, "health"); if (w) { Xvt want = w->obj->svXvt(q); REQUIRE(same(cx, want), "computeXvt is that of the ephemeris"); if (!thrown) REQUIRE(same(xv, want) && xv.health == h, "getXvt is that of the ephemeris"); }
      if (kind == 1) { bool th = false; try { const GPSEphemeris& ge = static_cast<GPSEphemerisStore&>(s).findEphemeris(x, q); REQUIRE(w && ge.M0 == w->obj->M0, "GPSEphemerisStore::findEphemeris"); } catch (InvalidRequest&) { th = true; } REQ_EQ(th, !w, "findEphemeris refuses"); std::list<GPSEphemeris> l; REQ_EQ((size_t)static_cast<GPSEphemerisStore&>(s).addToList(l), model.size(), "addToList count"); REQ_EQ(l.size(), model.size(), "addToList"); }
      for (auto& r : model) if (r.sat == x) { REQUIRE(s.isPresent(x, ct(r.key, tsOf(x.system))) && !s.isPresent(x, ct(r.key + 7, tsOf(x.system))), "isPresent at a time"); break; }
      if (n[x]) { double a = 1e300, b = -1e300, be = -1e300; for (auto& r : model) if (r.sat == x) { a = std::min(a, r.key); b = std::max(b, r.key); be = std::max(be, std::max(r.key, r.end)); } REQ_EQ(sec(s.getInitialTime(x)), a, "initial time of a satellite"); double f = sec(s.getFinalTime(x)); REQUIRE(f >= b && f <= be, "final time of a satellite " << f << " of records from " << b << " to " << be); } else REQUIRE(s.getInitialTime(x) == CommonTime::END_OF_TIME, "initial time of an absent satellite");
      SatID want = g.flag() ? x : SatID(-1, g.oneIn(3) ? SatelliteSystem::Unknown : x.system); std::list<OrbitEph*> l; int cnt = s.addToList(l, want); vector<shared_ptr<OrbitEph> > own; multimap: { vector<std::pair<double, double> > got, exp; for (auto p : l) { own.push_back(shared_ptr<OrbitEph>(p)); got.push_back({sec(p->beginValid), p->M0}); } for (auto& r : model) if (want.system == SatelliteSystem::Unknown || (want.system == r.sat.system && (want.id == -1 || want.id == r.sat.id))) exp.push_back({r.beg, r.obj->M0}); std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); REQUIRE(got == exp && cnt == (int)exp.size(), "addToList"); }
      if (model.size()) REQUIRE(!s.SearchNear() && !s.SearchUser(), "the search method of a filled store stays");
   }
   g.nontrivial(most >= 4 && most > sats.size());
}

struct Oe { SatID sat; double beg, toe, end; bool healthy; double m0; };
static OrbElemRinex mkOe(const Oe& r) { OrbElemRinex o; elems(o, r.sat, r.toe, r.m0); o.beginValid = ct(r.beg, tsOf(r.sat.system)); o.endValid = ct(r.end, tsOf(r.sat.system)); o.setHealthy(r.healthy); o.fitDuration = 4; return o; }
PROP(orbelemstore, 5000, 100000, "at least four records stored and two of one satellite")
{
   g_week = g.range(1400, 2300); bool gps = g.flag(); std::unique_ptr<OrbElemStore> st(gps ? new GPSOrbElemStore() : new OrbElemStore()); OrbElemStore& s = *st; SatelliteSystem y = gps ? SatelliteSystem::GPS : g.pick(vector<SatelliteSystem>{SatelliteSystem::GPS, SatelliteSystem::Galileo}); if (!gps) s.setTimeSystem(tsOf(y)); vector<SatID> sats; int ns = g.range(1, 3); for (int k = 1; k <= ns; k++) sats.push_back(SatID(k, y)); map<SatID, vector<Set> > tl; map<SatID, vector<double> > m0; for (auto& x : sats) { tl[x] = timeline(g, g.range(1, 8)); for (size_t k = 0; k < tl[x].size(); k++) m0[x].push_back(g.real(-3, 3)); }
   vector<Oe> model; double lo = 0, hi = 0; bool lim = false, edited = false; int steps = g.range(1, 40); bool onlyH = g.flag(); s.setOnlyHealthyFlag(onlyH); size_t most = 0; set<SatID> ever; g << (gps ? "GPSOrbElemStore;" : "OrbElemStore;");
   for (int step = 0; step < steps; step++)
   {
      int op = g.below(20);
      if (op < 17)
      {
         const SatID x = g.pick(sats); int k = g.below(tl[x].size()); const Set& d = tl[x][k]; Oe r{x, d.first + (g.flag() ? 0 : 30 * g.range(0, 70)), d.toe, d.end, true, m0[x][k]}; bool conflict = g.oneIn(25); if (conflict) r.toe += 100; r.healthy = k % 4 != 2; g << " add " << x.id << " beg " << r.beg << " toe " << r.toe << ";"; int sm = -1, sameKey = -1; for (size_t i = 0; i < model.size(); i++) if (model[i].sat == x) { if (model[i].toe == r.toe) sm = i; if (model[i].beg == r.beg) sameKey = i; } if (conflict && sameKey < 0) continue;
         OrbElemRinex o = mkOe(r); bool thrown = false, ret = false; try { ret = s.addOrbElem(&o); } catch (InvalidParameter&) { thrown = true; } ever.insert(x);
         if (sameKey >= 0) { REQ_EQ(thrown, model[sameKey].toe != r.toe, "adding a data set sent from the same time as another one"); REQUIRE(!ret, "a duplicate is not added"); } else { REQUIRE(!thrown, "add"); bool add = sm < 0 || model[sm].beg > r.beg; REQ_EQ(ret, add, "addOrbElem tells whether it was added"); if (add) { if (sm >= 0) model.erase(model.begin() + sm); model.push_back(r); lo = lim ? std::min(lo, r.beg) : r.beg; hi = lim ? std::max(hi, r.end) : r.end; lim = true; } }
      }
      else if (op == 17 && g.oneIn(3)) { g << " clear;"; s.clear(); model.clear(); ever.clear(); lim = false; }
      else if (op == 18 && g.oneIn(2)) { double a = 600.0 * g.range(-30, 60), b = a + 600.0 * g.range(0, 150); g << " edit " << a << " " << b << ";"; s.edit(ct(a, tsOf(y)), ct(b, tsOf(y))); vector<Oe> m; for (auto& r : model) if (r.beg >= a && r.beg <= b) m.push_back(r); model = m; lo = a; hi = b; lim = true; }
      most = std::max(most, model.size()); REQ_EQ((size_t)s.size(), model.size(), "size"); set<SatID> idx = s.getIndexSet(); std::list<SatID> il = s.getSatIDList(); REQUIRE(idx == set<SatID>(il.begin(), il.end()) && idx.size() == il.size(), "getSatIDList"); for (auto& x : idx) REQUIRE(ever.count(x), "index set has a satellite never added"); for (auto& r : model) REQUIRE(idx.count(r.sat) && s.isPresent(r.sat), "index set lacks a satellite"); for (auto& x : sats) if (!ever.count(x)) REQUIRE(!s.isPresent(x), "isPresent of a satellite never added"); if (lim) REQUIRE(sec(s.getInitialTime()) == lo && sec(s.getFinalTime()) == hi, "time limits " << s.getInitialTime() << " " << s.getFinalTime() << " wanted " << lo << " " << hi);
      SatID x = g.pick(sats); vector<double> marks; double t; for (auto& r : model) if (r.sat == x) { marks.push_back(r.beg); marks.push_back(r.end); marks.push_back(r.toe); } if (marks.size() && g.flag()) t = g.pick(marks) + g.pick(vector<double>{0, 0, -1, 1, -0.001, 0.001, 3600}); else t = g.range(-20000, 90000); CommonTime q = ct(t, tsOf(y)); g << " at " << t << ";"; const Oe *user = nullptr, *first = nullptr, *next = nullptr, *prior = nullptr; for (auto& r : model) if (r.sat == x) { if (!first || r.beg < first->beg) first = &r; if (r.beg <= t && (!prior || r.beg > prior->beg)) prior = &r; if (r.beg > t && (!next || r.beg < next->beg)) next = &r; } user = prior && t <= prior->end ? prior : nullptr; const Oe* nearW = user ? user : !prior ? first : !next ? prior : next->beg - t > t - prior->end ? prior : next;
      const OrbElemBase* e = nullptr; try { e = s.findOrbElem(x, q); } catch (InvalidRequest&) { } REQ_EQ(e != nullptr, user != nullptr, "findOrbElem finds"); if (e) REQUIRE(sec(e->beginValid) == user->beg && sec(e->ctToe) == user->toe, "findOrbElem gives the set sent from " << sec(e->beginValid) << ", wanted " << user->beg); e = nullptr; try { e = s.findNearOrbElem(x, q); } catch (InvalidRequest&) { } REQ_EQ(e != nullptr, nearW != nullptr, "findNearOrbElem finds"); if (e) REQUIRE(sec(e->beginValid) == nearW->beg, "findNearOrbElem gives the set sent from " << sec(e->beginValid) << ", wanted " << nearW->beg);
      const Oe* toeW = nullptr; double tt = marks.size() && g.flag() ? g.pick(marks) : t; for (auto& r : model) if (r.sat == x && r.toe == tt) toeW = &r; e = nullptr; try { e = s.findToe(x, ct(tt, tsOf(y))); } catch (InvalidRequest&) { } REQUIRE((e != nullptr) == (toeW != nullptr) && (!e || sec(e->beginValid) == toeW->beg), "findToe"); bool thrown = false; Xvt xv; try { xv = s.getXvt(x, q); } catch (InvalidRequest&) { thrown = true; } REQ_EQ(thrown, !user || (onlyH && !user->healthy), "getXvt refuses"); Xvt cx = s.computeXvt(x, q); Xvt::HealthStatus h = !user ? Xvt::Unavailable : user->healthy ? Xvt::Healthy : Xvt::Unhealthy; REQUIRE(cx.health == h && s.getSVHealth(x, q) == h, "health"); if (user) { Xvt want = mkOe(*user).svXvt(q); REQUIRE(same(cx, want) && (thrown || same(xv, want)), "the Xvt is that of the elements"); }
      std::list<OrbElemBase*> l; int cnt = s.addToList(l); vector<std::pair<double, double> > got, exp; for (auto p : l) { got.push_back({sec(p->beginValid), dynamic_cast<OrbElem*>(p)->M0}); delete p; } for (auto& r : model) exp.push_back({r.beg, r.m0}); std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); REQUIRE(got == exp && cnt == (int)exp.size(), "addToList");
   }
   (void)edited; g.nontrivial(most >= 4 && most > sats.size());
}

   // rationalize: a new upload ends the validity of what was sent before
PROP(rationalize, 9000, 250000, "an upload after at least one other data set")
{
   g_week = g.range(1400, 2300); int ns = g.range(1, 3); bool oe = g.flag(); GPSEphemerisStore s; GPSOrbElemStore so; struct R { double beg, toe, end; }; map<int, vector<R> > model; bool upl = false; bool cleaned = g.oneIn(6);
   for (int k = 1; k <= ns; k++)
   {
      vector<Set> v; double t = 7200.0 * g.range(0, 4), off = 0; int n = g.range(1, 9); for (int i = 0; i < n; i++) { t += 7200; if (g.oneIn(8)) t += 7200.0 * g.range(1, 2); double o = off; bool up = g.oneIn(4); if (up) off = g.pick(vector<int>{0, 16, 32}); double beg = t - 7200; if (up && off != o && off != 0) { beg = t - 7200 + 30 * g.range(1, 230); upl = upl || i > 0; } v.push_back({beg, t - off, t + 7200}); }
      for (auto& d : v) { g << " sat " << k << " beg " << d.first << " toe " << d.toe << ";"; model[k].push_back({d.first, d.toe, d.end}); }
      vector<int> order; for (size_t i = 0; i < v.size(); i++) order.push_back(i); g.shuffle(order); for (int i : order) { SatID x(k, SatelliteSystem::GPS); if (oe) { OrbElemRinex o = mkOe(Oe{x, v[i].first, v[i].toe, v[i].end, true, 0.1 * i}); o.ctToc = o.ctToe; so.addOrbElem(&o); } else { std::unique_ptr<OrbitEph> p(make(x, v[i].first, v[i].toe, v[i].end, 0.1 * i, true, false)); GPSEphemeris& e = dynamic_cast<GPSEphemeris&>(*p); GPSWeekSecond ws(p->beginValid); e.transmitTime = p->beginValid; e.HOWtime = (long)ws.sow; if ((double)GPSWeekSecond(p->ctToe).sow >= 0) s.addEphemeris(e); } }
   }
   if (cleaned) { SatID x(30, SatelliteSystem::GPS); CommonTime a = ct(0, TimeSystem::GPS); if (oe) { OrbElemRinex o = mkOe(Oe{x, -50000, -46400, -42800, true, 1}); so.addOrbElem(&o); so.edit(a, ct(1e6, TimeSystem::GPS)); } else { std::unique_ptr<OrbitEph> p(make(x, -50000, -46400, -42800, 1, true, false)); s.addEphemeris(dynamic_cast<GPSEphemeris&>(*p)); s.edit(a, ct(1e6, TimeSystem::GPS)); } g << " another satellite edited away;"; }
   g.nontrivial(upl); std::streambuf* cb = std::cout.rdbuf(nullptr); try { if (oe) so.rationalize(); else s.rationalize(); } catch (...) { std::cout.rdbuf(cb); throw; } std::cout.rdbuf(cb);
   double lo = 1e300, hi = -1e300; for (auto& kv : model) { auto& v = kv.second; double prev = 0; for (size_t i = 0; i < v.size(); i++) { double off = std::fmod(v[i].toe + 7200000, 3600); bool up = off != 0 && (i == 0 || prev != off); if (up) for (size_t j = 0; j < i; j++) if (v[j].end > v[i].beg) v[j].end = v[i].beg; prev = off; } for (auto& r : v) { lo = std::min(lo, r.beg); hi = std::max(hi, r.end); } }
   REQUIRE(sec(oe ? so.getInitialTime() : s.getInitialTime()) == lo && sec(oe ? so.getFinalTime() : s.getFinalTime()) == hi, "time limits after rationalize " << (oe ? so.getInitialTime() : s.getInitialTime()) << " " << (oe ? so.getFinalTime() : s.getFinalTime()) << ", wanted " << ct(lo, TimeSystem::GPS) << " " << ct(hi, TimeSystem::GPS));
   for (auto& kv : model) { SatID x(kv.first, SatelliteSystem::GPS); auto& v = kv.second; vector<std::pair<double, double> > got; if (oe) for (auto& m : so.getOrbElemMap(x)) { REQUIRE(m.first == m.second->beginValid, "key of the map"); got.push_back({sec(m.second->beginValid), sec(m.second->endValid)}); } else for (auto& m : s.getTimeOrbitEphMap(x)) { REQUIRE(m.first == m.second->beginValid, "key of the map"); got.push_back({sec(m.second->beginValid), sec(m.second->endValid)}); } REQ_EQ(got.size(), v.size(), "records after rationalize"); for (size_t i = 0; i < v.size(); i++) { REQUIRE(got[i].first == v[i].beg && got[i].second == v[i].end, "satellite " << kv.first << " record " << i << " is valid from " << got[i].first << " to " << got[i].second << ", wanted " << v[i].beg << " to " << v[i].end); }
      for (int q = 0; q < 3; q++) { double t = g.flag() ? g.pick(v).beg + g.pick(vector<int>{-1, 0, 1}) : g.pick(v).end + g.pick(vector<int>{-1, 0, 1}); int w = -1; for (size_t i = 0; i < v.size(); i++) if (v[i].beg <= t) w = i; if (w >= 0 && t > v[w].end) w = -1; double gt = -1; if (oe) { try { gt = sec(so.findOrbElem(x, ct(t, TimeSystem::GPS))->ctToe); } catch (InvalidRequest&) { } } else { const OrbitEph* e = s.findUserOrbitEph(x, ct(t, TimeSystem::GPS)); if (e) gt = sec(e->ctToe); } REQUIRE((w < 0) == (gt == -1) && (w < 0 || gt == v[w].toe), "after rationalize toe " << gt << " found at " << t); } }
}

PROP(rinex3store, 4000, 100000, "records of two systems")
{
   g_week = g.range(1700, 2300); Rinex3EphemerisStore s; vector<Rinex3NavData> in; map<SatelliteSystem, OrbitEphStore> kep; map<SatID, map<double, int> > keys; GloEphemerisStore glo; set<SatelliteSystem> used; int n = g.range(1, 12); std::set<std::pair<SatID, double> > have; map<SatID, int> cnt; map<SatID, double> lo, hi;
   vector<SatelliteSystem> sys{SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS, SatelliteSystem::Glonass}; bool oh = g.oneIn(4); s.setOnlyHealthyFlag(oh); REQ_EQ(s.getOnlyHealthyFlag(), oh, "getOnlyHealthyFlag"); OrbitEphStore ref; ref.setOnlyHealthyFlag(oh); glo.setCheckHealthFlag(oh);
   for (int k = 0; k < n; k++)
   {
      SatelliteSystem y = g.pick(sys); Rinex3NavData r; r.sat = RinexSatID(y == SatelliteSystem::BeiDou ? g.range(6, 7) : g.range(1, 2), y); if (y == SatelliteSystem::QZSS) r.sat = RinexSatID(g.range(193, 194), y); r.satSys = string(1, RinexSatID(r.sat).systemChar()); r.PRNID = y == SatelliteSystem::QZSS ? r.sat.id - 192 : r.sat.id; int slot = g.range(0, 10); double toe = 7200.0 * slot; r.time = ct(toe, tsOf(y)); r.health = g.oneIn(5) ? 1 : 0; r.accuracy = 2; g << " " << r.satSys << r.PRNID << " slot " << slot << " health " << r.health << ";";
      if (!have.insert({r.sat, toe}).second) continue;
      if (y == SatelliteSystem::Glonass) { r.px = 10000.0 + k; r.py = 15000.0; r.pz = 17900.0; r.vx = 1.0; r.vy = 2.0; r.vz = -2.0; r.ax = r.ay = r.az = 0.0; r.TauN = 1e-5; r.GammaN = 0.0; r.MFtime = 0.0; r.freqNum = 1; r.ageOfInfo = 0.0; }
      else { r.Toe = std::fmod(toe, 604800.0); GPSWeekSecond w(ct(toe, TimeSystem::GPS)); int wk = w.week; if (y == SatelliteSystem::BeiDou) wk -= 1356; r.weeknum = wk; r.xmitTime = (long)r.Toe; r.Toc = r.Toe; r.af0 = 1e-5 * k; r.af1 = 1e-12; r.af2 = 0.0; r.M0 = 0.2 * k; r.dn = 4e-9; r.ecc = 0.01; r.Ahalf = 5153.7; r.OMEGA0 = 1.0; r.i0 = 0.96; r.w = 0.5; r.OMEGAdot = -8e-9; r.idot = 0.0; r.Cuc = r.Cus = 1e-6; r.Crc = r.Crs = 10.0; r.Cic = r.Cis = 0.0; r.fitint = 4.0; r.IODC = 5; r.IODE = 5; r.IODnav = 5; r.datasources = 258; r.codeflgs = 1; r.L2Pdata = 0; r.Tgd = r.Tgd2 = 0.0; }
      bool ok = s.addEphemeris(r), want; used.insert(y); if (y == SatelliteSystem::Glonass) want = glo.addEphemeris(r); else { std::unique_ptr<OrbitEph> e; if (y == SatelliteSystem::GPS) e.reset(new GPSEphemeris(r)); else if (y == SatelliteSystem::Galileo) e.reset(new GalEphemeris(r)); else if (y == SatelliteSystem::BeiDou) e.reset(new BDSEphemeris(r)); else e.reset(new QZSEphemeris(r)); want = ref.addEphemeris(e.get()) != nullptr; } REQ_EQ(ok, want, "addEphemeris tells whether the record was added"); if (ok) { cnt[r.sat]++; in.push_back(r); }
   }
   g.nontrivial(used.size() > 1); map<SatelliteSystem, int> bySys; int all = 0; set<SatID> sats; for (auto& c : cnt) { bySys[c.first.system] += c.second; all += c.second; sats.insert(c.first); }
   if (g.oneIn(3)) { double a = 7200.0 * g.range(0, 5), b = 7200.0 * g.range(5, 10); CommonTime ta = ct(a, TimeSystem::Any), tb = ct(b, TimeSystem::Any); g << " edit " << a << " " << b; s.edit(ta, tb); if (ref.size()) ref.edit(ta, tb); if (glo.size()) glo.edit(ta, tb); cnt.clear(); bySys.clear(); all = 0; std::list<OrbitEph*> l; ref.addToList(l); for (auto p : l) { cnt[p->satID]++; bySys[p->satID.system]++; all++; delete p; } std::list<GloEphemeris> gl; glo.addToList(gl); vector<Rinex3NavData> left; for (auto& r : in) if (r.sat.system == SatelliteSystem::Glonass && r.time >= ta && r.time <= tb) { cnt[r.sat]++; bySys[r.sat.system]++; all++; } REQ_EQ((int)gl.size(), bySys[SatelliteSystem::Glonass], "GLONASS records left by edit"); }
   REQ_EQ(s.size(), all, "size of all systems"); for (auto y : sys) REQ_EQ(s.size(y), bySys[y], "size of system " << gpstk::StringUtils::asString(y)); for (auto& x : sats) { REQ_EQ(s.size(x), cnt[x], "size of a satellite " << x << " first in the index: " << (s.getIndexSet().size() ? *s.getIndexSet().begin() : SatID())); if (cnt[x]) REQUIRE(s.isPresent(x) && s.getIndexSet().count(x), "isPresent"); } REQUIRE(!s.isPresent(SatID(20, SatelliteSystem::GPS)) && !s.isPresent(SatID(20, SatelliteSystem::Glonass)) && !s.isPresent(SatID(1, SatelliteSystem::LEO)), "isPresent of satellites never added");
   for (auto& x : sats) { CommonTime a = x.system == SatelliteSystem::Glonass ? glo.getInitialTime(x) : ref.getInitialTime(x), b = x.system == SatelliteSystem::Glonass ? glo.getFinalTime(x) : ref.getFinalTime(x); if (cnt[x]) REQUIRE(s.getInitialTime(x) == a && s.getFinalTime(x) == b, "time limits of " << x << ": " << s.getInitialTime(x) << " " << s.getFinalTime(x) << ", wanted " << a << " " << b); }
   if (all) { double a = 1e300, b = -1e300; if (ref.size()) { a = std::min(a, sec(ref.getInitialTime())); b = std::max(b, sec(ref.getFinalTime())); } if (glo.size()) { a = std::min(a, sec(glo.getInitialTime())); b = std::max(b, sec(glo.getFinalTime())); } REQUIRE(sec(s.getInitialTime()) == a && sec(s.getFinalTime()) == b, "time limits of the store"); }
   for (int q = 0; q < 6 && sats.size(); q++) { SatID x = *std::next(sats.begin(), g.below(sats.size())); if (g.oneIn(8)) x.id += 5; CommonTime t = ct(g.flag() ? 900.0 * g.range(-8, 96) : g.real(-9000, 90000), tsOf(x.system)); g << " query " << x << " " << t; Xvt a, b; bool ta = false, tb = false; try { a = s.getXvt(x, t); } catch (InvalidRequest&) { ta = true; } try { if (x.system == SatelliteSystem::Glonass) b = glo.getXvt(x, t); else b = ref.getXvt(x, t); } catch (InvalidRequest&) { tb = true; } REQ_EQ(ta, tb, "getXvt refuses"); if (!ta) REQUIRE(same(a, b) && a.health == b.health, "getXvt"); Xvt c = s.computeXvt(x, t), d = x.system == SatelliteSystem::Glonass ? glo.computeXvt(x, t) : ref.computeXvt(x, t); REQUIRE(c.health == d.health && (c.health == Xvt::Unavailable || same(c, d)), "computeXvt"); Xvt::HealthStatus h = x.system == SatelliteSystem::Glonass ? glo.getSVHealth(x, t) : ref.getSVHealth(x, t); REQUIRE(s.getSVHealth(x, t) == h, "getSVHealth"); }
   for (int q = 0; q < 3; q++) { SatID want = q == 0 || !sats.size() ? SatID(-1, SatelliteSystem::Mixed) : *std::next(sats.begin(), g.below(sats.size())); if (q == 1) want.id = -1; std::list<Rinex3NavData> l; int k = s.addToList(l, want), exp = q == 0 || !sats.size() ? all : q == 1 ? bySys[want.system] : cnt[want]; REQ_EQ(k, exp, "addToList count for " << want); REQ_EQ((int)l.size(), exp, "addToList for " << want); for (auto& r : l) REQUIRE(want.system == SatelliteSystem::Mixed || (r.sat.system == want.system && (want.id == -1 || r.sat.id == want.id)), "addToList gave another satellite"); }
   s.clear(); REQ_EQ(s.size(), 0, "size after clear");
}

PROP(almanacs, 9000, 250000, "a satellite with at least two almanacs")
{
   g_week = g.range(1400, 2000); GPSAlmanacStore s; struct A { double toa, xmit; int h; double m0; }; map<int, map<double, A> > model; int n = g.range(0, 12); double lo = 1e300, hi = -1e300;
   for (int k = 0; k < n; k++) { int prn = g.oneIn(12) ? g.pick(vector<int>{0, 33, -1, 32, 1}) : g.range(1, 3), slot = g.range(0, 12); double toa = 50000.0 + 147456.0 * slot, xmit = toa - 60000 - 4096 * (slot % 3); if (xmit < 0) xmit = 0; GPSWeekSecond w(ct(toa, TimeSystem::GPS)), wx(ct(xmit, TimeSystem::GPS)); double m = g.real(-3, 3); int h = g.oneIn(4) ? 1 : 0; g << " prn " << prn << " toa " << toa << ";"; AlmOrbit a(prn, 0.01, 0, -8e-9, 5153.7, 1, 0.5, m, 1e-5, 1e-12, (long)w.sow, (long)wx.sow, w.week, h); bool ok = s.addAlmanac(a); REQ_EQ(ok, prn >= 1 && prn <= 32, "addAlmanac"); if (ok) { model[prn][toa] = A{toa, xmit, h, m}; lo = std::min(lo, toa - 302400); hi = std::max(hi, toa + 302400); } }
   bool two = false; for (auto& m : model) two = two || m.second.size() > 1; g.nontrivial(two); if (model.size()) REQUIRE(sec(s.getInitialTime()) == lo && sec(s.getFinalTime()) == hi, "time limits");
   for (int q = 0; q < 5; q++) { int prn = g.range(1, 4); double t = g.flag() ? 50000.0 + 73728.0 * g.range(-2, 26) + g.pick(vector<double>{0, -1, 1}) : g.real(-1e5, 2.2e6); CommonTime c = ct(t, TimeSystem::GPS); SatID x(prn, SatelliteSystem::GPS); g << " query " << prn << " at " << t; REQ_EQ(s.isPresent(x), model.count(prn) > 0, "isPresent"); const A *best = nullptr, *recent = nullptr; if (model.count(prn)) for (auto& kv : model[prn]) { if (!best || std::fabs(kv.first - t) < std::fabs(best->toa - t)) best = &kv.second; if (!recent || kv.second.xmit < t) recent = &kv.second; } AlmOrbit a; bool th = false; try { a = s.findAlmanac(x, c); } catch (InvalidRequest&) { th = true; } REQ_EQ(th, !best, "findAlmanac refuses"); if (best) { REQUIRE(sec(a.getToaTime()) == best->toa, "findAlmanac gives toa " << sec(a.getToaTime()) << ", wanted " << best->toa); AlmOrbits all = s.findAlmanacs(c); REQ_EQ(all.size(), model.size(), "findAlmanacs"); REQUIRE(sec(all[x].getToaTime()) == best->toa, "findAlmanacs"); REQ_EQ((int)s.getSatHealth(x, c), best->h, "getSatHealth"); Xvt v = s.getXvt(x, c); REQUIRE(same(v, a.svXvt(c)), "getXvt"); AlmOrbit b = s.findMostRecentAlmanac(x, c); REQUIRE(sec(b.getToaTime()) == recent->toa, "findMostRecentAlmanac gives toa " << sec(b.getToaTime()) << ", wanted " << recent->toa); REQUIRE(same(s.getXvtMostRecentXmit(x, c), b.svXvt(c)), "getXvtMostRecentXmit"); } }
   s.clear(); REQUIRE(!s.isPresent(SatID(1, SatelliteSystem::GPS)) && s.getInitialTime() == CommonTime::END_OF_TIME && s.getFinalTime() == CommonTime::BEGINNING_OF_TIME, "clear");
}
PBT_MAIN
