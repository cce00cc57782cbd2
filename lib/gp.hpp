// GPSTk-side helpers shared by the harnesses.
#pragma once
#include "pbt.hpp"
#include "Exception.hpp"
#include "CommonTime.hpp"
#include "TimeSystem.hpp"
#include "TimeConstants.hpp"
namespace gp
{
struct InitExc { InitExc() { pbt::excDescriber() = [](std::string& d) { try { throw; } catch (gpstk::Exception& e) { d = e.getName() + ": " + (e.getTextCount() ? e.getText(0) : "") ; return true; } catch (...) { throw; } return false; }; } };
static InitExc initExc;

// --- an independent civil calendar: Julian before 15 Oct 1582, Gregorian from then on; years count ... -2, -1, 1, 2 ... (no year 0)
inline bool leap(long y, bool greg) { return greg ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) : (y % 4 == 0); }
inline int mdays(long astroYear, int m, bool greg) { static const int d[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return m == 2 && leap(((astroYear % 400) + 400) % 400, greg) ? 29 : d[m - 1]; }
struct YMD { long y; int m, d; int doy; };
   // day number (JD at noon of that day) -> date, by counting (tabulated once)
inline const std::vector<YMD>& calendar()
{
   static std::vector<YMD> c;
   if (c.empty())
   {
      long ay = -4712; int m = 1, d = 1, doy = 1; bool greg = false;
      c.reserve(3442460);
      for (long jd = 0; jd <= 3442449; ++jd)
      {
         c.push_back({ay <= 0 ? ay - 1 : ay, m, d, doy});
         if (ay == 1582 && m == 10 && d == 4) { d = 15; greg = true; ++doy; continue; }
         ++d; ++doy;
         if (d > mdays(ay, m, greg)) { d = 1; if (++m > 12) { m = 1; ++ay; doy = 1; } }
      }
   }
   return c;
}
inline const std::vector<gpstk::TimeSystem>& systems()
{
   using gpstk::TimeSystem;
   static const std::vector<TimeSystem> v{TimeSystem::GPS, TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI, TimeSystem::TT, TimeSystem::TDB};
   return v;
}
inline std::string show(const gpstk::CommonTime& t) { return t.asString(); }
inline std::string what(const gpstk::Exception& e) { return e.getName() + ": " + (e.getTextCount() ? e.getText(0) : ""); }
}
