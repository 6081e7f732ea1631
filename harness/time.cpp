// The system clock, date and time texts and random integers.
#include "common.hpp"
#include <Balau/Type/ToString.hpp>
#include <Balau/Util/Strings.hpp>
#include <Balau/System/SystemClock.hpp>
#include <Balau/Util/DateTime.hpp>
#include <Balau/Util/Random.hpp>
#include <climits>
using namespace std::chrono; using Balau::Util::DateTime; namespace D = Balau::Date;
// the instant that the operating system's clock shows
static long long instant; static int readings;
extern "C" long long vp_now() asm("_ZNSt6chrono3_V212system_clock3nowEv"); extern "C" long long vp_now() { readings++; return instant; }
#ifndef OFFBITS
#define OFFBITS 20
#endif
static const long long bases[4] = {0, 999999999999500000ll, 2147483647999500000ll, 4102444799999500000ll}; // 1970, 2001, 2038, 2099
extern "C" void clock_units() { long long base = bases[vp_choose(4, "time")]; unsigned off = vp_range<unsigned>(0, (1u << OFFBITS) - 1, "offset"); instant = base + off; Balau::System::SystemClock c; Balau::System::Clock& k = c; unsigned long w = vp_choose(6, "unit"); static const unsigned unit[6] = {1, 1, 1000, 1000000, 10000000, 100000000};
  // whole units: of the instant's base plus those completed by the offset, in arithmetic of 32 bits
  unsigned u = unit[w]; long long got = w == 0 ? k.now().time_since_epoch().count() : w == 1 ? k.nanotime().count() : w == 2 ? k.microtime().count() : w == 3 ? k.millitime().count() : w == 4 ? k.centitime().count() : k.decitime().count();
  unsigned r = (unsigned)(base % u); vp_assert(got == base / u + (long long)((r + off) / u), "a reading of the clock is the instant in whole units"); vp_assert(readings == 1, "each reading looks at the clock once"); vp_reach("read"); if (off + r >= u) vp_reach("next unit"); }
static const int first[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
struct Date { int y, m, d; };
static Date dateOf(unsigned day0, int y0) { int y = y0; unsigned d = day0; for (;;) { unsigned n = 365 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)); if (d < n) break; d -= n; y++; } bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); int m = 0; while (m < 11 && d >= (unsigned)first[m + 1] + (leap && m + 1 >= 2)) m++; return {y, m + 1, (int)(d - first[m] - (leap && m >= 2)) + 1}; }
static long long daysTo(int y) { long long n = 0; for (int i = 1970; i < y; i++) n += 365 + (i % 4 == 0 && (i % 100 != 0 || i % 400 == 0)); return n; }
// every day of some years around a given one
static const int starts[3] = {1970, 1996, 2098};
static const unsigned dayList[] = {0, 30, 31, 58, 59, 60, 89, 90, 120, 151, 181, 212, 243, 273, 304, 334, 364, 365, 366, 729, 730, 731, 789, 790, 1094, 1095, 1096, 1154, 1155, 1460, 1461, 1462};
extern "C" void clock_today() { int y0 = starts[vp_choose(3, "years")]; unsigned day = dayList[vp_choose(sizeof dayList / sizeof *dayList, "day")]; bool end = vp_choose(2, "end of the day"); unsigned off = vp_range<unsigned>(0, (1u << OFFBITS) - 1, "offset"); instant = (daysTo(y0) + (long long)day) * 86400000000000ll + (end ? 86399999999999ll - off : (long long)off); Date w = dateOf(day, y0); auto t = Balau::System::SystemClock().today();
  vp_assert((int)t.year() == w.y && (unsigned)t.month() == (unsigned)w.m && (unsigned)t.day() == (unsigned)w.d, "today is the calendar day of the instant"); if (w.m == 2 && w.d == 29) vp_reach("leap day"); if (w.m == 12 && w.d == 31) vp_reach("last day"); }
static std::string two(unsigned v) { std::string s; s += (char)('0' + v / 10); s += (char)('0' + v % 10); return s; }
extern "C" void date_text() { int y0 = starts[vp_choose(3, "years")]; unsigned day = 59; unsigned f = vp_choose(3, "field"), h = 23, mi = 59, s = 59; if (f == 0) h = vp_range<unsigned>(0, 23, "hour"); else if (f == 1) mi = vp_range<unsigned>(0, 59, "minute"); else s = vp_range<unsigned>(0, 59, "second"); Date w = dateOf(day, y0);
  time_point<system_clock, seconds> tp(seconds((daysTo(y0) + (long long)day) * 86400ll + h * 3600 + mi * 60 + s)); std::string want = std::to_string(w.y) + "-" + two(w.m) + "-" + two(w.d) + " " + two(h) + ":" + two(mi) + ":" + two(s);
  if (y0 != 1996) { vp_assert(sameText(DateTime::toString("%Y-%m-%d %H:%M:%S", tp), want), "a point in time is written as its date and time"); } else { std::ostringstream o; DateTime::toString(o, "%Y-%m-%d %H:%M:%S", tp); vp_assert(sameText(o.str(), want), "a point in time is written to a stream as its date and time"); }
  if (w.m == 2 && w.d == 29) vp_reach("leap day"); vp_reach("written"); }
extern "C" void duration_text() { unsigned h = vp_range<unsigned>(0, 23, "hour"), mi = vp_range<unsigned>(0, 59, "minute"), s = vp_range<unsigned>(0, 59, "second"); seconds d(h * 3600ll + mi * 60 + s); std::string want = two(h) + ":" + two(mi) + ":" + two(s);
  vp_assert(sameText(DateTime::toString("%H:%M:%S", d), want), "a duration is written in hours, minutes and seconds"); vp_reach("written"); }
// ------------------------------------------------------------ random integers
#ifndef RANGEBITS
#define RANGEBITS 12
#endif
template <class G, class V> static void within(bool narrow, V lowest, V middle, V highest) {
  unsigned off = vp_range<unsigned>(0, (1u << RANGEBITS) - 1, "offset"); V lo, hi; if (narrow) { lo = (V)(middle + (V)off); hi = (V)(lo + 1); } else switch (vp_choose(3, "bounds")) { case 0: lo = lowest; hi = (V)(lowest + (V)off); break; case 1: lo = (V)(highest - (V)off); hi = highest; break; default: lo = (V)(middle + (V)off); hi = highest; }
  unsigned seed = (unsigned)vp_choose(3, "seed"); G g(lo, hi, seed), same(lo, hi, seed); int low = 0, high = 0;
  for (int i = 0; i < (narrow ? 12 : 2); i++) { V a = g(), b = same(); vp_assert((a >= lo) & (a <= hi), "a random integer lies between the two bounds"); vp_assert(a == b, "generators with the same seed yield the same numbers"); low |= a == lo; high |= a == hi; }
  if (narrow) vp_assert(low & high, "both bounds occur"); vp_reach("drawn"); }
extern "C" void random_integers() { bool n = vp_choose(2, "narrow"); if (vp_choose(2, "type")) within<Balau::Util::UniformInt32, int>(n, INT_MIN, -1, INT_MAX); else within<Balau::Util::UniformUInt32, unsigned>(n, 0, 7, UINT_MAX); }
