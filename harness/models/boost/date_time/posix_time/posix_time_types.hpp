// The real date and time types with a clock that stands still and whose local time differs from universal time.
#pragma once
#include_next <boost/date_time/posix_time/posix_time_types.hpp>
namespace boost { namespace posix_time { struct vp_microsec_clock { static ptime universal_time() { return ptime(gregorian::date(2026, 3, 1), time_duration(22, 30, 0)); } static ptime local_time() { return universal_time() + hours(2); } }; } }
#define microsec_clock vp_microsec_clock
