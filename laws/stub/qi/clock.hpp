// the durations of libqi (qi/clock.hpp)
#pragma once
#include <boost/chrono/duration.hpp>
#include <cstdint>
namespace qi {
typedef boost::chrono::duration<int64_t, boost::nano> Duration;
typedef boost::chrono::duration<int64_t, boost::nano> NanoSeconds;
typedef boost::chrono::duration<int64_t, boost::micro> MicroSeconds;
typedef boost::chrono::duration<int64_t, boost::milli> MilliSeconds;
typedef boost::chrono::duration<int64_t> Seconds;
typedef boost::chrono::duration<int64_t, boost::ratio<60>> Minutes;
typedef boost::chrono::duration<int64_t, boost::ratio<3600>> Hours;
}
