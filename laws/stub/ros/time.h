// model of ros::Time: seconds and nanoseconds on 32 bits
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <limits>
#include <cstdlib>
#include <stdexcept>
namespace ros {
struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  Time &fromNSec(uint64_t t) {
    if (t / 1000000000u > UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = uint32_t(t / 1000000000u);
    nsec = uint32_t(t % 1000000000u);
    return *this;
  }
  uint64_t toNSec() const { return uint64_t(sec) * 1000000000u + nsec; }
  double toSec() const { return sec + 1e-9 * nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator<=(const Time &o) const { return toNSec() <= o.toNSec(); }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator>=(const Time &o) const { return toNSec() >= o.toNSec(); }
  bool operator>(const Time &o) const { return toNSec() > o.toNSec(); }
  bool operator==(const Time &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time &o) const { return toNSec() != o.toNSec(); }
};
static const Time TIME_MIN(0, 1);
static const Time TIME_MAX(UINT32_MAX, 999999999u);
}
