// times: qi durations (64 bit signed nanoseconds) and ROS times
#include "law.h"
#include <almath/scenegraph/qirostime.h>
extern "C" long law_inl(const char *, int) NT __attribute__((const));
static const long LO = 1, HI = 4294967295999999999l;
LAW law_time_to_ros() {
  long t = law_inl("t", 0);
  law_assume(t > LO);
  law_assume(t <= HI);
  law_eqi("same instant", AL::Math::toValidRosTime(qi::Duration(t)).toNSec(), t);
}
LAW law_time_early() {
  long t = law_inl("t", 0);
  law_assume(t < LO);
  law_eqi("first valid instant", AL::Math::toValidRosTime(qi::Duration(t)).toNSec(), LO);
}
LAW law_time_late() {
  long t = law_inl("t", 0);
  law_assume(t > HI);
  law_eqi("last valid instant", AL::Math::toValidRosTime(qi::Duration(t)).toNSec(), HI);
}
LAW law_time_ends() {
  static const long at[] = {INT64_MIN, INT64_MIN + 1, -4294967296l, -1, 0, 1, 2, 999999999, 1000000000, 4294967295l, 4294967296l, HI - 1, HI, HI + 1, INT64_MAX - 1, INT64_MAX};
  for (int i = 0; i < 16; ++i) {
    long t = at[i];
    law_eqi("clipped", AL::Math::toValidRosTime(qi::Duration(t)).toNSec(), t < LO ? LO : t > HI ? HI : t);
    if (t >= LO && t <= HI) {
      ros::Time r;
      r.fromNSec(t);
      law_eqi("duration", AL::Math::toQiDuration(r).count(), t);
    }
  }
}
LAW law_time_from_ros() {
  long t = law_inl("t", 0);
  law_assume(t >= 0);
  law_assume(t <= HI);
  ros::Time r;
  r.fromNSec(t);
  law_eqi("same instant", AL::Math::toQiDuration(r).count(), t);
}
LAW law_time_round_trip() {
  long t = law_inl("t", 0);
  law_assume(t > LO);
  law_assume(t <= HI);
  law_eqi("back and forth", AL::Math::toQiDuration(AL::Math::toValidRosTime(qi::Duration(t))).count(), t);
}
