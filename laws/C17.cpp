// PID controller: discrete PID law with dead zone.
#include "law.h"
#include <almath/dsp/pidcontroller.h>
#include <stdexcept>
using DSP::PIDController;
struct Spec {
  double kp, kv, ki, th, off, T, last, sum;
  bool first;
  static double dead(double e, double th) { return e > th ? e - th : e < -th ? e + th : 0; }
  double step(double e, double T) {
    double d = first ? 0 : (e - last) / T;
    first = false; last = e; sum += e * T;
    return off + kp * e + kv * d + ki * sum; }
};
static inline Spec spec(const char *n) {
  Spec s; s.kp = law_nonneg(n, 0); s.kv = law_nonneg(n, 1); s.ki = law_nonneg(n, 2); s.th = law_nonneg(n, 3); s.off = law_nonneg(n, 4);
  s.T = law_pos(n, 5); s.last = 0; s.sum = 0; s.first = true; return s; }
static inline PIDController make(const Spec &s) {
  return PIDController((float)s.kp, (float)s.kv, (float)s.ki, (float)s.th, (float)s.off, (float)s.T); }
LAW law_pid_steps() {
  Spec s = spec("g"); PIDController c = make(s);
  for (int k = 0; k < 3; ++k) {
    float u = law_in("u", k), y = law_in("y", k);
    float r = c.computeFeedback(u, y);
    EQ("feedback", r, s.step(Spec::dead((double)u - y, s.th), s.T)); }
}
LAW law_pid_given_period() {
  Spec s = spec("g"); PIDController c = make(s);
  for (int k = 0; k < 3; ++k) {
    float u = law_in("u", k), y = law_in("y", k), p = law_pos("p", k);
    EQ("feedback", c.computeFeedback(u, y, p), s.step(Spec::dead((double)u - y, s.th), p)); }
}
LAW law_pid_nonpositive_period() {
  // a period that is not positive means the configured one
  Spec s = spec("g"); PIDController c = make(s);
  for (int k = 0; k < 2; ++k) {
    float u = law_in("u", k), y = law_in("y", k), p = -law_nonneg("p", k);
    EQ("feedback", c.computeFeedback(u, y, p), s.step(Spec::dead((double)u - y, s.th), s.T)); }
}
LAW law_pid_absolute() {
  // the derivative action of the absolute variant is the magnitude of the variation
  Spec s = spec("g"); PIDController c = make(s);
  double last = 0, sum = 0;
  for (int k = 0; k < 3; ++k) {
    float e = law_in("e", k);
    double d = e > s.th ? e - s.th : 0, v = k ? std::fabs(d - last) / s.T : 0;
    sum += d * s.T; last = d;
    EQ("feedback", c.computeFeedbackAbsolute(e), s.off + s.kp * d + s.kv * v + s.ki * sum); }
}
LAW law_pid_reset() {
  // after initialize() the history is forgotten, the gains are kept
  Spec s = spec("g"); PIDController c = make(s);
  c.computeFeedback(law_in("u", 0), law_in("y", 0));
  c.computeFeedback(law_in("u", 1), law_in("y", 1));
  c.initialize();
  PIDController d = make(s);
  for (int k = 2; k < 4; ++k)
    EQ("as new", c.computeFeedback(law_in("u", k), law_in("y", k)), d.computeFeedback(law_in("u", k), law_in("y", k)));
}
LAW law_pid_reset_then_gains() {
  // the history forgotten by initialize() does not come back with other gains
  Spec s = spec("g"); PIDController c = make(s);
  c.computeFeedback(law_in("u", 0), law_in("y", 0));
  c.initialize();
  s.kp = law_nonneg("k", 0); s.kv = law_nonneg("k", 1); s.ki = law_nonneg("k", 2);
  c.setGains((float)s.kp, (float)s.kv, (float)s.ki);
  for (int k = 1; k < 3; ++k) {
    float u = law_in("u", k), y = law_in("y", k);
    EQ("as new", c.computeFeedback(u, y), s.step(Spec::dead((double)u - y, s.th), s.T)); }
}
LAW law_pid_mixed() {
  // both forms share the last error and the sum
  Spec s = spec("g"); PIDController c = make(s);
  float u = law_in("u", 0), y = law_in("y", 0);
  EQ("first", c.computeFeedback(u, y), s.step(Spec::dead((double)u - y, s.th), s.T));
  float e = law_in("e", 0);
  double d = e > s.th ? e - s.th : 0, v = std::fabs(d - s.last) / s.T;
  s.sum += d * s.T; s.last = d;
  EQ("absolute", c.computeFeedbackAbsolute(e), s.off + s.kp * d + s.kv * v + s.ki * s.sum);
  u = law_in("u", 1); y = law_in("y", 1);
  EQ("then", c.computeFeedback(u, y), s.step(Spec::dead((double)u - y, s.th), s.T));
}
LAW law_pid_reset_absolute() {
  Spec s = spec("g"); PIDController c = make(s);
  c.computeFeedbackAbsolute(law_in("u", 0));
  c.computeFeedbackAbsolute(law_in("u", 1));
  c.initialize();
  PIDController d = make(s);
  for (int k = 2; k < 4; ++k)
    EQ("as new", c.computeFeedbackAbsolute(law_in("u", k)), d.computeFeedbackAbsolute(law_in("u", k)));
}
LAW law_pid_reinitialize() {
  Spec s = spec("g"), t = spec("h"); PIDController c = make(s), d = make(t);
  c.computeFeedback(law_in("u", 0), law_in("y", 0));
  c.initialize((float)t.kp, (float)t.kv, (float)t.ki, (float)t.th, (float)t.off, (float)t.T);
  for (int k = 1; k < 3; ++k)
    EQ("as new", c.computeFeedback(law_in("u", k), law_in("y", k)), d.computeFeedback(law_in("u", k), law_in("y", k)));
}
LAW law_pid_set_gains() {
  // the gains change, the history stays
  Spec s = spec("g"); PIDController c = make(s);
  float u = law_in("u", 0), y = law_in("y", 0);
  EQ("before", c.computeFeedback(u, y), s.step(Spec::dead((double)u - y, s.th), s.T));
  s.kp = law_nonneg("k", 0); s.kv = law_nonneg("k", 1); s.ki = law_nonneg("k", 2);
  c.setGains((float)s.kp, (float)s.kv, (float)s.ki);
  u = law_in("u", 1); y = law_in("y", 1);
  EQ("after", c.computeFeedback(u, y), s.step(Spec::dead((double)u - y, s.th), s.T));
}
LAW law_pid_ctor_rejects() {
  float a = law_in("a", 0), b = law_in("a", 1), c = law_in("a", 2), d = law_in("a", 3), e = law_in("a", 4), p = law_in("a", 5);
  law_throws_iff("invalid gains are rejected", a < 0 || b < 0 || c < 0 || d < 0 || e < 0 || p <= 0);
  PIDController q(a, b, c, d, e, p);
  law_touch(&q);
}
LAW law_pid_init_rejects() {
  float a = law_in("a", 0), b = law_in("a", 1), c = law_in("a", 2), d = law_in("a", 3), e = law_in("a", 4), p = law_in("a", 5);
  law_throws_iff("invalid gains are rejected", a < 0 || b < 0 || c < 0 || d < 0 || e < 0 || p <= 0);
  PIDController q;
  q.initialize(a, b, c, d, e, p);
  law_touch(&q);
}
LAW law_pid_gains_reject() {
  float a = law_in("a", 0), b = law_in("a", 1), c = law_in("a", 2);
  law_throws_iff("negative gains are rejected", a < 0 || b < 0 || c < 0);
  PIDController q;
  q.setGains(a, b, c);
  law_touch(&q);
}
LAW law_pid_gains_rejected_untouched() {
  Spec s = spec("g"); PIDController c = make(s);
  float a = law_in("a", 0), b = law_in("a", 1), k = law_in("a", 2);
  bool raised = false, runtime = false;
  try { c.setGains(a, b, k); } catch (const std::runtime_error &) { raised = runtime = true; } catch (...) { raised = true; }
  law_true("the error is a runtime_error", !raised || runtime);
  if (!raised) { s.kp = a; s.kv = b; s.ki = k; }
  float u = law_in("u", 0), y = law_in("y", 0);
  EQ("state", c.computeFeedback(u, y), s.step(Spec::dead((double)u - y, s.th), s.T));
}
LAW law_pid_default() {
  // without gains there is no feedback
  PIDController c;
  EQ("zero", c.computeFeedback(law_in("u", 0), law_in("y", 0)), 0);
  EQ("zero", c.computeFeedbackAbsolute(law_in("u", 1)), 0);
}
