// Animation documents: attributes, keys, tangents, labels, curves and what is refused
#include "shape.h"
#include <almath/scenegraph/qianim.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using namespace AL::qianim;
using namespace AL::qianim::V2;
static std::string dec(int x) { std::ostringstream s; s << x; return s.str(); }
static std::string attr(const ptree &e, const char *n) { return e.get<std::string>(std::string("<xmlattr>.") + n); }
static std::vector<const ptree *> all(const ptree &e, const std::string &n) {
  std::vector<const ptree *> r;
  for (auto &c : e) if (c.first == n) r.push_back(&c.second);
  return r;
}
// a float as its nine digits, which determine it
static double printed(float x) {
  std::ostringstream s;
  s.precision(9);
  s << x;
  std::istringstream in(s.str());
  double y;
  in >> y;
  return y;
}
// ---- attributes: put, then get; one element, one attribute -------------------
static void once(const ptree &p, const char *name) {
  law_true("one attribute, nothing else", p.size() == 1 && p.front().first == "<xmlattr>" && p.front().second.size() == 1 && p.front().second.front().first == name && p.data().empty());
}
LAW law_real_attributes() {
  int k = law_pick("which", 6);
  double x = law_in("x", 0), y = law_in("y", 0);
  float f = law_in("f", 0);
  ptree p;
  switch (k) {
    case 0: Tangent::put_abscissa<double>(p, y); Tangent::put_abscissa<double>(p, x); once(p, "abscissaParam"); law_eq("abscissa", Tangent::get_abscissa<double>(p), x); break;
    case 1: Tangent::put_ordinate<double>(p, y); Tangent::put_ordinate<double>(p, x); once(p, "ordinateParam"); law_eq("ordinate", Tangent::get_ordinate<double>(p), x); break;
    case 2: Key::put_value<double>(p, y); Key::put_value<double>(p, x); once(p, "value"); law_eq("value", Key::get_value<double>(p), x); break;
    case 3: Tangent::put_abscissa<float>(p, f); once(p, "abscissaParam"); law_eq("abscissa", Tangent::get_abscissa<float>(p), printed(f)); break;
    case 4: Tangent::put_ordinate<float>(p, f); once(p, "ordinateParam"); law_eq("ordinate", Tangent::get_ordinate<float>(p), printed(f)); break;
    default: Key::put_value<float>(p, f); once(p, "value"); law_eq("value", Key::get_value<float>(p), printed(f));
  }
}
static const int INTS[] = {0, 1, 2, 25, 1000000, 2147483647, -1, -2147483647 - 1};
LAW law_frame() {
  int x = INTS[law_pick("frame", 8)];
  bool label = law_pick("of a label", 2);
  ptree p;
  law_throws_iff("negative frame", x < 0);
  if (label) { Label::put_frame(p, 3); Label::put_frame(p, x); } else { Key::put_frame(p, 3); Key::put_frame(p, x); }
  once(p, "frame");
  law_eqi("frame", label ? Label::get_frame(p) : Key::get_frame(p), x);
}
LAW law_fps() {
  int x = INTS[law_pick("fps", 8)];
  bool labels = law_pick("of labels", 2);
  ptree p;
  law_throws_iff("fps not positive", x <= 0);
  if (labels) { Labels::put_fps(p, 3); Labels::put_fps(p, x); } else { ActuatorCurve::put_fps(p, 3); ActuatorCurve::put_fps(p, x); }
  once(p, "fps");
  law_eqi("fps", labels ? Labels::get_fps(p) : ActuatorCurve::get_fps(p), x);
}
LAW law_get_frame() {
  int x = INTS[law_pick("frame", 8)];
  ptree p;
  p.put("<xmlattr>.frame", x);
  law_throws_iff("negative frame", x < 0);
  law_eqi("frame", law_pick("of a label", 2) ? Label::get_frame(p) : Key::get_frame(p), x);
}
LAW law_get_fps() {
  int x = INTS[law_pick("fps", 8)];
  ptree p;
  p.put("<xmlattr>.fps", x);
  law_throws_iff("fps not positive", x <= 0);
  law_eqi("fps", law_pick("of labels", 2) ? Labels::get_fps(p) : ActuatorCurve::get_fps(p), x);
}
LAW law_refused_put_changes_nothing() {
  ptree p;
  bool fps = law_pick("fps", 2), some = law_pick("some before", 2);
  if (some) p.put(fps ? "<xmlattr>.fps" : "<xmlattr>.frame", 4);
  int refused = 0;
  try { if (fps) ActuatorCurve::put_fps(p, 0); else Key::put_frame(p, -1); } catch (const std::invalid_argument &) { refused = 1; }
  law_eqi("refused", refused, 1);
  law_true("unchanged", some ? p.get<int>(fps ? "<xmlattr>.fps" : "<xmlattr>.frame") == 4 : p.empty());
}
static const char *const CHILD[] = {"child 1", "child 2", "child 3"};
static const char *const SIDE[] = {"left", "right"};
LAW law_side() {
  int k = law_pick("side", 2);
  ptree p;
  Tangent::put_side(p, k ? Side::left : Side::right);
  Tangent::put_side(p, k ? Side::right : Side::left);
  once(p, "side");
  law_true("written", attr(p, "side") == SIDE[k]);
  law_true("side", Tangent::get_side(p) == (k ? Side::right : Side::left));
}
LAW law_other_side() {
  const char *const BAD[] = {"", "Left", "lef", "leftt", "right ", "0", "1", "both"};
  ptree p;
  p.put("<xmlattr>.side", BAD[law_pick("text", 8)]);
  law_throws_iff("not a side", true);
  Tangent::get_side(p);
}
static const Unit UNIT[] = {Unit::dimensionless, Unit::radian, Unit::degree, Unit::meter};
static const char *const UNITS[] = {"dimensionless", "radian", "degree", "meter"};
LAW law_unit_attribute() {
  int k = law_pick("unit", 4);
  ptree p;
  ActuatorCurve::put_unit(p, UNIT[(k + 1) % 4]);
  ActuatorCurve::put_unit(p, UNIT[k]);
  once(p, "unit");
  law_true("written", attr(p, "unit") == UNITS[k]);
  law_true("unit", ActuatorCurve::get_unit(p) == UNIT[k]);
}
LAW law_other_unit() {
  const char *const BAD[] = {"", "Radian", "rad", "radians", "degrees", "m", "0", "metre"};
  ptree p;
  p.put("<xmlattr>.unit", BAD[law_pick("text", 8)]);
  law_throws_iff("not a unit", true);
  ActuatorCurve::get_unit(p);
}
LAW law_mute() {
  int k = law_pick("mute", 3);
  ptree p;
  if (k < 2) { ActuatorCurve::put_mute(p, !k); ActuatorCurve::put_mute(p, k); once(p, "mute"); }
  law_true("mute", ActuatorCurve::get_mute(p) == (k == 1));
  const char *const TEXT[] = {"false", "true", "0", "1"};
  int t = law_pick("text", 4);
  p.put("<xmlattr>.mute", TEXT[t]);
  law_true("text", ActuatorCurve::get_mute(p) == (t & 1));
}
LAW law_actuator() {
  const char *const NAME[] = {"HeadYaw", "a.b", "", "x y"};
  std::string s = NAME[law_pick("name", 4)];
  ptree p;
  ActuatorCurve::put_actuator(p, "other");
  ActuatorCurve::put_actuator(p, s);
  once(p, "actuator");
  law_true("name", ActuatorCurve::get_actuator(p) == s);
}
LAW law_missing() {
  ptree p;
  p.put("<xmlattr>.other", 1);
  law_throws_iff("missing attribute", true);
  switch (law_pick("which", 8)) {
    case 0: Tangent::get_abscissa<float>(p); break;
    case 1: Tangent::get_ordinate<float>(p); break;
    case 2: Key::get_value<float>(p); break;
    case 3: Key::get_frame(p); break;
    case 4: ActuatorCurve::get_fps(p); break;
    case 5: ActuatorCurve::get_unit(p); break;
    case 6: Tangent::get_side(p); break;
    default: ActuatorCurve::get_actuator(p);
  }
}
LAW law_label_value() { ptree p{std::string("some text")}; law_true("text", Label::get_value(p) == "some text"); }
// ---- keys of a curve, sorted; comments anywhere --------------------------------
struct Curve {
  ptree pt;
  std::vector<std::string> names;   // the children, in order
  std::vector<int> frames;          // -1: not a key
  void child(const std::string &n, int frame) {
    ptree c;
    if (frame >= 0) c.put("<xmlattr>.frame", frame);
    pt.push_back(std::make_pair(n, c));
    names.push_back(n);
    frames.push_back(frame);
  }
};
static Curve curve(const char *key, int n, int comments) {
  Curve c;
  if (law_pick("attributes", 2)) { c.pt.put("<xmlattr>.fps", 25); c.names.push_back("<xmlattr>"); c.frames.push_back(-1); }
  int at = comments ? law_pick("comment", n + 2) : n + 1;
  for (int i = 0; i < n; ++i) {
    if (at == i) c.child("<xmlcomment>", -1);
    c.child(key, 10 * i + 10);
  }
  if (at == n) c.child("<xmlcomment>", -1);
  return c;
}
// the children of before, and one more (key, frame) before position at
static void inserted(const ptree &pt, const Curve &before, const std::string &key, int frame, const ptree &added) {
  law_eqi("one child more", pt.size(), before.names.size() + 1);
  size_t i = 0;
  int last = -1, found = 0, mine = 0;
  bool order = true, rest = true;
  for (auto &c : pt) {
    if (&c.second == &added) { ++mine; law_true("kind", c.first == key); law_true("attributes", c.second.size() == 1 && attr(c.second, "frame") == dec(frame)); }
    else {
      if (i >= before.names.size() || c.first != before.names[i] || (before.frames[i] >= 0 && attr(c.second, "frame") != dec(before.frames[i]))) rest = false;
      ++i;
    }
    if (c.first == key) {
      int f = c.second.get<int>("<xmlattr>.frame");
      if (f < last) order = false;
      last = f;
      if (f == frame) ++found;
    }
  }
  law_eqi("the element returned is in the document", mine, 1);
  law_true("the other children are the same, in the same order", rest);
  law_true("sorted", order);
}
static void unchanged(const ptree &pt, const Curve &before) {
  law_eqi("number of children", pt.size(), before.names.size());
  size_t i = 0;
  bool rest = true;
  for (auto &c : pt) {
    if (i >= before.names.size() || c.first != before.names[i] || (before.frames[i] >= 0 && attr(c.second, "frame") != dec(before.frames[i]))) rest = false;
    ++i;
  }
  law_true("unchanged", rest);
}
static const ptree *keyAt(const ptree &pt, int frame) {
  for (auto &c : pt) if (c.first == "Key" && c.second.get<int>("<xmlattr>.frame") == frame) return &c.second;
  return nullptr;
}
LAW law_find_key() {
  int n = law_pick("keys", 4), q = law_pick("frame", 8) * 5;
  Curve c = curve("Key", n, 1);
  const ptree &pt = c.pt;
  const ptree *want = keyAt(pt, q);
  auto a = ActuatorCurve::get_key_optional(pt, q);
  auto b = ActuatorCurve::get_key_optional(c.pt, q);
  law_true("found when there is one", bool(a) == bool(want));
  law_true("found when there is one (mutable)", bool(b) == bool(want));
  if (a) law_true("the one of this frame", &*a == want);
  if (b) law_true("the one of this frame (mutable)", &*b == want);
  unchanged(c.pt, c);
  for (int m = 0; m < 2; ++m) {
    int refused = 0;
    const ptree *g = nullptr;
    try { if (m) g = &ActuatorCurve::get_key(c.pt, q); else g = &ActuatorCurve::get_key(pt, q); } catch (...) { refused = 1; }
    law_true("an error when there is none", refused == !want);
    law_true("the one of this frame", g == want);
  }
}
LAW law_require_key() {
  int n = law_pick("keys", 4), q = law_pick("frame", 8) * 5;
  Curve c = curve("Key", n, 1);
  const ptree *want = keyAt(c.pt, q);
  ptree &k = ActuatorCurve::require_key(c.pt, q);
  if (want) { law_true("the one there was", &k == want); unchanged(c.pt, c); }
  else inserted(c.pt, c, "Key", q, k);
  law_true("and always the same from then on", &ActuatorCurve::require_key(c.pt, q) == &k);
  law_eqi("no other is added", c.pt.size(), c.names.size() + !want);
}
LAW law_require_key_refused() {
  bool label = law_pick("label", 2);
  Curve c = curve(label ? "Label" : "Key", law_pick("keys", 3), 0);
  int refused = 0;
  try { if (label) Labels::add_label(c.pt, -1, "word"); else ActuatorCurve::require_key(c.pt, -1); } catch (const std::invalid_argument &) { refused = 1; }
  law_eqi("negative frame", refused, 1);
  unchanged(c.pt, c);
}
// keys given in any order end up sorted
LAW law_require_keys() {
  ptree pt;
  bool in[4] = {};
  for (int i = 0; i < 3; ++i) { int q = law_pick(CHILD[i], 4); ActuatorCurve::require_key(pt, q); in[q] = true; }
  int n = 0;
  std::vector<int> want;
  for (int q = 0; q < 4; ++q) if (in[q]) want.push_back(q);
  for (const ptree &k : ActuatorCurve::get_keys(static_cast<const ptree &>(pt))) { law_true("sorted", n < int(want.size()) && Key::get_frame(k) == want[n]); ++n; }
  law_eqi("each once", n, want.size());
}
LAW law_add_label() {
  int n = law_pick("labels", 4), q = law_pick("frame", 8) * 5;
  Curve c = curve("Label", n, 1);
  ptree &l = Labels::add_label(c.pt, q, "word");
  law_true("text", Label::get_value(l) == "word");
  inserted(c.pt, c, "Label", q, l);
  // after those of the same frame
  bool after = true, seen = false;
  for (auto &x : c.pt) {
    if (&x.second == &l) seen = true;
    else if (seen && x.first == "Label" && x.second.get<int>("<xmlattr>.frame") <= q) after = false;
  }
  law_true("after the labels of its frame", after);
}
// ---- ranges --------------------------------------------------------------------
template <class R> static void lists(R r, const std::vector<const ptree *> &want) {
  size_t i = 0;
  for (auto &c : r) { law_true("in order", i < want.size() && &c == want[i]); ++i; }
  law_eqi("each once", i, want.size());
}
LAW law_ranges() {
  static const char *const N[] = {"Key", "Label", "ActuatorCurve", "Labels", "<xmlattr>", "Keys"};
  ptree p;
  int r = law_pick("range", 7), kind[] = {0, 0, 1, 1, 2, 2, 3};
  // an element of this kind, or any of the others
  for (int i = 0; i < 3; ++i) { int k = law_pick(CHILD[i], i ? 2 : 6); p.push_back(std::make_pair(std::string(N[i ? (k ? (kind[r] + 1) % 6 : kind[r]) : k]), ptree{})); }
  const ptree &c = p;
  switch (r) {
    case 0: lists(ActuatorCurve::get_keys(c), all(p, "Key")); break;
    case 1: lists(ActuatorCurve::get_keys(p), all(p, "Key")); break;
    case 2: lists(Labels::get_labels(c), all(p, "Label")); break;
    case 3: lists(Labels::get_labels(p), all(p, "Label")); break;
    case 4: lists(Animation::get_actuatorcurves(c), all(p, "ActuatorCurve")); break;
    case 5: lists(Animation::get_actuatorcurves(p), all(p, "ActuatorCurve")); break;
    default: lists(Animation::get_labels(c), all(p, "Labels"));
  }
}
// ---- tangents ------------------------------------------------------------------
// the children of a key: l, r tangents and others
static ptree key(std::vector<char> &kinds, int most) {
  ptree p;
  int n = law_pick("children", most + 1);
  for (int i = 0; i < n; ++i) {
    int k = law_pick(CHILD[i], 3);
    ptree c;
    if (k < 2) { c.put("<xmlattr>.side", SIDE[k]); c.put("<xmlattr>.ordinateParam", i); }
    p.push_back(std::make_pair(std::string(k < 2 ? "Tangent" : "<xmlcomment>"), c));
    kinds.push_back(k);
  }
  return p;
}
static const ptree *tangent(const ptree &p, int side) {
  for (auto &c : p) if (c.first == "Tangent" && attr(c.second, "side") == SIDE[side]) return &c.second;
  return nullptr;
}
static Side side(int k) { return k ? Side::right : Side::left; }
LAW law_find_tangent() {
  std::vector<char> kinds;
  ptree p = key(kinds, 3);
  const ptree &c = p;
  int k = law_pick("side", 2);
  const ptree *want = tangent(p, k);
  auto a = Key::get_tangent_optional(c, side(k));
  auto b = Key::get_tangent_optional(p, side(k));
  law_true("found when there is one", bool(a) == bool(want) && bool(b) == bool(want));
  if (a) law_true("the first of this side", &*a == want);
  if (b) law_true("the first of this side (mutable)", &*b == want);
  for (int m = 0; m < 2; ++m) {
    int refused = 0;
    const ptree *g = nullptr;
    try { if (m) g = &Key::get_tangent(p, side(k)); else g = &Key::get_tangent(c, side(k)); } catch (...) { refused = 1; }
    law_true("an error when there is none", refused == !want && g == want);
  }
}
static void children(const ptree &p, const std::vector<char> &kinds, int but, int more) {
  size_t i = 0;
  bool same = true;
  size_t n = 0;
  auto it = p.begin();
  for (; i < kinds.size(); ++i) {
    if (kinds[i] == but) continue;
    ++n;
    if (it == p.end()) { same = false; break; }
    if (kinds[i] == 2) same = same && it->first == "<xmlcomment>" && it->second.empty();
    else same = same && it->first == "Tangent" && attr(it->second, "side") == SIDE[int(kinds[i])] && it->second.get<int>("<xmlattr>.ordinateParam") == int(i);
    ++it;
  }
  law_true("the others are the same", same);
  law_eqi("number of children", p.size(), n + more);
}
LAW law_erase_tangent() {
  std::vector<char> kinds;
  ptree p = key(kinds, 3);
  int k = law_pick("side", 2);
  size_t n = 0;
  for (char c : kinds) n += c == k;
  law_eqi("number erased", Key::erase_tangent(p, side(k)), n);
  children(p, kinds, k, 0);
}
LAW law_require_tangent() {
  std::vector<char> kinds;
  ptree p = key(kinds, 2);
  int k = law_pick("side", 2);
  const ptree *want = tangent(p, k);
  ptree &t = Key::require_tangent(p, side(k));
  if (want) law_true("the one there was", &t == want);
  else law_true("a new one, with its side only", &p.back().second == &t && p.back().first == "Tangent" && t.size() == 1 && t.front().second.size() == 1 && attr(t, "side") == SIDE[k]);
  children(p, kinds, -1, !want);
  law_true("and always the same from then on", &Key::require_tangent(p, side(k)) == &t);
  children(p, kinds, -1, !want);
}
LAW law_put_tangent() {
  std::vector<char> kinds;
  ptree p = key(kinds, 2);
  int k = law_pick("side", 2);
  double x = law_in("x", 0), y = law_in("y", 0);
  const ptree *want = tangent(p, k);
  ptree &t = Key::put_tangent<double>(p, side(k), x, y);
  law_true("the tangent of this side", &t == tangent(p, k) && (!want || want == &t));
  law_eq("abscissa", Tangent::get_abscissa<double>(t), x);
  law_eq("ordinate", Tangent::get_ordinate<double>(t), y);
  law_eqi("number of children", p.size(), kinds.size() + !want);
}
// ---- validity of curves ----------------------------------------------------------
static void bezier(bool single) {
  const int F[][2] = {{0, 1}, {3, 3}, {5, 4}, {0, 2147483647}};
  int k = law_pick("frames", 4);
  int a = F[k][0], d = F[k][1];
  double p = law_in("p", 0), q = law_in("q", 0), z = law_in("z", 0);
  law_throws_iff("not a function", d - a <= 0 || p < 0 || p > d - a || q > 0 || q < a - d);
  if (single) Key::check_cubic_bezier<float>(a, z, law_in("p", 0), z, law_in("q", 0), z, d, z); else Key::check_cubic_bezier<double>(a, z, p, z, q, z, d, z);
}
LAW law_check_interval() { bezier(false); }
LAW law_check_interval_float() { bezier(true); }
// the eight numbers are those of the two keys
LAW law_apply_interval() {
  ptree a, b;
  Key::put_frame(a, 7); Key::put_value<double>(a, law_in("v", 0)); Key::put_tangent<double>(a, Side::left, law_in("v", 8), law_in("v", 9)); Key::put_tangent<double>(a, Side::right, law_in("v", 1), law_in("v", 2));
  Key::put_frame(b, 5); Key::put_value<double>(b, law_in("v", 5)); Key::put_tangent<double>(b, Side::left, law_in("v", 3), law_in("v", 4)); Key::put_tangent<double>(b, Side::right, law_in("v", 6), law_in("v", 7));
  int n = 0;
  Key::apply_cubic_bezier<double>(a, b, [&](int f0, double v0, double f1, double v1, double f2, double v2, int f3, double v3) {
    ++n;
    law_true("frames", f0 == 7 && f3 == 5);
    const double got[] = {v0, f1, v1, f2, v2, v3};
    for (int i = 0; i < 6; ++i) law_eq("number", got[i], law_in("v", i));
  });
  law_eqi("once", n, 1);
}
// a curve of n keys, each interval fine or not; number 0..5 says what is wrong with it
static bool valid(ptree &c, int n, bool comments, bool both) {
  bool ok = true;
  int wrong[3] = {0, 0, 0};
  if (both || n < 3) for (int i = 0; i + 1 < n; ++i) wrong[i] = law_pick(CHILD[i], 7);
  else wrong[law_pick("wrong interval", 2)] = law_pick(CHILD[0], 7);
  for (int i = 0; i + 1 < n; ++i) if (wrong[i]) ok = false;
  int f = 0;
  for (int i = 0; i < n; ++i) {
    ptree k;
    if (i) f += wrong[i - 1] == 1 ? 0 : 10;
    k.put("<xmlattr>.frame", f);
    k.put("<xmlattr>.value", i);
    const char *const LEFT[] = {"-10", "-10", "-11", "1", "0", "-3", "-3"}, *const RIGHT[] = {"10", "0", "0", "4", "-1", "11", "3"};
    if (i && wrong[i - 1] != 6) { ptree t; t.put("<xmlattr>.side", "left"); t.put("<xmlattr>.abscissaParam", LEFT[wrong[i - 1]]); t.put("<xmlattr>.ordinateParam", 1); k.push_back(std::make_pair(std::string("Tangent"), t)); }
    if (i + 1 < n) { ptree t; t.put("<xmlattr>.side", "right"); t.put("<xmlattr>.abscissaParam", RIGHT[wrong[i]]); t.put("<xmlattr>.ordinateParam", 1); k.push_back(std::make_pair(std::string("Tangent"), t)); }
    c.push_back(std::make_pair(std::string("Key"), k));
    if (comments) c.push_back(std::make_pair(std::string("<xmlcomment>"), ptree{}));
  }
  return ok;
}
static void check(int n, bool comments, bool both, bool single) {
  ptree c;
  bool ok = valid(c, n, comments, both);
  law_throws_iff("not a function", !ok);
  if (single) ActuatorCurve::check_cubic_bezier<float>(c); else ActuatorCurve::check_cubic_bezier<double>(c);
}
LAW law_check_curve() { bool comments = law_pick("comments", 2); check(law_pick("keys", 4), comments, false, !comments); }
LAW law_t_check_curve() { check(3, law_pick("comments", 2), true, law_pick("single", 2)); }
static ptree goodCurve(const char *name) {
  ptree c;
  c.put("<xmlattr>.actuator", name); c.put("<xmlattr>.fps", 25); c.put("<xmlattr>.unit", "degree");
  return c;
}
static void animation(bool both) {
  ptree a;
  const char *const VERSION[] = {"2.0", "1.0", "2", "2.00"};
  int n = law_pick("curves", 3), v = !both && n ? law_pick("good version", 2) : law_pick("version", 5), it = n > 1 && !both ? law_pick("curve", n) : 0;
  if (v < 4) a.put("<xmlattr>.typeVersion", VERSION[v]);
  bool ok = v == 0;
  for (int i = 0; i < n; ++i) {
    ptree c = goodCurve("x");
    switch (both || i == it ? law_pick(CHILD[i], 8) : 0) {
      case 0: break;
      case 1: c.get_child("<xmlattr>").erase("actuator"); ok = false; break;
      case 2: c.put("<xmlattr>.fps", 0); ok = false; break;
      case 3: c.get_child("<xmlattr>").erase("fps"); ok = false; break;
      case 4: c.put("<xmlattr>.unit", "rad"); ok = false; break;
      case 5: c.get_child("<xmlattr>").erase("unit"); ok = false; break;
      case 6: c.put("<xmlattr>.mute", "true"); break;
      default: {
        for (int k = 0; k < 2; ++k) {
          ptree key;
          key.put("<xmlattr>.frame", 5);
          key.put("<xmlattr>.value", k);
          ptree t; t.put("<xmlattr>.side", SIDE[!k]); t.put("<xmlattr>.abscissaParam", 0); t.put("<xmlattr>.ordinateParam", 0); key.push_back(std::make_pair(std::string("Tangent"), t));
          c.push_back(std::make_pair(std::string("Key"), key));
        }
        ok = false;
      }
    }
    a.push_back(std::make_pair(std::string("ActuatorCurve"), c));
  }
  law_throws_iff("not valid", !ok);
  Animation::check_all(a);
}
LAW law_check_animation() { animation(false); }
LAW law_t_check_animation() { animation(true); }
LAW law_version() {
  ptree root, a;
  const char *const VERSION[] = {"2.0", "1.0", "2", "2.00", ""};
  int v = law_pick("version", 6), k = law_pick("function", 4);
  if (v < 5) a.put("<xmlattr>.typeVersion", VERSION[v]);
  root.push_back(std::make_pair(std::string("Animation"), a));
  const ptree &c = root;
  law_throws_iff("another version", v != 0);
  ptree *in = &root.get_child("Animation");
  if (k == 0) Animation::check_version(a);
  else if (k == 1) law_true("the animation", &get_animation(root) == in);
  else if (k == 2) law_true("the animation", &get_animation(c) == in);
  else { law_true("the animation", &require_animation(root) == in); law_eqi("nothing is added", root.size(), 1); }
}
LAW law_no_animation() {
  ptree root;
  root.put("other", 1);
  const ptree &c = root;
  int k = law_pick("function", 3);
  law_throws_iff("no animation", k < 2);
  if (k == 0) get_animation(root);
  else if (k == 1) get_animation(c);
  else {
    ptree &a = require_animation(root);
    law_true("added", root.size() == 2 && &root.get_child("Animation") == &a);
    law_true("of this version", attr(a, "typeVersion") == "2.0" && a.size() == 1);
    law_true("and always the same from then on", &require_animation(root) == &a && root.size() == 2);
  }
}
LAW law_require_curve() {
  ptree a;
  if (law_pick("version", 2)) a.put("<xmlattr>.typeVersion", "2.0");
  const char *const NAME[] = {"u", "v", "w"};
  int n = law_pick("curves", 3);
  const ptree *want = nullptr;
  int q = law_pick("name", 3);
  for (int i = 0; i < n; ++i) {
    a.push_back(std::make_pair(std::string("ActuatorCurve"), goodCurve(NAME[i])));
    if (i == q) want = &a.back().second;
  }
  if (law_pick("labels", 2)) Animation::add_labels(a);
  size_t before = a.size();
  ptree &c = Animation::require_actuatorcurve(a, NAME[q]);
  if (want) law_true("the one there was", &c == want && a.size() == before);
  else law_true("a new one, with its name only", a.size() == before + 1 && &a.back().second == &c && a.back().first == "ActuatorCurve" && c.size() == 1 && c.front().second.size() == 1 && attr(c, "actuator") == NAME[q]);
  law_true("and always the same from then on", &Animation::require_actuatorcurve(a, NAME[q]) == &c);
  int i = 0;
  for (const ptree *x : all(a, "ActuatorCurve")) { if (i < n) law_true("the others are the same", attr(*x, "actuator") == NAME[i] && x->get<int>("<xmlattr>.fps") == 25 && attr(*x, "unit") == "degree" && x->size() == 1); ++i; }
}
LAW law_add_labels() {
  ptree a;
  int n = law_pick("labels", 3);
  for (int i = 0; i < n; ++i) Animation::add_labels(a);
  a.push_back(std::make_pair(std::string("ActuatorCurve"), goodCurve("u")));
  ptree &l = Animation::add_labels(a);
  law_true("a new, empty one, at the end", l.empty() && l.data().empty() && &a.back().second == &l && a.back().first == "Labels" && int(a.size()) == n + 2);
}
