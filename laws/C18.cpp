// Occupancy map: metric <-> pixel frames.
#include "law.h"
#include <almath/types/occupancymapparams.h>
struct Map { OccupancyMapParams m; double mpp, ox, oy; };
static inline Map map(bool integral) {
  int size = law_ini("size", 0);
  float mpp = law_pos("mpp", 0);
  Position2D c = P2("c");
  OccupancyMapParams m(size, mpp, c);
  // the (0, 0) pixel is the top left corner of the square centred on c
  Map r = {m, mpp, c.x - (double)size * mpp / 2, c.y + (double)size * mpp / 2};
  (void)integral;
  return r; }
LAW law_map_origin() {
  Map a = map(false);
  law_eq("x", a.m.originOffset.x, a.ox);
  law_eq("y", a.m.originOffset.y, a.oy);
  law_eq("size", a.m.size, law_ini("size", 0));
  law_eq("resolution", a.m.metersPerPixel, a.mpp);
  law_eq("default threshold", a.m.getObstacleProbabilityThreshold(), 0.25);
}
LAW law_map_threshold() {
  OccupancyMapParams m(law_ini("size", 0), law_pos("mpp", 0), P2("c"), law_in("thr", 0));
  law_eq("threshold", m.getObstacleProbabilityThreshold(), law_in("thr", 0));
  law_eq("threshold", m.obstacleProbabilityThreshold, law_in("thr", 0));
}
LAW law_map_recentre() {
  Map a = map(false);
  Position2D d = P2("d");
  a.m.initOriginOffset(d);
  OccupancyMapParams b(law_ini("size", 0), law_pos("mpp", 0), d);
  EQ("as constructed there", a.m.originOffset, b.originOffset);
  law_eq("resolution", a.m.metersPerPixel, a.mpp);
}
LAW law_map_position_from_pixel() {
  Map a = map(false);
  int i = law_ini("i", 0), j = law_ini("i", 1);
  Position2D p = a.m.getPositionFromPixel(Point2Di(i, j));
  law_eq("x", p.x, a.ox + i * a.mpp);
  law_eq("y", p.y, a.oy - j * a.mpp);
  float t = law_in("t", 0);
  Pose2D q = a.m.getPoseFromPixel(Pose2Di(i, j, t));
  law_eq("pose x", q.x, p.x);
  law_eq("pose y", q.y, p.y);
  law_eq("pose angle", q.theta, t);
  Pose2D r = a.m.getPoseFromPixel(Pose2Di(Point2Di(i, j), t));
  EQ("built from a point", r, q);
}
LAW law_map_round_trip() {
  // the pixel of the position of a pixel is this pixel
  Map a = map(true);
  int i = law_ini("i", 0), j = law_ini("i", 1);
  Point2Di p = a.m.getPixelFromPosition(a.m.getPositionFromPixel(Point2Di(i, j)));
  law_eq("x", p.x, i);
  law_eq("y", p.y, j);
  law_true("equal", p == Point2Di(i, j));
  Point2Di q = a.m.getPixelFromPose(a.m.getPoseFromPixel(Pose2Di(i, j, law_in("t", 0))));
  law_eq("pose x", q.x, i);
  law_eq("pose y", q.y, j);
}
LAW law_map_pixel_siblings() {
  Map a = map(false);
  Pose2D p = Q2("p");
  Point2Di u = a.m.getPixelFromPose(p), v = a.m.getPixelFromPosition(Position2D(p.x, p.y));
  law_eq("x", u.x, v.x);
  law_eq("y", u.y, v.y);
  Point2Di w = OccupancyMapParams::getPixelFromOffsetAndScale(p, a.m.metersPerPixel, a.m.originOffset);
  law_eq("x", w.x, v.x);
  law_eq("y", w.y, v.y);
}
LAW law_map_nearest_pixel() {
  // the pixel of a position is the nearest one
  Map a = map(false);
  Position2D p = P2("p");
  Point2Di u = a.m.getPixelFromPosition(p);
  double ex = (p.x - a.ox) / a.mpp - u.x, ey = (a.oy - p.y) / a.mpp - u.y;
  law_true("x", ex <= 0.5); law_true("x", ex >= -0.5);
  law_true("y", ey <= 0.5); law_true("y", ey >= -0.5);
}
LAW law_map_delta() {
  // a displacement of the pose displaces the pixels: no offset, y flipped
  Map a = map(false);
  Position2D d = P2("d");
  Point2Di u = a.m.getDeltaPixelFromDeltaPosition(d);
  double ex = d.x / a.mpp - u.x, ey = -d.y / a.mpp - u.y;
  law_true("x", ex <= 0.5); law_true("x", ex >= -0.5);
  law_true("y", ey <= 0.5); law_true("y", ey >= -0.5);
}
LAW law_map_delta_integral() {
  Map a = map(false);
  int i = law_ini("i", 0), j = law_ini("i", 1);
  Point2Di u = a.m.getDeltaPixelFromDeltaPosition(Position2D((float)(i * a.mpp), (float)(-j * a.mpp)));
  law_eq("x", u.x, i);
  law_eq("y", u.y, j);
}
LAW law_map_round() {
  // half-way values are rounded away from zero
  float x = law_in("x", 0);
  int r = roundToInt(x);
  law_true("nearest", x - r <= 0.5); law_true("nearest", x - r >= -0.5);
  int n = law_ini("n", 0);
  law_assume(n >= 0);
  law_eq("half up", roundToInt((float)(n + 0.5)), n + 1);
  law_eq("half down", roundToInt((float)(-n - 0.5)), -n - 1);
  law_eq("odd", roundToInt(-x), -(double)r);
}
LAW law_map_points() {
  int a = law_ini("a", 0), b = law_ini("a", 1), c = law_ini("b", 0), d = law_ini("b", 1);
  law_true("points are equal component by component", (Point2Di(a, b) == Point2Di(c, d)) == (a == c && b == d));
  law_true("default point", Point2Di() == Point2Di(0, 0));
  float s = law_in("s", 0), t = law_in("s", 1);
  law_assume(s == t || s - t > 1e-4 || t - s > 1e-4);
  law_true("poses are equal component by component", (Pose2Di(a, b, s) == Pose2Di(c, d, t)) == (a == c && b == d && s == t));
  Pose2Di z, e(Point2Di(a, b), s);
  law_eq("default pose", z.x, 0); law_eq("default pose", z.y, 0); law_eq("default pose", z.theta, 0);
  law_eq("x", e.x, a); law_eq("y", e.y, b); law_eq("angle", e.theta, s);
}
