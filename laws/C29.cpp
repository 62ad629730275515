// Inertias: change of frame, union of two bodies, and squashing the masses of a URDF tree
#include "tree.h"
#include "mat.h"
#include <almath/scenegraph/urdfeigen.h>
typedef Eigen::Transform<double, 3, Eigen::AffineCompact, Eigen::DontAlign> EPose;
static M3 mat(const Array3d &r) { return mrpy(r[0], r[1], r[2]); }
template <class E> static M3 mat(const E &e) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m[i][j] = e(i, j); return m; }
static Eigen::Matrix3d eig(const M3 &m) {
  Eigen::Matrix3d e;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e(i, j) = m.m[i][j];
  return e;
}
static V vecof(const Array3d &a) { return vec(a[0], a[1], a[2]); }
static V add(const V &a, const V &b) { return vec(a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2]); }
static V scale(double k, const V &a) { return vec(k * a.v[0], k * a.v[1], k * a.v[2]); }
static M3 add(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + b.m[i][j]; return r; }
// inertia about the origin of a point mass at d: m (|d|^2 1 - d d^T)
static M3 point(double m, const V &d) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = m * ((i == j ? dot(d, d) : 0) - d.v[i] * d.v[j]);
  return r;
}
static M3 turned(const M3 &r, const M3 &i) { return mmul(mmul(r, i), mtr(r)); }
static M3 sym(const char *n) {
  M3 r;
  int k = 0;
  for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) r.m[i][j] = r.m[j][i] = law_in(n, k++);
  return r;
}
static M3 any(const char *n) { M3 r; for (int i = 0; i < 9; ++i) r.m[i / 3][i % 3] = law_in(n, i); return r; }
static V vin(const char *n) { return vec(law_in(n, 0), law_in(n, 1), law_in(n, 2)); }
static EPose epose(const V &x, const M3 &r) {
  EPose p;
  p.linear() = eig(r);
  p.translation() = Eigen::Vector3d(x.v[0], x.v[1], x.v[2]);
  return p;
}
LAW law_inertia_point_mass() {
  Eigen::Matrix3d I = eig(any("I"));
  AL::Math::addPointMassInertia(double(law_in("m", 0)), Eigen::Vector3d(law_in("d", 0), law_in("d", 1), law_in("d", 2)), I);
  EQ("adds the inertia of the point", mat(I), add(any("I"), point(law_in("m", 0), vin("d"))));
}
// bodies a and b; the frame of a is turned by A, the one of b by A C
static void unite(const M3 &A, const M3 &C) {
  double ma = law_pos("ma", 0), mb = law_pos("mb", 0), mc;
  V xa = vin("xa"), xb = vin("xb");
  M3 Ia = sym("Ia"), Ib = sym("Ib");
  EPose pc;
  Eigen::Matrix3d Ic;
  AL::Math::squashInertial(ma, epose(xa, A), eig(Ia), mb, epose(xb, mmul(A, C)), eig(Ib), mc, pc, Ic);
  law_eq("mass", mc, ma + mb);
  V xc = scale(1 / (ma + mb), add(scale(ma, xa), scale(mb, xb)));
  for (int i = 0; i < 3; ++i) law_eq("centre of mass", pc.translation()[i], xc.v[i]);
  EQ("basis of a", mat(pc.linear()), A);
  V da = mv(mtr(A), add(xa, scale(-1, xc))), db = mv(mtr(A), add(xb, scale(-1, xc)));
  EQ("inertia", mat(Ic), add(add(Ia, point(ma, da)), add(turned(C, Ib), point(mb, db))));
}
static M3 axis(int k, double a) { return k == 0 ? mrx(a) : k == 1 ? mry(a) : mrz(a); }
LAW law_inertia_union_aligned() { unite(mid(), mrpy(law_in("r", 0), law_in("r", 1), law_in("r", 2))); }
LAW law_inertia_union_same_basis() { unite(mrpy(law_in("r", 0), law_in("r", 1), law_in("r", 2)), mid()); }
LAW law_inertia_union_turned() {
  int k = law_pick("axis of a", 3);
  unite(axis(k, law_in("q", 0)), axis((k + 1 + law_pick("axis of b", 2)) % 3, law_in("r", 0)));
}
// URDF inertials
static void put_inertial(ptree &pt, double mass, const M3 &I) {
  pt.put("mass.<xmlattr>.value", num(mass));
  const char *const N[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  int k = 0;
  for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) pt.put(std::string("inertia.<xmlattr>.") + N[k++], num(I.m[i][j]));
}
static void put_origin(ptree &pt, const Pose &p) { if (auto o = p.to_ptree()) pt.put_child("origin", *o); }
LAW law_inertial_to_eigen() {
  ptree pt;
  put_inertial(pt, law_in("m", 0), sym("I"));
  int k = law_pick("origin: none, one angle, all angles", 5);
  Array3d x{{law_in("x", 0), law_in("x", 1), law_in("x", 2)}}, r{{0, 0, 0}};
  for (int i = 0; i < 3; ++i) if (k == i + 1 || k == 4) r[i] = law_in("r", i);
  if (k) { pt.put("origin.<xmlattr>.xyz", num(x[0], x[1], x[2])); pt.put("origin.<xmlattr>.rpy", num(r[0], r[1], r[2])); }
  double m;
  Eigen::Vector3d c;
  Eigen::Matrix3d I;
  AL::Math::urdfInertialToEigen(Inertial(pt), m, c, I);
  law_eq("mass", m, law_in("m", 0));
  for (int i = 0; i < 3; ++i) law_eq("centre of mass", c[i], k ? x[i] : 0);
  EQ("inertia in the basis of the body", mat(I), turned(mat(r), sym("I")));
}
// squashing the mass of a joint's child link into its parent link
// the matrix of a pose's angles, through half angles as the library does (C25: it is mrpy)
static M3 half(const Array3d &r) {
  double a = r[0] / 2, b = r[1] / 2, c = r[2] / 2;
  return mmul(mmul(mquat(std::cos(c), 0, 0, std::sin(c)), mquat(std::cos(b), 0, std::sin(b), 0)), mquat(std::cos(a), std::sin(a), 0, 0));
}
struct Body { double m; Array3d x, r; M3 I; };  // what an inertial says
static Body body(const char *n, double m, const Array3d &x, const Array3d &r) { Body b = {m, x, r, sym(n)}; return b; }
static ptree to_ptree(const Body &b) {
  ptree pt;
  put_inertial(pt, b.m, b.I);
  put_origin(pt, Pose(b.x, b.r));
  return pt;
}
static V place(const M3 &r, const Array3d &x, const Array3d &y) { return add(vecof(x), mv(r, vecof(y))); }
static void holds(ptree &link, double m, const V &x, const M3 &r, const M3 &I) {
  auto found = Link(link).inertial();
  law_true("an inertial", bool(found));
  if (!found) return;
  law_eq("mass", found->mass(), m);
  Pose p = found->origin();
  EQ("centre of mass", p.xyz(), x.v[0], x.v[1], x.v[2]);
  EQ("basis", p.rpy(), AL::Math::urdfRpyFromEigenMatrix3(eig(r)));
  EQ("inertia", mat(AL::Math::toEigenMatrix3(*found)), I);
}
static Array3d turn(const char *n, int k) {  // 0 none, 1..3 any angle about one axis
  Array3d r{{0, 0, 0}};
  if (k) {
    r[k - 1] = law_in(n, 0);
    law_assume(r[k - 1] != 0);
    law_assume(std::sin(r[k - 1] / 2) != 0);  // law_squash_whole_turns
  }
  return r;
}
static Array3d shift(const char *n, int on) { return arr(n, on ? 0 : 3); }
static bool aside;  // the common centre of mass is not the origin of the parent frame
static void squash(Body *p, const Array3d &xj, const Array3d &rj, const Body *c, bool both = false) {
  ptree robot;
  robot.put("<xmlattr>.name", "robot");
  add_link(robot, "l0"); add_link(robot, "l1");
  ptree &j = add_joint(robot, "j1", "l0", "l1", both && law_pick("type", 2) ? "fixed" : "revolute");
  put_origin(j, Pose(xj, rj));
  RobotTree t(robot);
  if (p) t.link("l0").put_child("inertial", to_ptree(*p));
  if (c) t.link("l1").put_child("inertial", to_ptree(*c));
  V x, xc;
  M3 RC, r, I;
  double m;
  if (c) {
    M3 RJ = half(rj);
    RC = mmul(RJ, half(c->r));
    xc = place(RJ, xj, c->x);
    if (!p) {
      m = c->m; x = xc; r = RC; I = c->I;
      if (aside) law_assume(!(x.v[0] == 0 && x.v[1] == 0 && x.v[2] == 0));
    } else {
      m = p->m + c->m;
      V s = add(scale(p->m, vecof(p->x)), scale(c->m, xc));
      x = scale(1 / m, s);
      r = half(p->r);
      M3 back = mtr(r);
      I = add(add(p->I, point(p->m, mv(back, add(vecof(p->x), scale(-1, x))))),
              add(turned(mmul(back, RC), c->I), point(c->m, mv(back, add(xc, scale(-1, x))))));
      if (aside) law_assume(!(s.v[0] == 0 && s.v[1] == 0 && s.v[2] == 0));
    }
  }
  ptree before = robot;
  squashJointMass(t, "j1");
  if (!c) { law_true("nothing to move", robot == before); return; }
  law_true("the child is massless", !Link(t.link("l1")).inertial());
  holds(t.link("l0"), m, x, r, I);
  t.link("l0").erase("inertial");
  for (auto &v : before) if (v.first == "link") v.second.erase("inertial");
  law_true("nothing else", robot == before);
}
LAW law_squash_without_child_mass() {
  Body p = body("Ip", law_pos("mp", 0), shift("xp", law_pick("xp", 2)), turn("rp", law_pick("rp", 2)));
  squash(law_pick("parent inertial", 2) ? &p : nullptr, shift("xj", 1), turn("rj", 0), nullptr, true);
}
LAW law_squash_into_massless() {
  int x = law_pick("xc, xj", 4);
  aside = x;
  int k = law_pick("rc", 2), l = law_pick("rj", 3);
  Body c = body("Ic", law_pos("mc", 0), shift("xc", x / 2), turn("rc", k ? 2 : 0));
  squash(nullptr, shift("xj", x % 2), turn("rj", l == 2 ? 3 : l), &c);
}
static void bodies(int nr, int nk) {
  int x = law_pick("xp, xc, xj", 8);
  Body p = body("Ip", law_pos("mp", 0), shift("xp", x / 4), turn("rp", law_pick("rp", 2)));
  int k = law_pick("rc", nr), l = law_pick("rj", nk);
  Body c = body("Ic", law_pos("mc", 0), shift("xc", x / 2 % 2), turn("rc", k));
  aside = x;
  squash(&p, shift("xj", x % 2), turn("rj", nk == 4 ? l : l ? 3 : 0), &c);
}
LAW law_squash_bodies() { bodies(2, 2); }
LAW law_t_squash_bodies() { bodies(4, 4); }
// the two bodies balance: the common centre of mass is the origin of the parent frame
LAW law_squash_balanced() {
  double m = law_pos("m", 0);
  Array3d x = shift("x", 1), y{{-x[0], -x[1], -x[2]}}, z{{0, 0, 0}};
  Body p = body("Ip", m, x, turn("rp", law_pick("rp", 2)));
  Body c = body("Ic", m, z, turn("rc", law_pick("rc", 2)));
  squash(&p, y, turn("rj", 0), &c);
}
// the frame of the joint takes the child's body to the parent frame's
LAW law_squash_undone() {
  int k = law_pick("axis", 3), h = law_pick("quarters of a turn", 3) + 1;
  Array3d z{{0, 0, 0}}, r = z, s = z;
  r[k] = h * M_PI / 2;
  s[k] = (law_pick("sum of the angles", 2) ? 4 - h : -h) * M_PI / 2;
  Body c = body("Ic", law_pos("mc", 0), z, r);
  squash(nullptr, z, s, &c, true);
}

// whole trees, frames translated only: mass, first moment and inertia about the origin of the link's frame
struct Sum { bool any; double m; V s; M3 I; };
static M3 about(double m, const V &x, const M3 &I) { return add(I, point(m, x)); }
static const char *const TYPES[] = {"revolute", "fixed", "continuous", "prismatic", "floating", "planar"};
struct Loaded : Tree {
  Sum own[6];
  V at[6];
  bool fixed[6];
  int kind[6];
  // types: j1 is of any type, and l1 is massless
  Loaded(int n, int types = 0) : Tree(n, 0) {  // 2: j2 is fixed
    const char *const X[] = {"x0", "x1", "x2", "x3"}, *const I[] = {"I0", "I1", "I2", "I3"}, *const J[] = {"", "o1", "o2", "o3"},
               *const B[] = {"inertial of l0", "inertial of l1", "inertial of l2", "inertial of l3"}, *const F[] = {"", "type of j1", "type of j2", "type of j3"};
    for (int i = 0; i < n; ++i) {
      own[i].any = types ? i != 1 : (i == 0 && n == 4) || law_pick(B[i], 2);
      if (own[i].any) {
        Array3d x{{law_pos(X[i], 0), law_pos(X[i], 1), law_pos(X[i], 2)}};
        Body b = {law_pos("m", i), x, {{0, 0, 0}}, sym(I[i])};
        find("link", nm('l', i))->put_child("inertial", to_ptree(b));
        own[i].m = b.m; own[i].s = scale(b.m, vecof(x)); own[i].I = about(b.m, vecof(x), b.I);
      }
      if (!i) continue;
      kind[i] = types == 2 && i == 2 ? 1 : law_pick(F[i], types && i == 1 ? 6 : 2);
      fixed[i] = kind[i] == 1;
      Array3d o{{law_pos(J[i], 0), law_pos(J[i], 1), law_pos(J[i], 2)}};
      ptree &j = *find("joint", nm('j', i));
      j.put("<xmlattr>.type", TYPES[kind[i]]);
      put_origin(j, Pose(o, {{0, 0, 0}}));
      at[i] = vecof(o);
    }
  }
  // b, moved by the fixed joint i, joins a
  static void join(Sum &a, const Sum &b, const V &d) {
    if (!b.any) return;
    V s = add(b.s, scale(b.m, d));
    // inertia about the origin: moved by the parallel axes rule
    M3 I = b.I;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
      I.m[i][j] += (i == j ? 2 * dot(d, b.s) : 0) - d.v[i] * b.s.v[j] - d.v[j] * b.s.v[i] + b.m * ((i == j ? dot(d, d) : 0) - d.v[i] * d.v[j]);
    if (!a.any) { a.any = true; a.m = b.m; a.s = s; a.I = I; return; }
    a.m += b.m; a.s = add(a.s, s); a.I = add(a.I, I);
  }
  // what remains with link i
  Sum rest(int i, bool massless_joints_too, bool *now_fixed) {
    Sum a = own[i];
    for (int k = i + 1; k < n; ++k) if (up[k] == i) {
      Sum b = rest(k, massless_joints_too, now_fixed);
      now_fixed[k] = fixed[k] || (massless_joints_too && !b.any);
      if (fixed[k]) join(a, b, at[k]);
    }
    return a;
  }
  void check(bool massless_joints_too, const std::vector<std::string> *names) {
    bool now[6];
    rest(0, massless_joints_too, now);
    int changed = 0;
    for (int i = 0; i < n; ++i) {
      ptree &l = *find("link", nm('l', i));
      Sum e = rest(i, massless_joints_too, now);
      if (i && fixed[i]) e.any = false;
      auto in = Link(l).inertial();
      law_true("an inertial exactly when there is mass", bool(in) == e.any);
      if (in && e.any) {
        V x = vecof(in->origin().xyz());
        law_eq("mass", in->mass(), e.m);
        EQ("first moment", scale(in->mass(), x), e.s);
        EQ("inertia", about(in->mass(), x, mat(AL::Math::toEigenMatrix3(*in))), e.I);
        EQ("basis", in->origin().rpy(), 0, 0, 0);
      }
      if (!i) continue;
      Joint j(*find("joint", nm('j', i)));
      law_true("type", find("joint", nm('j', i))->get<std::string>("<xmlattr>.type") == TYPES[now[i] ? 1 : kind[i]]);
      if (now[i] && !fixed[i]) {
        ++changed;
        int k = 0;
        if (names) for (auto &s : *names) k += s == nm('j', i);
        law_eqi("named once", k, 1);
      }
    }
    if (names) law_eqi("names", names->size(), changed);
  }
};
static void squash_tree(int n, int types = 0) { Loaded d(n, types); RobotTree t(d.robot); squashFixedJointsMass(t); d.check(false, nullptr); }
static void massless_tree(int n, int types = 0) { Loaded d(n, types); RobotTree t(d.robot); auto names = makeMasslessJointsFixed(t); d.check(true, &names); }
LAW law_tree_squash() { squash_tree(3); }
LAW law_tree_squash_types() { squash_tree(3, 2); }
LAW law_tree_massless_types() { massless_tree(3, 1); }
LAW law_t_tree_squash() { squash_tree(4); }
LAW law_tree_massless() { massless_tree(3); }
LAW law_t_tree_massless() { massless_tree(4); }
