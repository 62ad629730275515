// Quaternion algebra.
#include "law.h"
static const double HPI = 1.5707963;
static inline double n2(const Quaternion &q) { return (double)q.w * q.w + (double)q.x * q.x + (double)q.y * q.y + (double)q.z * q.z; }
LAW law_qua_default() { EQ("default is the unit", Quaternion(), Quaternion(1, 0, 0, 0)); }
LAW law_qua_product() {
  Quaternion a = QU("a"), b = QU("b"), p = a * b;
  law_eq("w", p.w, (double)a.w * b.w - (double)a.x * b.x - (double)a.y * b.y - (double)a.z * b.z);
  V av = vec(a.x, a.y, a.z), bv = vec(b.x, b.y, b.z), c = cross(av, bv);
  law_eq("x", p.x, (double)a.w * b.x + (double)b.w * a.x + c.v[0]);
  law_eq("y", p.y, (double)a.w * b.y + (double)b.w * a.y + c.v[1]);
  law_eq("z", p.z, (double)a.w * b.z + (double)b.w * a.z + c.v[2]);
  Quaternion d = a;
  Quaternion &r = (d *= b);
  EQ("*= is *", d, p);
  law_true("*= returns the object", &r == &d);
}
LAW law_qua_self_product() { Quaternion a = QU("a"), c = a; c *= c; EQ("a *= a", c, a * a); }
LAW law_qua_assoc() { Quaternion a = QU("a"), b = QU("b"), c = QU("c"); EQ("(ab)c = a(bc)", (a * b) * c, a * (b * c)); }
LAW law_qua_identity() { Quaternion a = QU("a"), e; EQ("ea", e * a, a); EQ("ae", a * e, a); }
LAW law_qua_norm() {
  Quaternion a = QU("a"), b = QU("b");
  law_eq("norm^2", (double)a.norm() * a.norm(), n2(a));
  law_eq("free norm", norm(a), a.norm());
  law_eq("norm is multiplicative", (double)(a * b).norm() * (a * b).norm(), n2(a) * n2(b));
}
LAW law_qua_inverse() {
  Quaternion a = QU("a"), u = anyQ("u");
  EQ("conjugate", a.inverse(), Quaternion(a.w, -a.x, -a.y, -a.z));
  EQ("free inverse", quaternionInverse(a), a.inverse());
  Quaternion o = QU("junk");
  quaternionInverse(a, o);
  EQ("out variant", o, a.inverse());
  EQ("involution", a.inverse().inverse(), a);
  EQ("unit: a a^-1", u * u.inverse(), Quaternion());
  EQ("unit: a^-1 a", u.inverse() * u, Quaternion());
}
LAW law_qua_inverse_product() {
  Quaternion a = QU("a"), b = QU("b");
  EQ("(ab)^-1", (a * b).inverse(), b.inverse() * a.inverse());
}
LAW law_qua_inverse_alias() { Quaternion a = QU("a"), c = a; quaternionInverse(c, c); EQ("in place", c, a.inverse()); }
LAW law_qua_scale() {
  Quaternion a = QU("a");
  float k = law_in("k", 0);
  EQ("a*k", a * k, Quaternion(a.w * k, a.x * k, a.y * k, a.z * k));
  Quaternion c = a;
  Quaternion &r = (c *= k);
  EQ("a*=k", c, a * k);
  law_true("*= returns the object", &r == &c);
}
LAW law_qua_divide() {
  Quaternion a = QU("a");
  float k = law_in("k", 0);
  law_throws_iff("division by zero", k == 0.0f);
  EQ("a/k*k", (a / k) * k, a);
}
LAW law_qua_divide_assign() {
  Quaternion a = QU("a"), c = a;
  float k = law_in("k", 0);
  law_throws_iff("division by zero", k == 0.0f);
  Quaternion &r = (c /= k);
  EQ("(a/=k)*k", c * k, a);
  law_true("/= returns the object", &r == &c);
}
LAW law_qua_normalize() {
  Quaternion a = QU("a");
  law_throws_iff("null quaternion", n2(a) == 0.0);
  Quaternion u = a.normalize();
  law_eq("unit norm", n2(u), 1);
  double n = std::sqrt(n2(a));
  EQ("same direction", u * (float)n, a);
  EQ("free normalize", normalize(a), u);
}
// the sandwich product rotates points
LAW law_qua_rotate() {
  Quaternion q = QU("q");
  Position3D p = P3("p");
  Quaternion r = q * Quaternion(0, p.x, p.y, p.z) * q.inverse();
  EQ("q p q^-1", q * p, Position3D(r.x, r.y, r.z));
  Quaternion a = anyQ("a");
  EQ("norm is kept", dot(v3(a * p), v3(a * p)), dot(v3(p), v3(p)));
}
LAW law_qua_rotate_product() {
  Quaternion a = QU("a"), b = QU("b");
  Position3D p = P3("p");
  EQ("(ab)p = a(bp)", (a * b) * p, a * (b * p));
}
LAW law_qua_angle_axis() {
  double h = law_in("h", 0);
  V u = anyU("u");
  Quaternion e((float)std::cos(h), (float)(std::sin(h) * u.v[0]), (float)(std::sin(h) * u.v[1]), (float)(std::sin(h) * u.v[2]));
  EQ("cos, sin of the half angle", quaternionFromAngleAndAxisRotation((float)(2 * h), (float)u.v[0], (float)u.v[1], (float)u.v[2]), e);
  EQ("static sibling", Quaternion::fromAngleAndAxisRotation((float)(2 * h), (float)u.v[0], (float)u.v[1], (float)u.v[2]), e);
}
LAW law_qua_to_angle_axis() {
  double h = law_range("h", 0, 0.001, HPI);
  V u = anyU("u");
  Quaternion q((float)std::cos(h), (float)(std::sin(h) * u.v[0]), (float)(std::sin(h) * u.v[1]), (float)(std::sin(h) * u.v[2]));
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(q, a, x, y, z);
  EQ("angle", a, 2 * h);
  EQ("axis x", x, u.v[0]);
  EQ("axis y", y, u.v[1]);
  EQ("axis z", z, u.v[2]);
}
LAW law_qua_to_angle_axis_vector() {
  Quaternion q = QU("q");
  law_assume(n2(q) > 0);
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(q, a, x, y, z);
  std::vector<float> v = angleAndAxisRotationFromQuaternion(q);
  law_eqi("size", v.size(), 4);
  EQ("angle", v[0], a);
  EQ("x", v[1], x);
  EQ("y", v[2], y);
  EQ("z", v[3], z);
}
LAW law_qua_to_angle_axis_identity() {
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(Quaternion(), a, x, y, z);
  EQ("angle", a, 0);
  EQ("default axis x", x, 1);
  EQ("default axis y", y, 0);
  EQ("default axis z", z, 0);
}
LAW law_qua_to_angle_axis_scale() {
  // neither the angle nor the axis depends on the norm
  double h = law_range("h", 0, 0.001, HPI), k = law_range("k", 0, 1e-3, 1e3);
  V u = anyU("u");
  double q0 = std::cos(h), q1 = std::sin(h) * u.v[0], q2 = std::sin(h) * u.v[1], q3 = std::sin(h) * u.v[2];
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(Quaternion((float)(k * q0), (float)(k * q1), (float)(k * q2), (float)(k * q3)), a, x, y, z);
  EQ("angle", a, 2 * h);
  EQ("axis x", x, u.v[0]);
  EQ("axis y", y, u.v[1]);
  EQ("axis z", z, u.v[2]);
}
LAW law_qua_to_angle_axis_scalar() {
  // a positive multiple of the unit quaternion is no rotation
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(Quaternion(law_pos("k", 0), 0, 0, 0), a, x, y, z);
  EQ("angle", a, 0);
  EQ("default axis x", x, 1);
  EQ("default axis y", y, 0);
  EQ("default axis z", z, 0);
}
