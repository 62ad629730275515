// Scenes: what shapes and meshes become, and the COLLADA document
#include "shape.h"
#include "mat.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/colladabuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/scenegraph/scenebuilder.h>
#include <almath/types/altransform.h>
#include <boost/property_tree/xml_parser.hpp>
#include <sstream>
#include <stdexcept>
#include <vector>
using namespace AL;
using AL::Math::Transform;
typedef boost::property_tree::ptree ptree;
ptree law_written;
static Transform tf(const char *n) {
  Transform t;
  float *p = &t.r1_c1;
  for (int i = 0; i < 12; ++i) p[i] = law_in(n, i);
  return t;
}
static void isTf(const Eigen::Affine3f &e, const char *n) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) law_eq("transform", e(i, j), law_in(n, 4 * i + j));
  for (int j = 0; j < 4; ++j) law_eq("last row", e(3, j), j == 3);
}
template <class T> static void EQV(const char *t, const std::vector<T> &a, const std::vector<T> &b) {
  law_eqi(t, a.size(), b.size());
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) law_eq(t, a[i], b[i]);
}
static void same(const Mesh &a, const Mesh &b) {
  EQV("positions", a.positions(), b.positions());
  EQV("normals", a.normals(), b.normals());
  EQV("vertices", a.vertices(), b.vertices());
  EQV("polygons", a.polygonVerticesCounts(), b.polygonVerticesCounts());
  law_true("texture coordinates", a.withTexCoords() == b.withTexCoords());
}
// a builder that keeps what it is given
struct Rec : SceneBuilder {
  std::vector<Mesh> meshes;
  std::vector<Eigen::Affine3f> tfs;
  Rec(const Config &c = Config()) : SceneBuilder(c) {}
  void xAddMesh(const Mesh &m, const Eigen::Affine3f &t) { meshes.push_back(m); tfs.push_back(t); }
};
static SceneBuilder::Config config(int arc) {
  SceneBuilder::Config c;
  c.nbArcVertices = arc;
  c.color.r = law_in("color", 0); c.color.g = law_in("color", 1); c.color.b = law_in("color", 2); c.color.a = law_in("color", 3);
  return c;
}
static Mesh triangle(const char *n) {
  Mesh m;
  m.normal(0, 0, 1);
  m.begin(Mesh::TRIANGLES);
  for (int i = 0; i < 3; ++i) m.vertex(law_in(n, 3 * i), law_in(n, 3 * i + 1), law_in(n, 3 * i + 2));
  m.end();
  return m;
}
LAW law_add_shape() {
  int k = law_pick("shape", 3), how = law_pick("as a shape", 2), arc = law_pick("arc", 2);
  Rec b(config(arc));
  Transform t = tf("t");
  float x = law_pos("x", 0), y = law_pos("y", 0), r = law_pos("r", 0);
  Math::Sphere s(r);
  Math::RoundedRectangle q(x, y, r);
  Math::Pill p(x, r);
  const Math::Shape3D *any[] = {&s, &q, &p};
  if (how) b.add(*any[k], t); else if (k == 0) b.add(s, t); else if (k == 1) b.add(q, t); else b.add(p, t);
  law_eqi("one mesh", b.meshes.size(), 1);
  isTf(b.tfs[0], "t");
  Mesh e;
  if (k == 0) addRoundedBoxMesh(0, 0, 0, r, arc, e); else if (k == 1) addRoundedBoxMesh(x, y, 0, r, arc, e); else addRoundedBoxMesh(0, 0, x, r, arc, e);
  same(b.meshes[0], e);
}
LAW law_add_mesh() {
  Rec b;
  Mesh m = triangle("v");
  if (law_pick("transform", 2)) b.add(m, tf("t"));
  else {
    Eigen::Affine3f e = Eigen::Affine3f::Identity();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) e(i, j) = law_in("t", 4 * i + j);
    b.add(m, e);
  }
  law_eqi("one mesh", b.meshes.size(), 1);
  isTf(b.tfs[0], "t");
  same(b.meshes[0], m);
}
LAW law_add_refused() {
  int k = law_pick("what", 6);
  Rec b;
  Transform t = tf("t");
  law_throws_iff("not supported", true);
  if (k == 0) b.add(Mesh(true), t);
  else if (k == 1) b.add(Mesh(true), Eigen::Affine3f(Eigen::Affine3f::Identity()));
  else if (k == 2) b.add(Math::Plane(), t);
  else if (k == 3) b.add(Math::HalfSpace(), t);
  else if (k == 4) b.add(Math::Rectangle(1, 2), t);
  else b.add(Math::HalfLine(), t);
}
LAW law_config() {
  Rec b(config(3)), c(b);
  for (const Rec *r : {&b, &c}) {
    const SceneBuilder::Config &f = r->getConfig();
    law_eqi("arc", f.nbArcVertices, 3);
    law_true("color", f.color.r == law_in("color", 0) && f.color.g == law_in("color", 1) && f.color.b == law_in("color", 2) && f.color.a == law_in("color", 3));
  }
}
// ---- reading a document ---------------------------------------------------
static std::string attr(const ptree &e, const char *n) { return e.get<std::string>(std::string("<xmlattr>.") + n); }
static std::vector<const ptree *> all(const ptree &e, const char *n) {
  std::vector<const ptree *> r;
  for (auto &c : e) if (c.first == n) r.push_back(&c.second);
  return r;
}
static const ptree *find(const ptree &e, const char *n, const std::string &url) {  // url: #id
  const ptree *r = nullptr;
  int k = 0;
  for (auto *c : all(e, n)) if ("#" + attr(*c, "id") == url) { r = c; ++k; }
  law_eqi("one element of this id", k, 1);
  return r;
}
template <class T> static std::string text(const std::vector<T> &v) {
  std::ostringstream s;
  for (auto x : v) s << x << " ";
  return s.str();
}
static std::vector<double> reals(const std::string &s) {
  std::istringstream in(s);
  std::vector<double> r;
  double x;
  while (in >> x) r.push_back(x);
  return r;
}
// what a reader of the text of a number gets
static double printed(double x) {
  std::ostringstream s;
  s << float(x);
  return reals(s.str()).at(0);
}
static std::vector<double> printed(const std::vector<float> &v) {
  std::vector<double> r;
  for (float x : v) r.push_back(printed(x));
  return r;
}
static void holdsNumbers(const char *what, const std::string &s, const std::vector<size_t> &v) {
  // whole numbers, with all their digits
  law_true(what, s == text(v));
}
static void source(const ptree &mesh, const std::string &url, const std::vector<float> &v) {
  const ptree *s = find(mesh, "source", url);
  if (!s) return;
  const ptree &array = s->get_child("float_array"), &acc = s->get_child("technique_common.accessor");
  law_true("count of numbers", array.get<size_t>("<xmlattr>.count") == v.size());
  law_true("count of vectors", acc.get<size_t>("<xmlattr>.count") == v.size() / 3);
  law_true("stride", acc.get<int>("<xmlattr>.stride") == 3);
  law_true("array of the accessor", attr(acc, "source") == "#" + attr(array, "id"));
  auto params = all(acc, "param");
  law_eqi("three components", params.size(), 3);
  for (size_t i = 0; i < params.size(); ++i) law_true("component", attr(*params[i], "name") == std::string(1, 'X' + i) && attr(*params[i], "type") == "float");
  std::vector<double> r = reals(array.data());
  law_eqi("numbers", r.size(), v.size());
  for (size_t i = 0; i < r.size() && i < v.size(); ++i) law_eq("number", r[i], printed(v[i]));
}
static void geometry(const ptree &g, const Mesh &m) {
  const ptree &mesh = g.get_child("mesh"), &poly = mesh.get_child("polylist");
  auto inputs = all(poly, "input");
  law_eqi("inputs", inputs.size(), 2);
  for (auto *i : inputs) {
    std::string what = attr(*i, "semantic");
    if (what == "VERTEX") {
      law_true("offset", i->get<int>("<xmlattr>.offset") == 0);
      const ptree *v = find(mesh, "vertices", attr(*i, "source"));
      if (!v) continue;
      law_true("positions", attr(v->get_child("input"), "semantic") == "POSITION");
      source(mesh, attr(v->get_child("input"), "source"), m.positions());
    } else {
      law_true("normals", what == "NORMAL" && i->get<int>("<xmlattr>.offset") == 1);
      source(mesh, attr(*i, "source"), m.normals());
    }
  }
  law_true("number of polygons", poly.get<size_t>("<xmlattr>.count") == m.polygonsNb());
  holdsNumbers("vertices per polygon", poly.get<std::string>("vcount"), m.polygonVerticesCounts());
  holdsNumbers("indices", poly.get<std::string>("p"), m.vertices());
}
LAW law_geometry() {
  ColladaBuilder b;
  ptree lib;
  Mesh m;
  if (law_pick("mesh", 2)) addBoxMesh(law_pos("x", 0), law_pos("y", 0), law_pos("z", 0), m); else m = triangle("v");
  ptree &g = b.addGeometryMesh(lib, "some", m);
  law_true("in the library", lib.size() == 1 && &lib.front().second == &g && lib.front().first == "geometry");
  law_true("id", attr(g, "id") == "some");
  geometry(g, m);
}
LAW law_node() {
  ColladaBuilder b;
  ptree scene;
  Eigen::Affine3f e = Eigen::Affine3f::Identity();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) e(i, j) = law_in("t", 4 * i + j);
  bool named = law_pick("named", 2);
  ptree &n = b.addNode(scene, named ? "some" : "", e);
  law_true("in the scene", scene.size() == 1 && &scene.front().second == &n && scene.front().first == "node");
  law_true("id", named ? attr(n, "id") == "some" : !n.get_child_optional("<xmlattr>.id"));
  std::vector<double> r = reals(n.get<std::string>("matrix"));
  law_eqi("matrix", r.size(), 16);
  for (int i = 0; i < 16; ++i) law_eq("by rows", r[i], i < 12 ? printed(law_in("t", i)) : i == 15);
}
// a whole document of n meshes
static void document(const ptree &xml, int n, bool shallow = false) {
  const ptree &c = xml.get_child("COLLADA");
  const ptree *scene = find(c.get_child("library_visual_scenes"), "visual_scene", attr(c.get_child("scene.instance_visual_scene"), "url"));
  if (!scene) return;
  auto nodes = all(*scene, "node");
  law_eqi("nodes", nodes.size(), n);
  law_eqi("geometries", all(c.get_child("library_geometries"), "geometry").size(), n);
  const char *const T[] = {"t0", "t1", "t2"}, *const M[] = {"v0", "v1", "v2"};
  for (int i = 0; i < n && i < int(nodes.size()); ++i) {
    std::vector<double> r = reals(nodes[i]->get<std::string>("matrix"));
    law_eqi("matrix", r.size(), 16);
    for (int k = 0; k < 12; ++k) law_eq("transform of the mesh", r[k], printed(law_in(T[i], k)));
    const ptree &inst = nodes[i]->get_child("instance_geometry");
    if (const ptree *g = find(c.get_child("library_geometries"), "geometry", attr(inst, "url"))) {
      if (shallow) EQV("positions", reals(g->get<std::string>("mesh.source.float_array")), printed(triangle(M[i]).positions()));
      else geometry(*g, triangle(M[i]));
    }
    const ptree &im = inst.get_child("bind_material.technique_common.instance_material");
    law_true("material of the polygons", attr(im, "symbol") == "material");
    const ptree *mat = find(c.get_child("library_materials"), "material", attr(im, "target"));
    if (!mat) continue;
    const ptree *fx = find(c.get_child("library_effects"), "effect", attr(mat->get_child("instance_effect"), "url"));
    if (!fx) continue;
    std::vector<double> col = reals(fx->get<std::string>("profile_COMMON.technique.phong.diffuse.color"));
    law_eqi("color", col.size(), 4);
    for (int k = 0; k < 4; ++k) law_eq("color", col[k], printed(law_in("color", k)));
  }
}
static ptree written(const ColladaSceneBuilder &b) { std::ostringstream s; s << b; return law_written; }
static void add(ColladaSceneBuilder &b, int i) { const char *const T[] = {"t0", "t1", "t2"}, *const M[] = {"v0", "v1", "v2"}; b.add(triangle(M[i]), tf(T[i])); }
LAW law_document() {
  int n = law_pick("meshes", 4);
  ColladaSceneBuilder b(config(2));
  for (int i = 0; i < n; ++i) add(b, i);
  document(written(b), n);
}
// copies go their own ways
LAW law_document_copies() {
  int n = law_pick("before", 2), how = law_pick("assigned", 2), u = law_pick("added to the first", 2), w = law_pick("added to the copy", 2);
  ColladaSceneBuilder b(config(2)), other;
  for (int i = 0; i < n; ++i) add(b, i);
  if (how) { add(other, 2); other = b; other = other; }
  ColladaSceneBuilder c(how ? other : b);
  for (int i = 0; i < u; ++i) add(b, n + i);
  for (int i = 0; i < w; ++i) add(c, n + i);
  document(written(b), n + u, true);
  document(written(c), n + w, true);
  if (how) document(written(other), n, true);
}
