// Meshes of boxes and rounded boxes: closed surfaces, facing outwards, on the shape
#include "shape.h"
#include "mat.h"
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <vector>
using AL::Mesh;
static V at(const std::vector<float> &v, size_t i) { return vec(v[3 * i], v[3 * i + 1], v[3 * i + 2]); }
static V minus(const V &a, const V &b) { return vec(a.v[0] - b.v[0], a.v[1] - b.v[1], a.v[2] - b.v[2]); }
static V plus(const V &a, const V &b) { return vec(a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2]); }
// what was in the mesh before
struct Before { size_t np, nn, nv, nc; };
static Before begin(Mesh &m, bool used) {
  if (used) {
    m.normal(0, 1, 0);
    m.begin(Mesh::TRIANGLES);
    for (int i = 0; i < 3; ++i) m.vertex(law_in("before", 3 * i), law_in("before", 3 * i + 1), law_in("before", 3 * i + 2));
    m.end();
  }
  return {m.positionsNb(), m.normalsNb(), m.verticesNb(), m.polygonsNb()};
}
static void surface(const Mesh &m, const Before &b, bool used, double x, double y, double z, double r) {
  // nothing else has changed
  if (used) {
    for (int i = 0; i < 9; ++i) law_eq("earlier positions", m.positions()[i], law_in("before", i));
    for (int i = 0; i < 3; ++i) law_eq("earlier normal", m.normals()[i], i == 1);
    for (int i = 0; i < 3; ++i) law_true("earlier vertices", m.vertices()[2 * i] == size_t(i) && m.vertices()[2 * i + 1] == 0);
    law_eqi("earlier polygon", m.polygonVerticesCountAt(0), 3);
  }
  const double h[3] = {x, y, z};
  size_t np = m.positionsNb() - b.np;
  std::vector<int> edge(np * np, 0), seen(np, 0);
  size_t at0 = b.nv, edges = 0, faces = m.polygonsNb() - b.nc;
  law_true("polygons", faces > 0);
  bool inside = true, twice = false;
  for (size_t f = b.nc; f < m.polygonsNb(); ++f) {
    size_t n = m.polygonVerticesCountAt(f);
    V area = vec(0, 0, 0), out = area;
    for (size_t i = 0; i < n; ++i) {
      const size_t *u = m.vertexPtrAt(at0 + i), *w = m.vertexPtrAt(at0 + (i + 1) % n);
      if (u[0] < b.np || u[0] >= m.positionsNb() || w[0] < b.np || w[0] >= m.positionsNb() || u[1] < b.nn || u[1] >= m.normalsNb()) { inside = false; continue; }
      V p = at(m.positions(), u[0]), q = at(m.positions(), w[0]), k = at(m.normals(), u[1]);
      seen[u[0] - b.np] = 1;
      if (u[0] != w[0]) {
        int &e = edge[(u[0] - b.np) * np + (w[0] - b.np)];
        if (e) twice = true;
        e = 1;
        ++edges;
      }
      // the vertex is the point of the shape furthest along its normal
      law_eq("unit normal", dot(k, k), 1);
      for (int c = 0; c < 3; ++c) {
        double d = p.v[c] - r * k.v[c];
        if (k.v[c] > 0.01) law_eq("on the shape", d, h[c]);
        else if (k.v[c] < -0.01) law_eq("on the shape", d, -h[c]);
        else { law_eq("no smaller component", k.v[c], 0); law_true("on the shape", d == h[c] || d == -h[c]); }
      }
      area = plus(area, cross(p, q));
      out = plus(out, k);
    }
    law_true("facing outwards", dot(area, out) > 0);
    at0 += n;
  }
  law_eqi("all vertices are in polygons", at0, m.verticesNb());
  law_true("indices of its own", inside);
  law_true("no edge twice in one direction", !twice);
  bool closed = true;
  size_t used_positions = 0;
  for (size_t i = 0; i < np; ++i) {
    used_positions += seen[i];
    for (size_t j = 0; j < i; ++j) closed = closed && edge[i * np + j] == edge[j * np + i];
  }
  law_true("closed", closed);
  law_eqi("every position is used", used_positions, np);
  law_eqi("a sphere", long(np) - long(edges / 2) + long(faces), 2);
  // nothing is left open
  Mesh c(m);
  c.begin(Mesh::POLYGON);
  c.end();
}
LAW law_box_mesh() {
  bool used = law_pick("mesh in use", 2);
  float x = law_pos("x", 0), y = law_pos("y", 0), z = law_pos("z", 0);
  Mesh m;
  Before b = begin(m, used);
  int how = law_pick("function", 2);
  if (how) AL::addRoundedBoxMesh(x, y, z, 0, law_pick("vertices", 2), m); else AL::addBoxMesh(x, y, z, m);
  size_t at0 = b.nv;
  int faces = 0;
  for (size_t f = b.nc; f < m.polygonsNb(); at0 += m.polygonVerticesCountAt(f++)) {
    law_eqi("quads", m.polygonVerticesCountAt(f), 4);
    size_t k = m.vertexPtrAt(at0)[1];
    for (int i = 0; i < 4; ++i) law_true("one normal per face", m.vertexPtrAt(at0 + i)[1] == k);
    V n = at(m.normals(), k);
    law_true("along an axis", (n.v[0] != 0) + (n.v[1] != 0) + (n.v[2] != 0) == 1);
    const double h[3] = {x, y, z};
    for (int i = 0; i < 4; ++i) {
      V p = at(m.positions(), m.vertexPtrAt(at0 + i)[0]);
      for (int c = 0; c < 3; ++c) if (n.v[c] != 0) law_eq("in the plane of its normal", p.v[c], n.v[c] * h[c]);
    }
    ++faces;
  }
  law_eqi("six faces", faces, 6);
  surface(m, b, used, x, y, z, 0);
}
static void rounded(int arc) {
  bool used = law_pick("mesh in use", 2);
  float x = law_pick("x", 2) ? law_pos("x", 0) : 0, y = law_pick("y", 2) ? law_pos("y", 0) : 0, z = law_pick("z", 2) ? law_pos("z", 0) : 0, r = law_pos("r", 0);
  Mesh m;
  Before b = begin(m, used);
  AL::addRoundedBoxMesh(x, y, z, r, arc, m);
  surface(m, b, used, x, y, z, r);
}
LAW law_rounded_0() { rounded(0); }
LAW law_rounded_1() { rounded(1); }
LAW law_t_rounded_2() { rounded(2); }
LAW law_create() {
  int k = law_pick("function", 2), arc = law_pick("vertices", 2);
  float x = law_pos("x", 0), y = law_pos("y", 0), z = law_pos("z", 0), r = law_pos("r", 0);
  Mesh m, c = k ? AL::createRoundedBoxMesh(x, y, z, r, arc) : AL::createBoxMesh(x, y, z);
  if (k) AL::addRoundedBoxMesh(x, y, z, r, arc, m); else AL::addBoxMesh(x, y, z, m);
  law_true("no texture coordinates", !c.withTexCoords());
  law_true("same sizes", c.positions().size() == m.positions().size() && c.normals().size() == m.normals().size() && c.vertices().size() == m.vertices().size() && c.polygonsNb() == m.polygonsNb());
  for (size_t i = 0; i < m.positions().size(); ++i) law_eq("positions", c.positions()[i], m.positions()[i]);
  for (size_t i = 0; i < m.normals().size(); ++i) law_eq("normals", c.normals()[i], m.normals()[i]);
  for (size_t i = 0; i < m.vertices().size(); ++i) law_eqi("vertices", c.vertices()[i], m.vertices()[i]);
  for (size_t i = 0; i < m.polygonsNb(); ++i) law_eqi("polygons", c.polygonVerticesCountAt(i), m.polygonVerticesCountAt(i));
}
