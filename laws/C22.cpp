// Mesh building: states named by a short history, then any two calls
#include "shape.h"
#include <almath/scenegraph/mesh.h>
#include <stdexcept>
#include <vector>
using AL::Mesh;
// what the documentation says of each call
struct Model {
  bool tex;
  std::vector<float> positions, normals, texCoords;
  std::vector<size_t> vertices, counts;
  int mode;         // -1: outside begin/end
  size_t n;         // vertices since begin
  long normal, uv;  // current ones, -1: none
};
enum Outcome { DONE, RANGE, STATE };
static int id = 0;
static float fresh() { return law_in("v", id++); }
static void push(std::vector<float> &v, float x, float y, float z) { v.push_back(x); v.push_back(y); v.push_back(z); }
static const float NORMAL[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, -1}};

// calls: 0 position, 1 normal, 2 normal(i), 3 texCoord, 4 texCoord(i), 5..7 begin, 8 vertex(i), 9 vertex(x, y, z), 10 end
static Outcome spec(Model &m, int call, size_t i, float x, float y, float z, long &ret) {
  ret = -1;
  const float *n = NORMAL[m.normals.size() / 3 % 3];
  switch (call) {
    case 0: ret = m.positions.size() / 3; push(m.positions, x, y, z); return DONE;
    case 1: ret = m.normal = m.normals.size() / 3; push(m.normals, n[0], n[1], n[2]); return DONE;
    case 2: if (i >= m.normals.size() / 3) return RANGE; m.normal = i; return DONE;
    case 3: ret = m.uv = m.texCoords.size() / 2; m.texCoords.push_back(x); m.texCoords.push_back(y); return DONE;
    case 4: if (i >= m.texCoords.size() / 2) return RANGE; m.uv = i; return DONE;
    case 5: case 6: case 7: if (m.mode >= 0) return STATE; m.mode = call - 5; return DONE;
    case 8: case 9:
      if (m.mode < 0) return STATE;
      if (call == 9) { i = m.positions.size() / 3; push(m.positions, x, y, z); }
      if (i >= m.positions.size() / 3) return RANGE;
      if (m.normal < 0 || (m.tex && m.uv < 0)) return STATE;
      m.vertices.push_back(i);
      m.vertices.push_back(m.normal);
      if (m.tex) m.vertices.push_back(m.uv);
      ++m.n;
      return DONE;
    default:
      if (m.mode < 0) return STATE;
      if (m.mode == Mesh::POLYGON) { if (m.n) m.counts.push_back(m.n); }
      else {
        size_t k = m.mode == Mesh::TRIANGLES ? 3 : 4;
        if (m.n % k) return STATE;
        for (size_t j = 0; j < m.n / k; ++j) m.counts.push_back(k);
      }
      m.mode = -1;
      m.n = 0;
      return DONE;
  }
}
static Outcome real(Mesh &m, int call, size_t i, float x, float y, float z, long &ret) {
  ret = -1;
  const float *n = NORMAL[m.normalsNb() % 3];
  try {
    switch (call) {
      case 0: ret = m.position(x, y, z); break;
      case 1: ret = m.normal(n[0], n[1], n[2]); break;
      case 2: m.normal(i); break;
      case 3: ret = m.texCoord(x, y); break;
      case 4: m.texCoord(i); break;
      case 5: m.begin(Mesh::POLYGON); break;
      case 6: m.begin(Mesh::TRIANGLES); break;
      case 7: m.begin(Mesh::QUADS); break;
      case 8: m.vertex(i); break;
      case 9: m.vertex(x, y, z); break;
      default: m.end();
    }
  } catch (const std::out_of_range &) { return RANGE; } catch (const std::runtime_error &) { return STATE; }
  return DONE;
}
template <class T> static void EQV(const char *t, const std::vector<T> &a, const std::vector<T> &b) {
  law_eqi(t, a.size(), b.size());
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) law_eq(t, a[i], b[i]);
}
static void same(const Mesh &m, const Model &s) {
  law_true("texture coordinates", m.withTexCoords() == s.tex);
  size_t k = s.tex ? 3 : 2;
  law_eqi("stride", m.verticesStride(), k);
  EQV("positions", m.positions(), s.positions);
  EQV("normals", m.normals(), s.normals);
  EQV("texture coordinates", m.texCoords(), s.texCoords);
  EQV("vertices", m.vertices(), s.vertices);
  EQV("polygons", m.polygonVerticesCounts(), s.counts);
  law_eqi("number of positions", m.positionsNb(), s.positions.size() / 3);
  law_eqi("number of normals", m.normalsNb(), s.normals.size() / 3);
  law_eqi("number of texture coordinates", m.texCoordsNb(), s.texCoords.size() / 2);
  law_eqi("number of vertices", m.verticesNb(), s.vertices.size() / k);
  law_eqi("number of polygons", m.polygonsNb(), s.counts.size());
  for (size_t i = 0; i < s.positions.size() / 3; ++i) law_true("position", m.positionPtrAt(i) == m.positions().data() + 3 * i);
  for (size_t i = 0; i < s.normals.size() / 3; ++i) law_true("normal", m.normalPtrAt(i) == m.normals().data() + 3 * i);
  for (size_t i = 0; i < s.texCoords.size() / 2; ++i) law_true("texture coordinate", m.texCoordPtrAt(i) == m.texCoords().data() + 2 * i);
  for (size_t i = 0; i < s.vertices.size() / k; ++i) law_true("vertex", m.vertexPtrAt(i) == m.vertices().data() + k * i);
  for (size_t i = 0; i < s.counts.size(); ++i) law_eqi("vertices of a polygon", m.polygonVerticesCountAt(i), s.counts[i]);
}
static Outcome both(Mesh &m, Model &s, int call, size_t i) {
  float x = fresh(), y = fresh(), z = fresh();
  long a, b;
  Outcome o = real(m, call, i, x, y, z, a), e = spec(s, call, i, x, y, z, b);
  law_eqi("outcome", o, e);
  law_eqi("returned index", a, b);
  return e;
}
// a state: numbers of positions, normals and texture coordinates, an earlier polygon, the mode and the vertices since begin
struct Build {
  Mesh m;
  Model s;
  int np, nn, nt, mode, nv;
  Build(bool tex, int np, int nn, int nt, int mode, int nv, bool earlier) : m(tex), np(np), nn(nn), nt(nt), mode(mode), nv(nv) {
    s.tex = tex; s.mode = -1; s.n = 0; s.normal = s.uv = -1;
    for (int i = 0; i < np; ++i) both(m, s, 0, 0);
    for (int i = 0; i < nn; ++i) both(m, s, 1, 0);
    for (int i = 0; i < nt; ++i) both(m, s, 3, 0);
    if (earlier) { both(m, s, 7, 0); for (int i = 0; i < 4; ++i) both(m, s, 8, 0); both(m, s, 10, 0); }
    if (mode >= 0) { both(m, s, 5 + mode, 0); for (int i = 0; i < nv; ++i) both(m, s, 8, i % np); }
  }
};
static void step(Build &b, const char *what) {
  int call = law_pick(what, 11);
  size_t i = 0;
  if (call == 2) i = law_pick("normal", b.s.normals.size() / 3 + 1);
  if (call == 4) i = law_pick("texture coordinate", b.s.texCoords.size() / 2 + 1);
  if (call == 8) i = law_pick("position", b.s.positions.size() / 3 + 1);
  both(b.m, b.s, call, i);
}
static void run(bool earlier, int steps) {
  bool tex = law_pick("with texture coordinates", 2);
  int np = 2 * law_pick("positions", 2), nn = 2 * law_pick("normals", 2), nt = 2 * law_pick("texture coordinates", 2);
  int mode = law_pick("mode", 4) - 1, nv = 0;
  bool ready = np && nn && (!tex || nt);
  if (earlier && !ready) return;
  if (mode >= 0 && ready) {
    const int N[] = {0, 1, 2, mode == 1 ? 3 : 4, mode == 1 ? 6 : 8};
    nv = N[law_pick("vertices", mode == 0 ? 3 : 5)];
  }
  Build b(tex, np, nn, nt, mode, nv, earlier);
  step(b, "call");
  if (steps > 1) step(b, "next call");
  same(b.m, b.s);
}
LAW law_mesh_call() { run(false, 1); }
LAW law_mesh_call_after_polygon() { run(true, 1); }
LAW law_t_mesh_two_calls() { run(false, 2); }
// index getters refuse what is not there
LAW law_mesh_range() {
  int k = law_pick("getter", 4), n = law_pick("elements", 3);
  Mesh m(true);
  m.normal(1, 0, 0); m.texCoord(0, 0);
  for (int i = 0; i < n; ++i) { m.position(1, 2, 3); if (i) { m.normal(0, 1, 0); m.texCoord(0, 1); } }
  law_throws_iff("out of range", true);
  if (k == 0) m.positionPtrAt(m.positionsNb()); else if (k == 1) m.normalPtrAt(m.normalsNb()); else if (k == 2) m.texCoordPtrAt(m.texCoordsNb()); else m.vertexPtrAt(m.verticesNb());
}
