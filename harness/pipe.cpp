// From geometry to meshes: sizes, elements, sets and the cells of a model.
#include "kernel.hpp"
#include <gmsh.h>
#include <um2/gmsh/mesh.hpp>
#include <um2/mesh/polytope_soup.hpp>
using um2::MeshType;

// Cross sections in eighths per group; s <= t.
static Material full(std::string const & n, std::vector<int> const & t, std::vector<int> const & s, bool fissile)
{
  Material m = mat(n);
  if (t.empty()) return m;
  um2::XSec x(static_cast<Int>(t.size()));
  x.isMacro() = true;
  for (size_t g = 0; g < t.size(); ++g) {
    Int const i = static_cast<Int>(g);
    x.a()[i] = (t[g] - s[g]) / 8.0;
    x.s()[i] = s[g] / 8.0;
    x.ss()(i, i) = s[g] / 8.0;
    if (fissile) { x.f()[i] = x.a()[i] / 2; x.nuf()[i] = x.a()[i]; }
  }
  x.isFissile() = fissile;
  m.xsec() = x;
  return m;
}

struct P : B {
  static std::array<int, 3> atom(double x, double y)
  {
    int const i = static_cast<int>(std::floor(x)), j = static_cast<int>(std::floor(y));
    double const d = std::hypot(x - i - 0.5, y - j - 0.5);
    return {i, j, d < R[0] ? 1 : d < R[1] ? 2 : d < R[2] ? 3 : 4};
  }
  // Area of a triangle with three or six nodes.
  template <class Pt> static double area(int n, Pt const & p)
  {
    double a = 0;
    for (int k = 0; k < 3; ++k) {
      auto const u = p(k), v = p((k + 1) % 3);
      a += (u[0] * v[1] - v[0] * u[1]) / 2;
      if (n == 6) { auto const m = p(k + 3); a += ((m[0] - u[0]) * (v[1] - u[1]) - (m[1] - u[1]) * (v[0] - u[0])) * 2 / 3; }
    }
    return std::abs(a);
  }
  static std::string at3(std::array<int, 3> const & a) { return "[" + std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + "]"; }
  static std::string strs(std::set<std::string> const & s) { return arr(s, [](std::string const & x) { return jstr(x); }); }
  void elements(Obj & o)
  {
    um2::PolytopeSoup const s("m.inp");
    std::set<int> kinds;
    std::vector<std::set<std::string>> in(static_cast<size_t>(s.numElements()));
    std::set<std::string> names;
    for (Int i = 0; i < s.numElsets(); ++i) {
      String n; um2::Vector<Int> ids; um2::Vector<Float> d;
      s.getElset(i, n, ids, d);
      std::string const nm(n.data());
      names.insert(nm);
      for (Int e : ids) in[static_cast<size_t>(e)].insert(nm);
    }
    struct Reg { double a = 0; long n = 0; std::set<std::array<int, 3>> at; };
    std::map<std::set<std::string>, Reg> reg;
    std::map<std::pair<Int, Int>, int> edges;
    for (Int i = 0; i < s.numElements(); ++i) {
      um2::VTKElemType ty; um2::Vector<Int> c;
      s.getElement(i, ty, c);
      kinds.insert(c.size());
      if (c.size() != 3 && c.size() != 6) continue;
      auto pt = [&](int k) { auto const v = s.getVertex(c[k]); return std::array<double, 2>{v[0], v[1]}; };
      auto & r = reg[in[static_cast<size_t>(i)]];
      r.a += area(c.size(), pt);
      ++r.n;
      r.at.insert(atom((pt(0)[0] + pt(1)[0] + pt(2)[0]) / 3, (pt(0)[1] + pt(1)[1] + pt(2)[1]) / 3));
      for (int k = 0; k < 3; ++k) { Int a = c[k], b = c[(k + 1) % 3]; ++edges[{std::min(a, b), std::max(a, b)}]; }
    }
    int over = 0, open = 0;
    DT es;
    G::model::getEntities(es, 2);
    for (auto const & [e, n] : edges) {
      if (n > 2) ++over;
      if (n > 1) continue;
      // an edge used once has nothing on one side
      auto const a = s.getVertex(e.first), b = s.getVertex(e.second);
      double const mx = (a[0] + b[0]) / 2, my = (a[1] + b[1]) / 2, nx = (b[1] - a[1]) * 0.2, ny = (a[0] - b[0]) * 0.2;
      int sides = 0;
      for (int d : {-1, 1})
        for (auto const & q : es) if (G::model::isInside(2, q.second, {mx + d * nx, my + d * ny, 0.0}) > 0) { ++sides; break; }
      if (sides > 1) ++open;
    }
    o.raw("kinds", arr(kinds, [](int k) { return std::to_string(k); })).raw("names", strs(names));
    o.raw("reg", arr(reg, [&](auto const & q) {
      Obj x;
      x.raw("gr", strs(q.first)).raw("a", sfx(q.second.a, 10000)).i("n", q.second.n).raw("at", arr(q.second.at, at3));
      return x.done(); }));
    o.i("over", over).i("open", open);
  }
  // straight curves: place, number of pieces and the groups of the faces beside
  void curves(Obj & o)
  {
    DT cs;
    G::model::getEntities(cs, 1);
    std::map<int, std::set<std::string>> gr;
    DT gs;
    G::model::getPhysicalGroups(gs, 2);
    for (auto const & g : gs) {
      std::string n; std::vector<int> tags;
      G::model::getPhysicalName(2, g.second, n);
      G::model::getEntitiesForPhysicalGroup(2, g.second, tags);
      for (int t : tags) gr[t].insert(n);
    }
    std::string r;
    for (auto const & c : cs) {
      std::string ty;
      ::gmsh::model::getType(1, c.second, ty);
      if (ty != "Line") continue;
      double b[6];
      G::model::getBoundingBox(1, c.second, b[0], b[1], b[2], b[3], b[4], b[5]);
      std::vector<int> up, down, et;
      G::model::getAdjacencies(1, c.second, up, down);
      std::vector<std::vector<std::size_t>> tags, nodes;
      ::gmsh::model::mesh::getElements(et, tags, nodes, 1, c.second);
      Obj x;
      x.raw("p", "[" + sfx(b[0], 1) + "," + sfx(b[1], 1) + "," + sfx(b[3], 1) + "," + sfx(b[4], 1) + "]").i("n", tags.empty() ? 0 : static_cast<long>(tags[0].size()));
      x.raw("by", arr(up, [&](int t) { return strs(gr[t]); }));
      r += (r.empty() ? "" : ",") + x.done();
    }
    o.raw("cur", "[" + r + "]");
  }
  std::string work(Tok & t) override
  {
    namespace GM = G::model::mesh;
    auto const save = t;
    std::string const k = t.w();
    Obj o;
    if (k == "new") { G::clear(); model.clear(); return "{}"; }
    if (k == "size") { cap.out(); cap.err(); GM::setGlobalMeshSize(t.i() / 1000.0); o.i("err", countSub(cap.err() + cap.out(), "ERROR")); return o.done(); }
    if (k == "kn") {
      um2::Vector<Material> ms;
      int const n = t.i();
      for (int i = 0; i < n; ++i) { std::string const nm = t.s(); auto const tot = t.vi(), sc = t.vi(); int const f = t.i(); ms.push_back(full(nm, tot, sc, f != 0)); }
      double v[5];
      for (double & x : v) x = t.i() / 8.0;
      cap.out(); cap.err();
      o.i("ret", GM::setMeshFieldFromKnudsenNumber(2, ms, v[0], v[1], v[2], v[3], v[4]));
      o.i("err", countSub(cap.err() + cap.out(), "ERROR"));
      return o.done();
    }
    if (k == "mesh") {
      int const ty = t.i();
      GM::generateMesh(ty == 3 ? MeshType::Tri : MeshType::QuadraticTri);
      G::write("m.inp");
      elements(o);
      curves(o);
      return o.done();
    }
    if (k == "imp") {
      for (auto const & m : mats(t)) model.addMaterial(m);
      cap.out(); cap.err();
      model.importCoarseCellMeshes("m.inp");
      o.i("err", countSub(cap.err() + cap.out(), "ERROR"));
      o.raw("mats", arr(model.materials(), [](Material const & q) { return jstr(std::string(q.getName().data())); }));
      o.raw("cells", arr(model.coarseCells(), [&](auto const & c) {
        int const ty = c.mesh_type == MeshType::Tri ? 3 : c.mesh_type == MeshType::QuadraticTri ? 6 : 0;
        std::vector<double> a(static_cast<size_t>(model.materials().size()), 0);
        auto add = [&](auto const & mesh) {
          for (Int f = 0; f < mesh.numFaces(); ++f) {
            auto const fv = mesh.faceVertexConn()[f];
            a[static_cast<size_t>(c.material_ids[f])] += area(ty, [&](int q) { auto const p = mesh.getVertex(fv[q]); return std::array<double, 2>{p[0], p[1]}; });
          } };
        if (ty == 3) add(model.triMeshes()[c.mesh_id]);
        if (ty == 6) add(model.tri6Meshes()[c.mesh_id]);
        Obj x; x.i("t", ty).raw("a", arr(a, [](double v) { return sfx(v, 10000); })); return x.done(); }));
      return o.done();
    }
    t = save;
    return B::work(t);
  }
};
int main(int c, char ** v) { return drive<P>(c, v); }
