#pragma once
#include "h.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <um2/common/logger.hpp>
#include <um2/gmsh/io.hpp>
#include <um2/gmsh/model.hpp>
#include <um2/mpact/model.hpp>
using namespace h;
using um2::Material;
using um2::String;
namespace G = um2::gmsh;
using DT = G::vectorpair;

static constexpr int W = 6, H = 5, D = 2;
static double const R[3] = {0.2, 0.3, 0.4};   // radii of the rings of a cell
static int const K0 = 1, K1 = 4;

static Material mat(std::string const & n)
{
  Material m;
  m.setName(String(n.c_str()));
  unsigned h = 7;
  for (char c : n) h = h * 31 + static_cast<unsigned char>(c);
  m.setColor(um2::Color(static_cast<int>(h % 200 + 1), static_cast<int>(h / 200 % 200 + 1), 30, 255));
  return m;
}

struct B {
  int dim = 2;
  B()
  {
    um2::logger::level = um2::logger::levels::error;
    um2::logger::exit_on_error = false;
    G::initialize();
    G::option::setNumber("General.Terminal", 0);
    G::option::setNumber("General.NumThreads", 1);
  }
  virtual ~B() { G::finalize(); }
  struct Ent {
    int tag;
    std::vector<std::array<int, 3>> at;
    double mass, want;
    std::set<std::string> gr;
    std::string col;
  };
  std::vector<Ent> look()
  {
    std::vector<Ent> r;
    DT es;
    G::model::getEntities(es, dim);
    std::map<int, std::multiset<std::string>> gr;
    DT gs;
    G::model::getPhysicalGroups(gs, dim);
    for (auto const & g : gs) {
      std::string n;
      G::model::getPhysicalName(dim, g.second, n);
      std::vector<int> tags;
      G::model::getEntitiesForPhysicalGroup(dim, g.second, tags);
      for (int t : tags) gr[t].insert(n);
    }
    double const pi = std::acos(-1.0);
    for (auto const & e : es) {
      Ent x;
      x.tag = e.second;
      x.want = 0;
      double b[6];
      G::model::getBoundingBox(dim, e.second, b[0], b[1], b[2], b[3], b[4], b[5]);
      for (int i = 0; i < W; ++i) {
        if (i + 1 < b[0] - 0.01 || i > b[3] + 0.01) continue;
        for (int j = 0; j < H; ++j) {
          if (j + 1 < b[1] - 0.01 || j > b[4] + 0.01) continue;
          if (dim == 2) {
            for (int k = K0; k <= K1; ++k) {
              double const px = k == 1 ? i + 0.53 : k == K1 ? i + 0.07 : i + 0.5 + (R[k - 2] + R[k - 1]) / 2, py = k == K1 ? j + 0.06 : j + 0.51;
              if (G::model::isInside(2, e.second, {px, py, 0.0}) > 0) {
                x.at.push_back({i, j, k});
                x.want += k == 1 ? pi * R[0] * R[0] : k == K1 ? 1 - pi * R[2] * R[2] : pi * (R[k - 1] * R[k - 1] - R[k - 2] * R[k - 2]);
              }
            }
          } else {
            for (int k = 0; k < D; ++k)
              if (G::model::isInside(3, e.second, {i + 0.53, j + 0.48, k + 0.51}) > 0) { x.at.push_back({i, j, k}); x.want += 1; }
          }
        }
      }
      G::model::occ::getMass(dim, e.second, x.mass);
      for (auto const & g : gr[e.second]) x.gr.insert(gr[e.second].count(g) > 1 ? g + " (repeated)" : g);
      gr.erase(e.second);
      int c[4];
      G::model::getColor(dim, e.second, c[0], c[1], c[2], c[3]);
      char s[64];
      snprintf(s, sizeof s, "%d.%d.%d.%d", c[0], c[1], c[2], c[3]);
      x.col = s;
      r.push_back(x);
    }
    for (auto const & g : gr) if (!g.second.empty()) { Ent x; x.tag = g.first; x.mass = -1; x.want = 1; x.gr.insert("dangling"); r.push_back(x); }
    return r;
  }
  static std::string show(std::vector<Ent> const & v)
  {
    return arr(v, [](Ent const & e) {
      Obj o;
      o.raw("at", arr(e.at, [](auto const & a) { return "[" + std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + "]"; }));
      o.raw("gr", arr(e.gr, [](std::string const & s) { return jstr(s); }));
      o.str("col", e.col).i("ok", std::abs(e.mass - e.want) < 1e-6);
      return o.done();
    });
  }
  std::string order()
  {
    DT gs;
    G::model::getPhysicalGroups(gs, dim);
    return arr(gs, [&](auto const & g) { std::string n; G::model::getPhysicalName(dim, g.second, n); return jstr(n); });
  }
  // entities that contain one of the given atoms
  DT sel(Tok & t)
  {
    int const n = t.i();
    std::set<std::array<int, 3>> s;
    for (int i = 0; i < n; ++i) { int a = t.i(), b = t.i(), c = t.i(); s.insert({a, b, c}); }
    DT r;
    for (auto const & e : look()) if (std::any_of(e.at.begin(), e.at.end(), [&](auto const & a) { return s.count(a) > 0; })) r.push_back({dim, e.tag});
    std::sort(r.begin(), r.end());
    return r;
  }
  static std::vector<Material> mats(Tok & t)
  {
    std::vector<Material> r;
    int const n = t.i();
    for (int i = 0; i < n; ++i) r.push_back(mat(t.s()));
    return r;
  }
  static um2::Vector<um2::Vector<Int>> rows(Tok & t)
  {
    um2::Vector<um2::Vector<Int>> r;
    int const n = t.i();
    for (int i = 0; i < n; ++i) { um2::Vector<Int> q; for (int x : t.vi()) q.push_back(x); r.push_back(q); }
    return r;
  }
  // The geometry kernel gives up on some shapes.  Nothing after that says anything about groups.
  std::string lost;
  um2::mpact::Model model;
  std::string step(Tok & t)
  {
    if (lost.empty()) {
      try {
        return work(t);
      } catch (std::runtime_error const & x) {
        if (std::string(x.what()).find("fix wire") == std::string::npos) throw;
        lost = x.what();
      }
    }
    Obj o;
    o.str("kernel", lost);
    return o.done();
  }
  virtual std::string work(Tok & t)
  {
    std::string const k = t.w();
    cap.out(); cap.err();
    Obj o;
    namespace occ = G::model::occ;
    auto add = [&](int tag, std::string const & g) {
      if (!g.empty()) G::model::addToPhysicalGroup(dim, {tag}, -1, g);
    };
    if (k == "dim") { dim = t.i(); return "{}"; }
    if (k == "rect") {
      int a[6];
      for (int & x : a) x = t.i();
      std::string const g = t.s();
      int const tag = dim == 2 ? occ::addRectangle(a[0], a[1], 0, a[3], a[4]) : occ::addBox(a[0], a[1], a[2], a[3], a[4], a[5]);
      occ::synchronize();
      add(tag, g);
    } else if (k == "pin") {
      int const x = t.i(), y = t.i();
      um2::Vector<Float> r;
      for (int i : t.vi()) r.push_back(R[i - 1]);
      um2::Vector<Material> m;
      for (auto const & q : mats(t)) m.push_back(q);
      auto const tags = occ::addCylindricalPin2D({x + 0.5, y + 0.5}, r, m);
      o.i("n", tags.size());
    } else if (k == "pins") {
      int const x = t.i(), y = t.i();
      auto const ids = rows(t);
      um2::Vector<um2::Vector<Float>> r;
      um2::Vector<um2::Vector<Material>> m;
      um2::Vector<um2::Vec2F> ext;
      int const n = t.i();
      for (int i = 0; i < n; ++i) {
        um2::Vector<Float> rr;
        for (int j : t.vi()) rr.push_back(R[j - 1]);
        um2::Vector<Material> mm;
        for (auto const & q : mats(t)) mm.push_back(q);
        r.push_back(rr); m.push_back(mm); ext.push_back({1, 1});
      }
      auto const tags = occ::addCylindricalPinLattice2D(ids, ext, r, m, {static_cast<Float>(x), static_cast<Float>(y)});
      o.i("n", tags.size());
    } else if (k == "grp") {
      std::string const g = t.s();
      std::vector<int> tags;
      for (auto const & e : sel(t)) tags.push_back(e.second);
      if (!tags.empty()) G::model::addToPhysicalGroup(dim, tags, -1, g);
    } else if (k == "frag" || k == "isect" || k == "cut") {
      DT a = sel(t), b0 = sel(t), b, out;
      for (auto const & e : b0) if (!std::binary_search(a.begin(), a.end(), e)) b.push_back(e);
      auto const m = mats(t);
      std::vector<DT> map;
      if (k == "frag") occ::groupPreservingFragment(a, b, out, map, m);
      else if (k == "isect") occ::groupPreservingIntersect(a, b, out, map, m);
      else occ::groupPreservingCut(a, b, out, map);
    } else if (k == "io") {
      o.raw("pre", show(look()));
      G::write("geo.brep", true);
      G::clear();
      G::open("geo.brep", true);
    } else if (k == "over") {
      std::string const fill = t.s();
      um2::mpact::Model & m = model;
      m.clear();
      int const nc = t.i();
      for (int i = 0; i < nc; ++i) { int w = t.i(), hh = t.i(); m.addCoarseCell({static_cast<Float>(w), static_cast<Float>(hh)}); }
      int const nr = t.i();
      for (int i = 0; i < nr; ++i) m.addRTM(rows(t));
      int const nl = t.i();
      for (int i = 0; i < nl; ++i) { m.addLattice(rows(t)); if (dim == 2) m.addAssembly({i}); else m.addAssembly({i}, {0, 2}); }
      m.addCore(rows(t));
      occ::overlayCoarseGrid(m, mat(fill));
    } else if (k == "mats") {
      std::vector<Material> m;
      G::model::getMaterials(m);
      o.raw("m", arr(m, [](Material const & q) { return jstr(std::string(q.getName().data())); }));
    }
    o.raw("e", show(look())).raw("o", order());
    std::string const e = cap.err() + cap.out();
    o.i("err", countSub(e, "ERROR"));
    return o.done();
  }
};
