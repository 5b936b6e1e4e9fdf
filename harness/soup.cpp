#include "h.hpp"
#include <um2/common/logger.hpp>
#include <um2/mesh/polytope_soup.hpp>
using namespace h;
using um2::PolytopeSoup;
using um2::VTKElemType;

static VTKElemType
ty(int t)
{
  switch (t) {
  case 1: return VTKElemType::Vertex;
  case 2: return VTKElemType::Line;
  case 3: return VTKElemType::Triangle;
  case 4: return VTKElemType::Quad;
  case 13: return VTKElemType::QuadraticEdge;
  case 6: return VTKElemType::QuadraticTriangle;
  default: return VTKElemType::QuadraticQuad;
  }
}
static int
un(VTKElemType t)
{
  for (int k : {1, 2, 3, 4, 13, 6, 8})
    if (ty(k) == t) return k;
  return -1;
}

struct B {
  static constexpr int N = 3;
  PolytopeSoup so[N];
  um2::Vector<Int> bi;
  um2::Vector<Float> bd;
  um2::Vector<Int> conn;
  um2::String bn;

  B()
  {
    um2::logger::exit_on_error = false;
    um2::logger::level = um2::logger::levels::error;
  }
  static std::string
  soup(PolytopeSoup const & s)
  {
    Obj o;
    o.raw("v", arrn(s.numVertices(), [&](long long i) {
            auto const & p = s.getVertex(static_cast<Int>(i));
            return "[" + sfx(p[0], 16) + "," + sfx(p[1], 16) + "," + sfx(p[2], 16) + "]";
          }));
    o.raw("e", arrn(s.numElements(), [&](long long i) {
            VTKElemType t = VTKElemType::Invalid;
            um2::Vector<Int> c;
            s.getElement(static_cast<Int>(i), t, c);
            return Obj().i("t", un(t)).raw("c", ints(c)).done();
          }));
    o.raw("s", arrn(s.numElsets(), [&](long long i) {
            um2::String n;
            um2::Vector<Int> ids;
            um2::Vector<Float> d;
            s.getElset(static_cast<Int>(i), n, ids, d);
            return Obj().str("n", n.data()).raw("i", ints(ids)).raw("d", arr(d, [](Float x) { return sfx(x, 4); })).done();
          }));
    return o.done();
  }
  std::string
  step(Tok & t)
  {
    std::string const k = t.w();
    long ret = 0;
    Obj o;
    if (k == "vert") {
      auto & s = so[t.i()];
      double const x = t.d() / 16, y = t.d() / 16, z = t.d() / 16;
      ret = t.i() ? s.addVertex(x, y, z) : s.addVertex(um2::Point3F(x, y, z));
    } else if (k == "elem") {
      auto & s = so[t.i()];
      int const ety = t.i();
      um2::Vector<Int> c;
      for (int x : t.vi()) c.push_back(x);
      ret = s.addElement(ty(ety), c);
    } else if (k == "elset") {
      auto & s = so[t.i()];
      um2::String const n(t.s().c_str());
      um2::Vector<Int> ids;
      for (int x : t.vi()) ids.push_back(x);
      um2::Vector<Float> d;
      for (double x : t.vd()) d.push_back(x / 4);
      ret = d.empty() ? s.addElset(n, ids) : s.addElset(n, ids, d);
    } else if (k == "trans") {
      auto & s = so[t.i()];
      double const x = t.d() / 16, y = t.d() / 16, z = t.d() / 16;
      s.translate(um2::Point3F(x, y, z));
    } else if (k == "sort") {
      so[t.i()].sortElsets();
    } else if (k == "app") {
      auto & s = so[t.i()];
      auto & r = (s += so[t.i()]);
      ret = &r == &s ? 0 : -1;
    } else if (k == "sub") {
      auto const & s = so[t.i()];
      um2::String const n(t.s().c_str());
      PolytopeSoup f;
      s.getSubset(n, f);
      so[t.i()] = f;
    } else if (k == "copy") {
      int const a = t.i();
      so[t.i()] = so[a];
    } else if (k == "clear") {
      so[t.i()] = PolytopeSoup();
    } else if (k == "cmp") {
      auto const & s = so[t.i()];
      ret = s.compare(so[t.i()]) != 0;
    } else if (k == "get") { // by name, into re-used buffers
      auto const & s = so[t.i()];
      um2::String const n(t.s().c_str());
      s.getElset(n, bi, bd);
      o.raw("gi", ints(bi)).raw("gd", arr(bd, [](Float x) { return sfx(x, 4); }));
    } else if (k == "geti") { // by position, into re-used buffers
      auto const & s = so[t.i()];
      s.getElset(t.i(), bn, bi, bd);
      o.str("gn", bn.data()).raw("gi", ints(bi)).raw("gd", arr(bd, [](Float x) { return sfx(x, 4); }));
    } else if (k == "gete") {
      auto const & s = so[t.i()];
      VTKElemType et = VTKElemType::Invalid;
      s.getElement(t.i(), et, conn);
      o.i("gt", un(et)).raw("gc", ints(conn));
    } else if (k == "types") {
      o.raw("ty", arr(so[t.i()].getElemTypes(), [](VTKElemType x) { return std::to_string(un(x)); }));
    } else if (k == "resv") {
      auto & s = so[t.i()];
      int const n = t.i();
      s.reserveMoreVertices(n);
      s.reserveMoreElements(VTKElemType::Quad, n);
    } else if (k == "wr") {
      auto const & s = so[t.i()];
      std::string const n = t.s();
      s.write(um2::String(n.c_str()));
      int const b = t.i();
      if (t.i()) {
        so[b] = PolytopeSoup(um2::String(n.c_str()));
      } else {
        PolytopeSoup f;
        f.read(um2::String(n.c_str()));
        so[b] = f;
      }
    } else if (k == "rd") {
      std::string const n = t.s(), text = t.s();
      std::ofstream(n) << text;
      PolytopeSoup f;
      f.read(um2::String(n.c_str()));
      so[t.i()] = f;
    } else {
      fprintf(stderr, "harness: unknown op %s\n", k.c_str());
      _exit(99);
    }
    o.i("ret", ret);
    o.raw("s", arrn(N, [&](long long i) { return soup(so[i]); }));
    return o.done();
  }
};

int
main(int argc, char ** argv)
{
  return drive<B>(argc, argv);
}
