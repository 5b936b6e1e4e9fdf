#include "h.hpp"
#include <um2/common/logger.hpp>
#include <um2/mesh/polytope_soup.hpp>
#include <um2/mpact/powers.hpp>
#include <um2/mpact/source.hpp>
using namespace h;
using um2::PolytopeSoup;
using um2::String;
using um2::VTKElemType;

struct B {
  B() { um2::logger::level = um2::logger::levels::error; um2::logger::exit_on_error = false; }
  static VTKElemType ty(int t) { return t == 3 ? VTKElemType::Triangle : t == 4 ? VTKElemType::Quad : t == 6 ? VTKElemType::QuadraticTriangle : VTKElemType::QuadraticQuad; }
  // type, number of points, points with a perturbation in 1e-9, number of faces, faces
  static Int mesh(Tok & t, PolytopeSoup & s)
  {
    int const n = t.i();
    int const nv = t.i();
    for (int i = 0; i < nv; ++i) { double x = t.d() / 16, y = t.d() / 16, e = t.d() * 1e-9; s.addVertex(x + e, y - e, 0); }
    int const nf = t.i();
    for (int i = 0; i < nf; ++i) {
      um2::Vector<Int> c;
      for (int j = 0; j < n; ++j) c.push_back(t.i());
      s.addElement(ty(n), c);
    }
    return nf;
  }
  static void data(Tok & t, PolytopeSoup & s, Int n, std::string const & name, double unit = 1)
  {
    um2::Vector<Int> ids;
    um2::Vector<Float> d;
    for (Int i = 0; i < n; ++i) { ids.push_back(i); d.push_back(t.d() * unit); }
    s.addElset(String(name.c_str()), ids, d);
  }
  static std::string powers(char const * f, double unit)
  {
    auto const r = um2::mpact::getPowers(String(f));
    return arr(r, [unit](auto const & p) { return "[" + sfx(p.first / unit, 1536) + "," + sfx(p.second[0], 16384) + "," + sfx(p.second[1], 16384) + "]"; });
  }
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    cap.out(); cap.err();
    Obj o;
    PolytopeSoup s;
    if (k == "pow" || k == "bad") {
      double const unit = std::ldexp(1, t.i());
      Int const n = mesh(t, s);
      if (k == "bad") { s.addElement(VTKElemType::Triangle, {0, 1, 2}); data(t, s, n + 1, "power"); }
      else data(t, s, n, "power", unit);
      s.write(String("sol.xdmf"));
      o.raw("r", powers("sol.xdmf", unit));
    } else if (k == "src") {
      Int const n = mesh(t, s);
      data(t, s, n, "material");
      int const G = t.i(), nm = t.i();
      um2::Vector<um2::Material> ms;
      for (int i = 0; i < nm; ++i) {
        um2::Material m;
        um2::XSec x(G);
        for (int g = 0; g < G; ++g) x.s()[g] = t.d() / 8;
        for (int g = 0; g < G; ++g) x.nuf()[g] = t.d() / 8;
        for (int g = 0; g < G; ++g) x.a()[g] = 77 + g;
        m.xsec() = x;
        ms.push_back(m);
      }
      for (int g = 0; g < G; ++g) { char b[16]; snprintf(b, sizeof b, "flux_%03d", g + 1); data(t, s, n, b); }
      auto const r = um2::mpact::getSource(s, ms);
      o.raw("r", arr(r, [](auto const & p) { return "[" + sfx(p[0], 8) + "," + sfx(p[1], 8) + "]"; }));
    }
    std::string const e = cap.err() + cap.out();
    o.i("err", countSub(e, "ERROR"));
    return o.done();
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
