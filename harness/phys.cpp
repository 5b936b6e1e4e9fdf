#include "h.hpp"
#include <um2/common/logger.hpp>
#include <um2/physics/cross_section_library.hpp>
#include <um2/physics/material.hpp>
using namespace h;
using um2::Material;
using um2::Nuclide;
using um2::String;
using um2::Vector;
using um2::XSec;
using um2::XSLibrary;

static String S(std::string const & s) { return String(s.c_str()); }
static void rd(Tok & t, Vector<Float> & v) { for (Int g = 0; g < v.size(); ++g) v[g] = t.d() / 8; }
static XSec xsIn(Tok & t, int G, bool withS)
{
  XSec x(G);
  rd(t, x.a()); rd(t, x.f()); rd(t, x.nuf()); rd(t, x.tr());
  if (withS) rd(t, x.s());
  for (int i = 0; i < G; ++i) for (int j = 0; j < G; ++j) { double v = t.d() / 8; x.ss()(i, j) = v; if (!withS) x.s()[j] += v; }
  for (int g = 0; g < G; ++g) if (x.f()[g] > 0) x.isFissile() = true;
  return x;
}
static std::string xsOut(XSec const & x, double sc)
{
  Obj o;
  auto v = [&](Vector<Float> const & y) { return arr(y, [&](double z) { return sfx(z, sc); }); };
  int const G = x.numGroups();
  o.i("g", G).raw("a", v(x.a())).raw("f", v(x.f())).raw("nuf", v(x.nuf())).raw("tr", v(x.tr())).raw("s", v(x.s()));
  o.raw("ss", arrn(x.ss().rows(), [&](long i) { return arrn(x.ss().cols(), [&](long j) { return sfx(x.ss()(static_cast<Int>(i), static_cast<Int>(j)), sc); }); }));
  o.raw("t", arrn(G, [&](long g) { return sfx(x.t(static_cast<Int>(g)), sc); }));
  o.i("fis", x.isFissile()).i("macro", x.isMacro());
  return o.done();
}

struct B {
  std::unique_ptr<XSLibrary> lib = std::make_unique<XSLibrary>();
  Material m;
  B() { um2::logger::level = um2::logger::levels::error; um2::logger::exit_on_error = false; }
  std::string comp()
  {
    Obj o;
    o.raw("z", ints(m.zaids())).raw("nd", arr(m.numDensities(), [](double d) { return sfx(d, 1e7); })).raw("nd9", arr(m.numDensities(), [](double d) { return sfx(d, 1e9); })).i("n", m.numNuclides());
    return o.done();
  }
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    cap.out(); cap.err();
    Obj o;
    if (k == "lib") {
      lib = std::make_unique<XSLibrary>();
      int const G = t.i();
      for (int g = 0; g < G; ++g) { lib->groupBounds().push_back(G - g); lib->chi().push_back(1.0 / G); }
    } else if (k == "nuc") {
      Nuclide n; n.zaid() = t.i(); n.mass() = n.zaid() % 1000;
      int const G = lib->numGroups();
      for (int q : t.vi()) { n.temperatures().push_back(q * q / 16.0); n.xs().push_back(xsIn(t, G, false)); if (n.xs().back().isFissile()) n.isFissile() = true; }
      lib->nuclides().push_back(n);
    } else if (k == "mat") { m = Material(); m.setName("m"); m.setDensity(t.d() / 8); int q = t.i(); m.setTemperature(q * q / 16.0); return comp(); }
    else if (k == "temp") { int q = t.i(); m.setTemperature(q * q / 16.0); }
    else if (k == "add") { int z = t.i(); m.addNuclide(z, t.d() / 8); return comp(); }
    else if (k == "addsym") { auto s = t.s(); m.addNuclide(S(s), t.d() / 8); return comp(); }
    else if (k == "wt") { int z = t.i(); m.addNuclideWt(z, t.d() / 1000); return comp(); }
    else if (k == "wtsym") { auto s = t.s(); m.addNuclideWt(S(s), t.d() / 1000); return comp(); }
    else if (k == "at") { int n = t.i(); Vector<String> s; Vector<Float> p; for (int i = 0; i < n; ++i) { s.push_back(S(t.s())); p.push_back(t.d() / 1000); } m.addNuclidesAtomPercent(s, p); return comp(); }
    else if (k == "uo2") { double e = t.d() / 10000, g = t.d() / 1000; m.setUO2(e, g); return comp(); }
    else if (k == "zaid") return "{\"z\":" + std::to_string(um2::toZAID(S(t.s()))) + "}";
    else if (k == "pop") { m.populateXSec(*lib); o.raw("x", xsOut(m.xsec(), 8192)).i("has", m.hasXSec()); }
    else if (k == "col") o.raw("x", xsOut(m.xsec().collapseTo1GroupAvg(), 8192));
    else if (k == "interp") { int z = t.i(); int q = t.i(); o.raw("x", xsOut(lib->getNuclide(z).interpXS(q * q / 16.0), 8192)); }
    else if (k == "xcol") { int G = t.i(); XSec x = xsIn(t, G, false); o.raw("x", xsOut(x.collapseTo1GroupAvg(), 8192)); }
    else if (k == "xval") {
      int mac = t.i(), fis = t.i(), G = t.i(); XSec x = xsIn(t, G, true); x.isMacro() = mac != 0; x.isFissile() = fis != 0;
      um2::logger::level = um2::logger::levels::warn; um2::logger::colorized = false;
      x.validate();
      um2::logger::level = um2::logger::levels::error;
      std::string e = cap.err() + cap.out();
      o.i("w", countSub(e, "WARN")).i("e", countSub(e, "ERROR"));
    } else if (k == "c5g7") {
      auto ms = um2::getC5G7Materials();
      auto f5 = [](double d) { char b[32]; snprintf(b, sizeof b, "%.5e", d); return std::string("\"") + b + "\""; };
      o.raw("m", arr(ms, [&](Material const & q) {
        Obj x; XSec const & s = q.xsec();
        auto v = [&](Vector<Float> const & y) { return arr(y, f5); };
        x.str("n", std::string(q.getName().data())).raw("a", v(s.a())).raw("f", v(s.f())).raw("tr", v(s.tr()));
        x.raw("nu", arrn(s.numGroups(), [&](long g) { auto i = static_cast<Int>(g); return f5(s.f()[i] > 0 ? s.nuf()[i] / s.f()[i] : s.nuf()[i]); }));
        x.raw("ss", arrn(s.numGroups(), [&](long i) { return arrn(s.numGroups(), [&](long j) { return f5(s.ss()(static_cast<Int>(j), static_cast<Int>(i))); }); }));
        x.raw("ds", arrn(s.numGroups(), [&](long j) { double c = 0; for (Int i = 0; i < s.numGroups(); ++i) c += s.ss()(i, static_cast<Int>(j)); return sfx(s.s()[static_cast<Int>(j)] - c, 1e9); }));
        x.i("fis", s.isFissile()).i("macro", s.isMacro());
        return x.done(); }));
    } else if (k == "file") {
      std::ofstream("lib.fmt") << t.s();
      lib = std::make_unique<XSLibrary>(String("lib.fmt"));
      o.raw("gb", arr(lib->groupBounds(), [](double d) { return sfx(d, 8); })).raw("chi", arr(lib->chi(), [](double d) { return sfx(d, 1024); })).i("g", lib->numGroups());
      o.raw("nuc", arr(lib->nuclides(), [&](Nuclide const & n) {
        Obj x; x.i("z", n.zaid()).raw("mass", sfx(n.mass(), 1e4)).raw("tp", arr(n.temperatures(), [](double d) { return sfx(d, 4); })).i("fis", n.isFissile());
        x.raw("xs", arr(n.xs(), [](XSec const & q) { return xsOut(q, 8); }));
        return x.done(); }));
    } else if (k == "get") { int z = t.i(); Nuclide const & n = lib->getNuclide(z); o.i("z", n.zaid()).raw("mass", sfx(n.mass(), 1e4)).i("nt", n.temperatures().size()); }
    std::string e = cap.err() + cap.out();
    o.i("err", countSub(e, "ERROR"));
    return o.done();
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
