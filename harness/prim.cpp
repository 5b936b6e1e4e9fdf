// Points, boxes, segments and planar polygons.
#include "h.hpp"
#include <um2.hpp>
#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <variant>
using namespace h;
using namespace um2;
static double const U = 0.125;      // integer coordinates are eighths
template <int D> using P = Point<D, double>;
template <int D> static P<D> pt(Tok & t) { P<D> p; for (int i = 0; i < D; ++i) p[i] = t.i() * U; return p; }
static std::string X(double d, double s = 1) { return sfx(d / U, s); }
template <int D> static std::string pos(P<D> const & p, double s = 1) { return arrn(D, [&](long i) { return X(p[static_cast<Int>(i)], s); }); }
template <int D> static std::string box(AxisAlignedBox<D, double> const & b, double s) { return "[" + pos<D>(b.minima(), s) + "," + pos<D>(b.maxima(), s) + "]"; }

template <class Pl> static std::string poly(Pl const & p, std::string const & k, Tok & t)
{
  Int constexpr n = Pl::N, m = n > 4 ? n / 2 : n;
  Obj o;
  o.raw("v", arrn(n, [&](long i) { return pos<2>(p[static_cast<Int>(i)]); })).i("ccw", p.isCCW());
  if constexpr (n == 4) o.i("cvx", p.isConvex()).i("acvx", p.isApproxConvex());
  if (k == "pq") {
    int const i = t.i(), j = t.i();
    o.raw("e", arrn(m, [&](long q) { auto const e = p.getEdge(static_cast<Int>(q)); return arrn(n > 4 ? 3 : 2, [&](long z) { return pos<2>(e[static_cast<Int>(z)]); }); }));
    o.raw("f", pos<2>(p(i / 4.0, j / 4.0), 32));
    auto const jac = p.jacobian(i / 4.0, j / 4.0);
    o.raw("j", "[" + pos<2>(P<2>(jac.col(0)), 32) + "," + pos<2>(P<2>(jac.col(1)), 32) + "]");
    o.raw("bb", box<2>(p.boundingBox(), 1000));
  }
  if (k == "pm") {
    o.raw("a", sfx(p.area() / (U * U), 6)).raw("c", pos<2>(p.centroid(), 1000)).raw("p", X(p.perimeter(), 1000)).raw("mcl", X(p.meanChordLength(), 1000));
  }
  if (k == "pc") {
    int const q = t.i();
    std::vector<int> r; for (int i = 0; i < q; ++i) r.push_back(p.contains(pt<2>(t)));
    o.raw("in", ints(r));
  }
  if (k == "pr") {
    auto const a = pt<2>(t); double const dx = t.i(), dy = t.i(), l = t.i();
    double b[40]; for (auto & x : b) x = -77;
    Int const q = p.intersect(Ray2<double>(a, P<2>(dx / l, dy / l)), b);
    o.raw("r", arrn(q, [&](long i) { return X(b[i], 1000); })).i("guard", b[q] == -77 || q > 16);
  }
  if (k == "ps") { if constexpr (n > 4) o.i("self", p.hasSelfIntersection()); else o.i("self", 0); }
  return o.done();
}
template <class S> static std::string seg(S const & s, std::string const & k, Tok & t)
{
  Int constexpr n = S::N;
  Obj o;
  if (k == "sq") {
    int const i = t.i();
    o.raw("f", pos<2>(s(i / 4.0), 16)).raw("j", pos<2>(P<2>(s.jacobian(i / 4.0)), 16)).raw("len", X(s.length(), 1000)).raw("bb", box<2>(s.boundingBox(), 1000));
    auto const m = s.getRotation(); P<2> const q = m * P<2>(s[1] - s[0]);
    P<2> const w = m * P<2>(s(0.25) - s[0]);
    o.raw("rot", pos<2>(q, 1000)).raw("rot2", pos<2>(w, 1000));
    if constexpr (n == 3) {
      auto const c = s.getPolyCoeffs();
      o.raw("co", arrn(3, [&](long z) { return pos<2>(P<2>(c[static_cast<Int>(z)])); }));
      o.i("left", s.curvesLeft()).i("straight", isStraight(s)).raw("ea", sfx(enclosedArea(s) / (U * U), 3));
      o.raw("ec", pos<2>(enclosedCentroid(s), 10));
    }
  }
  if (k == "sp") {
    auto const p = pt<2>(t);
    o.raw("r", sfx(s.pointClosestTo(p), 4096)).raw("d2", sfx(s.squaredDistanceTo(p) / (U * U), 1000)).raw("d", X(s.distanceTo(p), 1000)).i("left", s.isLeft(p));
  }
  if (k == "sr") {
    auto const a = pt<2>(t); double const dx = t.i(), dy = t.i(), l = t.i();
    double b[8]; for (auto & x : b) x = -77;
    Int const q = s.intersect(Ray2<double>(a, P<2>(dx / l, dy / l)), b);
    o.raw("r", arrn(q, [&](long i) { return X(b[i], 1000); }));
  }
  if (k == "sx") {
    if constexpr (n == 3) {
      S z; for (Int i = 0; i < 3; ++i) z[i] = pt<2>(t);
      P<2> b[64];
      Int const q = s.intersect(z, b);
      o.i("n", q).i("any", s.intersects(z)).raw("x", arrn(q, [&](long i) { return pos<2>(b[i], 100); }));
    }
  }
  return o.done();
}
template <int D> static std::string boxop(AxisAlignedBox<D, double> & b, std::string const & k, Tok & t)
{
  Obj o;
  using Bx = AxisAlignedBox<D, double>;
  auto rd = [&]() { auto const a = pt<D>(t); auto const c = pt<D>(t); return Bx(a, c); };
  if (k == "bempty") b = Bx::empty();
  else if (k == "bset") b = rd();
  else if (k == "bpts") { std::vector<P<D>> v(static_cast<size_t>(t.i())); for (auto & p : v) p = pt<D>(t); b = boundingBox(v.data(), static_cast<Int>(v.size())); }
  else if (k == "baddp") { if (t.i()) b = b + pt<D>(t); else b += pt<D>(t); }
  else if (k == "baddb") { if (t.i()) b = b + rd(); else b += rd(); }
  else if (k == "bscale") b.scale(t.i() / 4.0);
  else if (k == "bq") {
    auto const z = rd(); int const n = t.i();
    o.i("meets", b.intersects(z)).i("same", b.isApprox(z));
    std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(b.contains(pt<D>(t)));
    o.raw("in", ints(r)).raw("ext", pos<D>(b.extents(), 64)).raw("cen", pos<D>(b.centroid(), 64));
    o.raw("ei", arrn(D, [&](long i) { return X(b.extents(static_cast<Int>(i)), 64); })).raw("mi", arrn(D, [&](long i) { return X(b.minima(static_cast<Int>(i)), 64); })).raw("ma", arrn(D, [&](long i) { return X(b.maxima(static_cast<Int>(i)), 64); }));
  }
  else if (k == "br") {
    auto const a = pt<D>(t); P<D> d; for (int i = 0; i < D; ++i) d[i] = t.i(); double const l = t.i(); d /= l;
    Ray<D, double> const r(a, d);
    auto const x = b.intersect(r); auto const y = b.intersect(r, r.inverseDirection());
    o.raw("t", "[" + (x[0] < 0 ? std::string("-1") : X(x[0], 1000)) + "," + (x[0] < 0 ? std::string("-1") : X(x[1], 1000)) + "]");
    o.i("same2", x[0] == y[0] && x[1] == y[1]);
    o.raw("at", pos<D>(r(2.5 * U), 1000));
  }
  if (k != "br") o.raw("b", b.minima(0) > b.maxima(0) ? "[]" : box<D>(b, 64));
  return o.done();
}

struct B {
  std::variant<Triangle2<double>, Quadrilateral2<double>, QuadraticTriangle2<double>, QuadraticQuadrilateral2<double>> pl;
  std::variant<LineSegment2<double>, QuadraticSegment2<double>> sg;
  std::variant<AxisAlignedBox1<double>, AxisAlignedBox2<double>, AxisAlignedBox3<double>> bx;
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    if (k == "poly") {
      int const n = t.i();
      if (n == 3) pl = Triangle2<double>(); else if (n == 4) pl = Quadrilateral2<double>(); else if (n == 6) pl = QuadraticTriangle2<double>(); else pl = QuadraticQuadrilateral2<double>();
      return std::visit([&](auto & p) {
        using Pl = std::decay_t<decltype(p)>;
        std::vector<P<2>> v; for (int i = 0; i < n; ++i) v.push_back(pt<2>(t));
        Vec<Pl::N, Int> id; std::vector<P<2>> w(v.size() + 3);
        for (Int i = 0; i < n; ++i) { id[i] = n - i + 1; w[static_cast<size_t>(n - i + 1)] = v[static_cast<size_t>(i)]; }
        if (t.i()) p = Pl(id, w.data()); else for (Int i = 0; i < n; ++i) p[i] = v[static_cast<size_t>(i)];
        return poly(p, k, t); }, pl);
    }
    if (k == "flip") return std::visit([&](auto & p) { p.flip(); return poly(p, k, t); }, pl);
    if (k == "move") return std::visit([&](auto & p) { Int const i = t.i(); p[i] = pt<2>(t); return poly(p, k, t); }, pl);
    if (k[0] == 'p') return std::visit([&](auto & p) { return poly(p, k, t); }, pl);
    if (k == "seg") {
      if (t.i() == 2) sg = LineSegment2<double>(); else sg = QuadraticSegment2<double>();
      return std::visit([&](auto & s) { for (Int i = 0; i < std::decay_t<decltype(s)>::N; ++i) s[i] = pt<2>(t); return seg(s, k, t); }, sg);
    }
    if (k == "sx" || k == "sq" || k == "sp" || k == "sr") return std::visit([&](auto & s) { return seg(s, k, t); }, sg);
    if (k == "tri3") {
      P<3> a = pt<3>(t), b = pt<3>(t), c = pt<3>(t);
      Triangle3<double> x(a, b, c); Obj o;
      o.raw("a", sfx(x.area() / (U * U), 1000)).raw("c", pos<3>(x.centroid(), 3)).raw("p", X(x.perimeter(), 1000)).raw("bb", box<3>(x.boundingBox(), 1)).raw("f", pos<3>(x(0.25, 0.5), 4));
      LineSegment<3, double> const s(a, b);
      o.raw("len", X(s.length(), 1000)).raw("r", sfx(s.pointClosestTo(c), 4096)).raw("d2", sfx(s.squaredDistanceTo(c) / (U * U), 1000));
      return o.done();
    }
    if (k == "turn") {
      P<2> a = pt<2>(t), b = pt<2>(t), c = pt<2>(t); Obj o;
      o.i("ccw", areCCW(a, b, c)).i("accw", areApproxCCW(a, b, c)).raw("mid", pos<2>(midpoint<2, double>(a, b), 2));
      return o.done();
    }
    if (k == "bempty" || k == "bset" || k == "bpts") {
      int const d = t.i();
      if (d == 1) bx = AxisAlignedBox1<double>(); else if (d == 2) bx = AxisAlignedBox2<double>(); else bx = AxisAlignedBox3<double>();
    }
    if (k[0] == 'b') {
      if (auto * b = std::get_if<0>(&bx)) return boxop<1>(*b, k, t);
      if (auto * b = std::get_if<1>(&bx)) return boxop<2>(*b, k, t);
      return boxop<3>(std::get<2>(bx), k, t);
    }
    _exit(99);
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
