// Modular ray parameters.
#include "h.hpp"
#include <um2.hpp>
#include <um2/geometry/modular_rays.hpp>
using namespace h;
template <class T> static std::string mod(Tok & t)
{
  T const u = static_cast<T>(0.25);
  T const x = static_cast<T>(t.i()) * u, y = static_cast<T>(t.i()) * u, w = static_cast<T>(t.i()) * u, hh = static_cast<T>(t.i()) * u;
  int const p = t.i(), q = t.i(); T const s = static_cast<T>(t.i()) * u;
  um2::AxisAlignedBox2<T> const b({x, y}, {x + w, y + hh});
  um2::ModularRayParams<T> const m(std::atan2(static_cast<T>(q), static_cast<T>(p)), s, b);
  auto pos = [&](um2::Point2<T> const & v, double k) { return "[" + sfx(static_cast<double>(v[0]) / (k > 0 ? 0.25 : 1), std::abs(k)) + "," + sfx(static_cast<double>(v[1]) / (k > 0 ? 0.25 : 1), std::abs(k)) + "]"; };
  Obj o;
  o.raw("n", ints(std::vector<int>{m.getNumXRays(), m.getNumYRays()})).i("total", m.getTotalNumRays());
  o.raw("s", pos(m.getSpacing(), 1000)).raw("d", pos(m.getDirection(), -10000));
  auto const n = m.getTotalNumRays();
  o.raw("o", arrn(n, [&](long i) { return pos(m.getRay(static_cast<Int>(i)).origin(), 1000); }));
  o.raw("rd", arrn(n, [&](long i) { return pos(m.getRay(static_cast<Int>(i)).direction(), -10000); }));
  // the far end, in plain double arithmetic
  o.raw("x", arrn(n, [&](long i) {
    auto const r = m.getRay(static_cast<Int>(i));
    double const ox = r.origin()[0], oy = r.origin()[1], dx = r.direction()[0], dy = r.direction()[1];
    double const tx = ((dx > 0 ? static_cast<double>(x + w) : static_cast<double>(x)) - ox) / dx, ty = (static_cast<double>(y + hh) - oy) / dy;
    double const k = tx < ty ? tx : ty;
    return "[" + sfx((ox + k * dx) / 0.25, 1000) + "," + sfx((oy + k * dy) / 0.25, 1000) + "]"; }));
  return o.done();
}
struct B { std::string step(Tok & t) { return t.w() == "f" ? mod<float>(t) : mod<double>(t); } };
int main(int c, char ** v) { return drive<B>(c, v); }
