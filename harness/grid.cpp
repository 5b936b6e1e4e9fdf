#include "h.hpp"
#include <um2/mesh/rectilinear_partition.hpp>
#include <um2/mesh/regular_partition.hpp>
#include <variant>
using namespace h;
using um2::AxisAlignedBox;
using um2::Point;
using um2::RectilinearGrid;
using um2::RegularGrid;
using um2::Vec;
using um2::Vector;

static double U = 1;
static std::string X(double d) { return sfx(d / U, 16); }

template <int D> using Box = AxisAlignedBox<D, Float>;
template <int D> static Point<D, Float> pt(Tok & t) { Point<D, Float> p; for (int i = 0; i < D; ++i) p[i] = t.d() * U / 8; return p; }
template <int D> static Box<D> bx(Tok & t) { auto a = pt<D>(t); auto b = pt<D>(t); return {a, b}; }
template <class V> static std::string cs(V const & v, int n) { return arrn(n, [&](long i) { return X(v[static_cast<Int>(i)]); }); }
template <class V> static std::string is(V const & v, int n) { return arrn(n, [&](long i) { return std::to_string(v[static_cast<Int>(i)]); }); }
template <int D> static std::string bo(Box<D> const & b) { return "[" + cs(b.minima(), D) + "," + cs(b.maxima(), D) + "]"; }
template <int D, class F> static auto at(Vec<D, Int> const & i, F f)
{
  if constexpr (D == 1) return f(i[0]);
  else if constexpr (D == 2) return f(i[0], i[1]);
  else return f(i[0], i[1], i[2]);
}

// One grid or partition of dimension D.
template <int D> struct Slot {
  bool reg = true, part = false;
  RegularGrid<D, Float> g;
  RectilinearGrid<D, Float> r;
  um2::RegularPartition<D, Int> gp;
  um2::RectilinearPartition<D, Int> rp;

  template <class G, class C> std::string info(G const & q, C child)
  {
    Obj o;
    o.raw("lo", cs(q.minima(), D)).raw("hi", cs(q.maxima(), D)).raw("ext", cs(q.extents(), D)).raw("n", is(q.numCells(), D));
    o.i("total", q.totalNumCells()).raw("bb", bo<D>(q.boundingBox()));
    o.raw("ax", arrn(D, [&](long d) { auto e = static_cast<Int>(d); return "[" + X(q.minima(e)) + "," + X(q.maxima(e)) + "," + X(q.extents(e)) + "," + std::to_string(q.numCells(e)) + "]"; }));
    auto n = q.numCells();
    std::string s;
    Vec<D, Int> i = Vec<D, Int>::zero();
    while (true) {
      Obj c;
      c.raw("i", is(i, D)).i("f", q.getFlatIndex(i)).i("f2", at<D>(i, [&](auto... a) { return q.getFlatIndex(a...); })).raw("b", bo<D>(at<D>(i, [&](auto... a) { return q.getBox(a...); })));
      if constexpr (std::is_same_v<G, RegularGrid<D, Float>>) c.raw("c", cs(at<D>(i, [&](auto... a) { return q.getCellCentroid(a...); }), D));
      if (part) c.i("ch", at<D>(i, child));
      s += (s.empty() ? "" : ",") + c.done();
      int d = 0;
      while (d < D && ++i[d] == n[d]) i[d++] = 0;
      if (d == D) break;
    }
    o.raw("cells", "[" + s + "]");
    if (part) o.raw("chs", ints(reg ? gp.children() : rp.children()));
    return o.done();
  }
  std::string show()
  {
    if (reg) return info(part ? gp.grid() : g, [&](auto... a) { return static_cast<um2::RegularPartition<D, Int> const &>(gp).getChild(a...); });
    RectilinearGrid<D, Float> const & q = part ? rp.grid() : r;
    if (q.divs(0).empty()) {
      Obj o; o.i("empty", 1).raw("sz", arrn(D, [&](long d) { return std::to_string(q.divs(static_cast<Int>(d)).size()); })).i("nch", part ? rp.children().size() : 0);
      return o.done();
    }
    return info(q, [&](auto... a) { return static_cast<um2::RectilinearPartition<D, Int> const &>(rp).getChild(a...); });
  }
  std::string step(std::string const & k, Tok & t)
  {
    if (k == "reg") {
      reg = true; part = false;
      auto lo = pt<D>(t); auto sp = pt<D>(t); Vec<D, Int> n; for (int i = 0; i < D; ++i) n[i] = t.i();
      g = RegularGrid<D, Float>(lo, sp, n);
    } else if (k == "regbox") { reg = true; part = false; g = RegularGrid<D, Float>(bx<D>(t)); }
    else if (k == "rectbox") { reg = false; part = false; r = RectilinearGrid<D, Float>(bx<D>(t)); }
    else if (k == "boxes") {
      reg = false; part = false;
      int const n = t.i(); Vector<Box<D>> v; for (int i = 0; i < n; ++i) v.push_back(bx<D>(t));
      r = RectilinearGrid<D, Float>(v);
    } else if (k == "ids" || k == "pids") {
      if constexpr (D == 2) {
        reg = false; part = k == "pids";
        int const n = t.i(); Vector<um2::Vec2F> e; for (int i = 0; i < n; ++i) e.push_back(pt<2>(t));
        int const m = t.i(); Vector<Vector<Int>> rows; for (int i = 0; i < m; ++i) { Vector<Int> w; for (int x : t.vi()) w.push_back(x); rows.push_back(w); }
        if (part) rp = um2::RectilinearPartition<2, Int>(e, rows); else r = RectilinearGrid<2, Float>(e, rows);
      }
    } else if (k == "part") {
      Vector<Int> c; for (int x : t.vi()) c.push_back(x);
      part = true;
      if (reg) gp = um2::RegularPartition<D, Int>(g, c); else rp = um2::RectilinearPartition<D, Int>(r, c);
    } else if (k == "set") {
      Vec<D, Int> i; for (int d = 0; d < D; ++d) i[d] = t.i();
      int const v = t.i();
      at<D>(i, [&](auto... a) { if (reg) gp.getChild(a...) = v; else rp.getChild(a...) = v; return 0; });
    } else if (k == "clear") { if (part) rp.clear(); else r.clear(); }
    else if (k == "find") {
      int const n = t.i(); std::string s = "[";
      auto const & q = part ? gp.grid() : g;
      for (int i = 0; i < n; ++i) { auto v = q.getCellIndexContaining(pt<D>(t)); s += (i ? "," : "") + is(v, D); }
      return "{\"r\":" + s + "]}";
    } else if (k == "touch") {
      int const n = t.i(); std::string s = "[";
      auto const & q = part ? gp.grid() : g;
      for (int i = 0; i < n; ++i) { auto v = q.getCellIndicesIntersecting(bx<D>(t)); s += (i ? "," : "") + is(v, 2 * D); }
      return "{\"r\":" + s + "]}";
    }
    return show();
  }
};

struct B {
  std::variant<Slot<1>, Slot<2>, Slot<3>> s[2];
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    if (k == "unit") { U = t.d() / 1000; return "{}"; }
    int const a = t.i();
    if (k == "copy") { int const b = t.i(); s[a] = s[b]; return std::visit([&](auto & x) { return x.show(); }, s[a]); }
    if (k == "reg" || k == "regbox" || k == "rectbox" || k == "boxes" || k == "ids" || k == "pids") {
      int const d = t.i();
      if (d == 1) s[a] = Slot<1>(); else if (d == 2) s[a] = Slot<2>(); else s[a] = Slot<3>();
    }
    return std::visit([&](auto & x) { return x.step(k, t); }, s[a]);
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
