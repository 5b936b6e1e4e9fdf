// Small linear algebra, polynomial equations and statistics.
#include "h.hpp"
#include <complex>
#include <um2.hpp>
#include <um2/math/mat.hpp>
#include <um2/math/matrix.hpp>
#include <um2/math/cubic_equation.hpp>
#include <um2/math/stats.hpp>
using namespace h;
using um2::Vec; using um2::Mat;
template <class T> struct IsC : std::false_type {};
template <class T> struct IsC<std::complex<T>> : std::true_type {};
template <class T> T rd(Tok & t) {
  int const re = t.i(), im = t.i();
  if constexpr (IsC<T>::value) return T(static_cast<typename T::value_type>(re), static_cast<typename T::value_type>(im)); else return static_cast<T>(re);
}
template <class T> std::string pr(T const & x) {
  if constexpr (IsC<T>::value) return "[" + sfx(static_cast<double>(x.real()), 1) + "," + sfx(static_cast<double>(x.imag()), 1) + "]";
  else return "[" + sfx(static_cast<double>(x), 1) + ",0]";
}
#if UM2_USE_BLAS_LAPACK
template <class T> constexpr bool any_type = std::is_floating_point_v<T> || IsC<T>::value;
#else
template <class T> constexpr bool any_type = true;
#endif
struct Base { virtual ~Base() = default; virtual std::string step(std::string const & k, Tok & t) = 0; };
template <class T> struct Regs : Base {
  // every result is a new matrix
  using P = std::unique_ptr<um2::Matrix<T>>;
  P m[3];
  Regs() { for (auto & x : m) x = std::make_unique<um2::Matrix<T>>(1, 1, T(0)); }
  template <class... A> static P mk(A &&... a) { return std::make_unique<um2::Matrix<T>>(std::forward<A>(a)...); }
  std::string show(um2::Matrix<T> const & a) {
    Obj o; o.raw("s", ints(std::vector<int>{a.rows(), a.cols()}));
    o.raw("v", arrn(static_cast<long>(a.rows()) * a.cols(), [&](long q) { return pr<T>(a(static_cast<Int>(q % a.rows()), static_cast<Int>(q / a.rows()))); }));
    o.raw("f", arrn(static_cast<long>(a.rows()) * a.cols(), [&](long q) { return pr<T>(a(static_cast<Int>(q))); }));
    return o.done();
  }
  std::string step(std::string const & k, Tok & t) override {
    Obj o;
    if constexpr (!any_type<T>) return "{}";
    else {
#if UM2_USE_BLAS_LAPACK
    auto cp = [&](auto const & x) {
      if constexpr (IsC<std::decay_t<decltype(x)>>::value) return "[" + sfx(static_cast<double>(x.real()), 1000) + "," + sfx(static_cast<double>(x.imag()), 1000) + "]";
      else return "[" + sfx(static_cast<double>(x), 1000) + ",0]"; };
    if (k == "solve" || k == "solvein") {
      auto a = mk(*m[0]); auto b = mk(*m[1]);
      auto pr3 = [&](um2::Matrix<T> const & x) { o.raw("s", ints(std::vector<int>{x.rows(), x.cols()})).raw("x", arrn(static_cast<long>(x.rows()) * x.cols(), [&](long i) { return cp(x(static_cast<Int>(i))); })); };
      if (k == "solve") { auto const x = um2::linearSolve(*m[0], *m[1]); pr3(x); }
      else { um2::Vector<Int> piv(a->rows()); um2::linearSolve(*a, *b, piv); pr3(*b); }
    } else if (k == "eig") {
      auto const w = um2::eigvals(*m[0]);
      o.raw("w", arrn(w.size(), [&](long i) { return cp(w[static_cast<Int>(i)]); }));
    } else
#endif
    if (k == "mv") {
      auto & a = *m[t.i() - 1]; um2::Vector<T> x(a.cols());
      for (auto & e : x) e = rd<T>(t);
      auto const y = a * x;
      o.raw("y", arrn(y.size(), [&](long i) { return pr<T>(y[static_cast<Int>(i)]); }));
    } else {
      auto & p = m[t.i() - 1]; auto & d = *p;
      if (k == "set") { int const r = t.i(), c = t.i(); um2::Matrix<T> a(r, c); for (Int j = 0; j < c; ++j) for (Int i = 0; i < r; ++i) a(i, j) = rd<T>(t); p = mk(a); }
      else if (k == "fill") { int const r = t.i(), c = t.i(); p = mk(r, c, rd<T>(t)); }
      else if (k == "ident") p = mk(um2::Matrix<T>::identity(t.i()));
      else if (k == "clear") d.zero();
      else if (k == "scale") d *= rd<T>(t);
      else if (k == "acc") d += *m[t.i() - 1];
      else if (k == "dec") d -= *m[t.i() - 1];
      else if (k == "copy") p = mk(*m[t.i() - 1]);
      else if (k == "sum") { int const a = t.i() - 1, b = t.i() - 1; p = mk(*m[a] + *m[b]); }
      else if (k == "diff") { int const a = t.i() - 1, b = t.i() - 1; p = mk(*m[a] - *m[b]); }
      else if (k == "mul") { int const a = t.i() - 1, b = t.i() - 1; p = mk(*m[a] * *m[b]); }
      else if (k == "into") { int const a = t.i() - 1, b = t.i() - 1; um2::matmul(d, *m[a], *m[b]); }
      else if (k == "adj") d.transpose();
      else if (k == "put") { int const i = t.i() - 1, j = t.i() - 1; d(i, j) = rd<T>(t); }
    }
    o.raw("m", arrn(3, [&](long i) { return show(*m[i]); }));
    return o.done();
    }
  }
};
template <Int D, class T> std::string iv(Vec<D, T> const & v, double k = 1) { return arrn(D, [&](long i) { return sfx(static_cast<double>(v[static_cast<Int>(i)]), k); }); }
template <Int D, class T> Vec<D, T> rv(Tok & t) { Vec<D, T> v; for (Int i = 0; i < D; ++i) v[i] = static_cast<T>(t.i()); return v; }
static std::string bs(std::vector<bool> const & v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += std::string(i ? "," : "") + (v[i] ? "true" : "false"); return s + "]"; }
template <class T> std::string two(T a, T b) { return "[" + sfx(static_cast<double>(a), 1) + "," + sfx(static_cast<double>(b), 1) + "]"; }
template <Int D, class T> std::string vec(Tok & t) {
  auto const u = rv<D, T>(t), v = rv<D, T>(t); int const si = t.i(); T const s = static_cast<T>(si);
  Obj o;
  o.raw("neg", iv<D, T>(-u)).raw("add", iv<D, T>(u + v)).raw("sub", iv<D, T>(u - v)).raw("mul", iv<D, T>(u * v)).raw("div", iv<D, T>(u / v, 1000));
  o.raw("sadd", iv<D, T>(u + s)).raw("sadd2", iv<D, T>(si + u)).raw("ssub", iv<D, T>(u - s)).raw("ssub2", iv<D, T>(s - u));
  o.raw("smul", iv<D, T>(u * si)).raw("smul2", iv<D, T>(s * u)).raw("sdiv", iv<D, T>(u / s, 1000)).raw("sdiv2", iv<D, T>(s / v, 1000));
  auto f = u; f = s; o.raw("fill", iv<D, T>(f));
  auto a = u; a.min(v); auto b = u; b.max(v);
  o.raw("min", iv<D, T>(a)).raw("max", iv<D, T>(b));
  o.raw("dot", two(u.dot(v), um2::dot(u, v))).raw("n2", two(u.squaredNorm(), um2::squaredNorm(u)));
  o.raw("d2", sfx(static_cast<double>(u.squaredDistanceTo(v)), 1));
  o.raw("cmp", bs({u == v, u != v, u < v, u > v, u <= v, u >= v}));
  if constexpr (D == 2) o.raw("x", two(u.cross(v), um2::cross(u, v)));
  if constexpr (D == 3) o.raw("x", "[" + iv<D, T>(u.cross(v)) + "," + iv<D, T>(um2::cross(u, v)) + "]");
  if constexpr (std::is_floating_point_v<T>) {
    o.raw("n", "[" + sfx(static_cast<double>(u.norm()), 1000) + "," + sfx(static_cast<double>(um2::norm(u)), 1000) + "]");
    o.raw("dist", sfx(static_cast<double>(u.distanceTo(v)), 1000)).b("same", u.isApprox(v));
    if (u.squaredNorm() > 0) { auto c = u; c.normalize(); o.raw("unit", iv<D, T>(u.normalized(), 1000)).raw("unit2", iv<D, T>(c, 1000)); }
  }
  return o.done();
}
template <class T> std::string vecd(Tok & t) { switch (t.i()) { case 1: return vec<1, T>(t); case 2: return vec<2, T>(t); case 3: return vec<3, T>(t); default: return vec<4, T>(t); } }
template <Int M, Int N, class T> Mat<M, N, T> rm(Tok & t) { Mat<M, N, T> a; for (Int j = 0; j < N; ++j) for (Int i = 0; i < M; ++i) a(i, j) = static_cast<T>(t.i()); return a; }
template <Int M, Int N, class T> std::string im(Mat<M, N, T> const & a) { return arrn(M * N, [&](long q) { return sfx(static_cast<double>(a.col(static_cast<Int>(q / M))[static_cast<Int>(q % M)]), 1); }); }
template <class T, Int M, Int N, Int P> std::string fix(Tok & t) {
  auto const a = rm<M, N, T>(t); auto const b = rm<N, P, T>(t); auto const c = rm<M, N, T>(t); auto const x = rv<N, T>(t);
  Obj o; o.raw("mul", im<M, P, T>(a * b)).raw("add", im<M, N, T>(a + c)).raw("sub", im<M, N, T>(a - c)).raw("mv", iv<M, T>(a * x));
  o.raw("flat", arrn(M * N, [&](long i) { return sfx(static_cast<double>(a(static_cast<Int>(i))), 1); })).raw("zero", im<M, N, T>(Mat<M, N, T>::zero()));
  if constexpr (M == N) o.raw("id", im<M, N, T>(Mat<M, N, T>::identity()));
  return o.done();
}
template <class T, Int M, Int N> std::string fix3(Tok & t, int p) { return p == 1 ? fix<T, M, N, 1>(t) : p == 2 ? fix<T, M, N, 2>(t) : fix<T, M, N, 3>(t); }
template <class T, Int M> std::string fix2(Tok & t, int n, int p) { return n == 1 ? fix3<T, M, 1>(t, p) : n == 2 ? fix3<T, M, 2>(t, p) : fix3<T, M, 3>(t, p); }
template <class T> std::string fix1(Tok & t) { int const m = t.i(), n = t.i(), p = t.i(); return m == 1 ? fix2<T, 1>(t, n, p) : m == 2 ? fix2<T, 2>(t, n, p) : fix2<T, 3>(t, n, p); }
template <class T> std::string sol(Tok & t, std::string const & k) {
  Obj o; auto ok = [](T x) { return x < static_cast<T>(1e15); };
  auto out3 = [&](auto const & r, int n) {
    std::vector<bool> v; for (Int i = 0; i < n; ++i) v.push_back(ok(r[i]));
    o.raw("ok", bs(v)).raw("r", arrn(n, [&](long i) { return v[static_cast<size_t>(i)] ? sfx(static_cast<double>(r[static_cast<Int>(i)]), 1000) : std::string("0"); }));
  };
  if (k == "quad" || k == "low") {
    T const a = static_cast<T>(t.i()), b = static_cast<T>(t.i()), c = static_cast<T>(t.i()); T const s = static_cast<T>(std::ldexp(1., t.i()));
    if (k == "quad") out3(um2::solveQuadratic<T>(a * s, b * s, c * s), 2); else out3(um2::solveCubic<T>(0, a * s, b * s, c * s), 3);
  } else if (k == "qsc") {
    T const a = static_cast<T>(t.i()); int const p = t.i(), q = t.i(), e = t.i();
    T const x = static_cast<T>(std::ldexp(p, e)), y = static_cast<T>(std::ldexp(q, -e));
    auto const r = um2::solveQuadratic<T>(a, -a * (x + y), a * (x * y));
    o.raw("ok", bs({ok(r[0]), ok(r[1])})).b("asc", r[0] <= r[1]);
    o.raw("big", "[" + sfx(std::ldexp(static_cast<double>(r[0]), -e), 1000) + "," + sfx(std::ldexp(static_cast<double>(r[1]), -e), 1000) + "]");
    o.raw("small", "[" + sfx(std::ldexp(static_cast<double>(r[0]), e), 1000) + "," + sfx(std::ldexp(static_cast<double>(r[1]), e), 1000) + "]");
  } else { // a (x - r) (x^2 + g x + h), in quarters
    double const a = t.i(); auto r = t.vi(); double g = 0, h2 = 0;
    if (r.size() == 3) { g = -(r[1] + r[2]) / 4.; h2 = r[1] * r[2] / 16.; } else { double const u = t.i() / 4., v = t.i() / 4.; g = -2 * u; h2 = u * u + v * v; }
    double const x = r[0] / 4.;
    out3(um2::solveCubic<T>(static_cast<T>(a), static_cast<T>(a * (g - x)), static_cast<T>(a * (h2 - x * g)), static_cast<T>(-a * x * h2)), 3);
  }
  return o.done();
}
template <class T> std::string stat(Tok & t, std::string const & k) {
  Obj o; int const n = t.i();
  um2::Vector<T> v(n);
  if (k == "long") {
    double e = 0; for (Int i = 0; i < n; ++i) { v[i] = static_cast<T>(0.1 + 0.01 * (i % 7)); e += static_cast<double>(v[i]); }
    o.raw("err", sfx(static_cast<double>(um2::sum(v.begin(), v.end())) / e - 1, 1e6));
    return o.done();
  }
  int const p = t.i(), b = t.i(), m = t.i(), of = t.i();
  if (k == "med") { for (Int i = 0; i < n; ++i) v[i] = static_cast<T>(((i + 1) * p) / m - of); o.raw("med", sfx(static_cast<double>(um2::median(v.begin(), v.end())), 2)); return o.done(); }
  double const off = std::ldexp(1., t.i()) - 1;
  for (Int i = 0; i < n; ++i) v[i] = static_cast<T>(((i + 1) * p + b) % m - of + off);
  o.raw("sum", sfx(static_cast<double>(um2::sum(v.begin(), v.end())) - n * off, 1)).raw("mean", sfx(static_cast<double>(um2::mean(v.begin(), v.end())) - off, 1000));
  o.raw("var", sfx(static_cast<double>(um2::variance(v.begin(), v.end())), 1000)).raw("sd", sfx(static_cast<double>(um2::stdDev(v.begin(), v.end())), 1000));
  return o.done();
}
struct B {
  std::unique_ptr<Base> r = std::make_unique<Regs<double>>();
  std::string step(Tok & t) {
    auto const k = t.w();
    if (k == "type") {
      auto const f = t.w();
      if (f == "I") r = std::make_unique<Regs<int>>(); else if (f == "f") r = std::make_unique<Regs<float>>();
      else if (f == "cf") r = std::make_unique<Regs<std::complex<float>>>(); else if (f == "cd") r = std::make_unique<Regs<std::complex<double>>>();
      return "{}";
    }
    if (k == "vec" || k == "fix") {
      auto const f = t.w();
      if (k == "vec") return f == "I" ? vecd<Int>(t) : f == "f" ? vecd<float>(t) : vecd<double>(t);
      return f == "I" ? fix1<Int>(t) : f == "f" ? fix1<float>(t) : fix1<double>(t);
    }
    if (k == "inv" || k == "rot") {
      bool const f = t.w() == "f"; Obj o;
      if (k == "inv") { if (f) { auto const a = rm<2, 2, float>(t); auto const b = um2::inv(a); o.raw("v", arrn(4, [&](long i) { return sfx(static_cast<double>(b(static_cast<Int>(i))), 1000); })); }
                        else { auto const a = rm<2, 2, double>(t); auto const b = um2::inv(a); o.raw("v", arrn(4, [&](long i) { return sfx(b(static_cast<Int>(i)), 1000); })); } }
      else { int const p = t.i(), q = t.i(); double const a = std::atan2(q, p);
             if (f) { auto const b = um2::makeRotationMatrix(static_cast<float>(a)); o.raw("v", arrn(4, [&](long i) { return sfx(static_cast<double>(b(static_cast<Int>(i))), 1000); })); }
             else { auto const b = um2::makeRotationMatrix(a); o.raw("v", arrn(4, [&](long i) { return sfx(b(static_cast<Int>(i)), 1000); })); } }
      return o.done();
    }
    if (k == "quad" || k == "qsc" || k == "cub" || k == "low") return t.w() == "f" ? sol<float>(t, k) : sol<double>(t, k);
    if (k == "stat" || k == "med" || k == "long") return t.w() == "f" ? stat<float>(t, k) : stat<double>(t, k);
    return r->step(k, t);
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
