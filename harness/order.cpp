// Sorting, permutations, elementary algorithms and Morton codes.
#include "h.hpp"
#include <um2.hpp>
#include <um2/common/branchless_sort.hpp>
#include <um2/common/insertion_sort.hpp>
#include <um2/common/permutation.hpp>
#include <um2/geometry/morton_sort_points.hpp>
#include <um2/math/morton.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/numeric/iota.hpp>
using namespace h;
using um2::Point2, um2::Point3, um2::Vec;

template <class T> struct Cv {
  static T to(int i) { return static_cast<T>(i); }
  static int of(T const & x) { return static_cast<int>(x); }
};
template <> struct Cv<double> {
  static double to(int i) { return 0.1 * i; }
  static int of(double x) { return static_cast<int>(std::lround(x * 10)); }
};
template <> struct Cv<um2::String> {      // order of the texts = order of the numbers
  static um2::String to(int i) { char b[40]; snprintf(b, sizeof b, i % 2 ? "%05d" : "%05d_and_a_long_tail_of_text", i + 500); return um2::String(b); }
  static int of(um2::String const & x) { return std::atoi(std::string(x.data(), static_cast<size_t>(x.size())).substr(0, 5).c_str()) - 500; }
};

template <class T> std::vector<T> make(std::vector<int> const & v) { std::vector<T> r; for (int x : v) r.push_back(Cv<T>::to(x)); return r; }
template <class T> std::string show(std::vector<T> const & v) { return arr(v, [](T const & x) { return std::to_string(Cv<T>::of(x)); }); }

template <class T> std::string pos(T c)
{
  std::string s = "["; bool f = true;
  for (unsigned i = 0; i < 8 * sizeof(T); ++i) if ((c >> i) & 1) { if (!f) s += ","; f = false; s += std::to_string(i); }
  return s + "]";
}
template <class T> T bits(std::vector<int> const & v) { T r = 0; for (int i : v) r |= static_cast<T>(1) << i; return r; }

struct B {
  std::vector<int> perm;
  template <class T> std::string arrays(std::string const & k, Tok & t)
  {
    Obj o;
    std::vector<int> xi = t.vi();
    auto a = make<T>(xi);
    auto * p = a.data(); auto * e = p + a.size();
    if (k == "isort") { um2::insertionSort(p, e); o.raw("a", show(a)); }
    else if constexpr (std::is_trivially_copyable_v<T>) {
    if (k == "sort3") { um2::sort3(p, p + 1, p + 2); o.raw("a", show(a)); }
    else if (k == "sort4") { um2::sort4(p, p + 1, p + 2, p + 3); o.raw("a", show(a)); }
    if (k == "apply") { um2::applyPermutation(p, e, perm.data()); o.raw("a", show(a)).raw("p", ints(perm)); }
    }
    if (k == "sperm") {
      perm.assign(a.size(), -1);
      um2::sortPermutation(p, e, perm.data());
      o.raw("p", ints(perm)).raw("a", show(a));
    }
    if (k == "alg") {
      auto b = make<T>(t.vi()); int const x = t.i(), lo = t.i(), hi = t.i();
      size_t const n = a.size();
      auto * q = b.data();
      T const X = Cv<T>::to(x), L = Cv<T>::to(lo), H = Cv<T>::to(hi);
      o.i("sorted", um2::is_sorted(p, e)).i("maxel", um2::max_element(p, e) - p);
      o.i("lex", um2::lexicographical_compare(p, e, q, q + b.size()));
      o.i("eq", n <= b.size() ? um2::equal(p, e, q) : -1);
      o.i("clamp", Cv<T>::of(um2::clamp(X, L, H))).i("min", Cv<T>::of(um2::min(X, H))).i("max", Cv<T>::of(um2::max(X, H)));
      std::vector<T> c(n + 2, Cv<T>::to(77));
      long const end = um2::copy(p, e, c.data() + 1) - c.data();
      o.raw("copy", show(c)).i("cend", end);
      std::vector<T> f(n + 2, Cv<T>::to(77));
      um2::fill(f.data() + 1, f.data() + 1 + n, X);
      o.raw("fill", show(f));
    }
    return o.done();
  }
  template <class T> std::string codes(std::string const & k, Tok & t)
  {
    Obj o;
    int const d = t.i();
    if (k == "enc") {
      T c[3]; for (int i = 0; i < d; ++i) c[i] = bits<T>(t.vi());
      T const m = d == 2 ? um2::mortonEncode(c[0], c[1]) : um2::mortonEncode(c[0], c[1], c[2]);
      o.raw("c", pos(m));
    } else {
      T const m = bits<T>(t.vi());
      T x[3] = {5, 5, 5};
      if (d == 2) um2::mortonDecode(m, x[0], x[1]); else um2::mortonDecode(m, x[0], x[1], x[2]);
      o.raw("x", arrn(d, [&](long i) { return pos(x[i]); }));
    }
    return o.done();
  }
  template <class T, class F> std::string fcodes(Tok & t)
  {
    Obj o;
    int const d = t.i();
    F v[3]; for (int i = 0; i < d; ++i) v[i] = static_cast<F>(t.i()) / 256;
    T const m = d == 2 ? um2::mortonEncode<T, F>(v[0], v[1]) : um2::mortonEncode<T, F>(v[0], v[1], v[2]);
    F x[3] = {5, 5, 5};
    if (d == 2) um2::mortonDecode<T, F>(m, x[0], x[1]); else um2::mortonDecode<T, F>(m, x[0], x[1], x[2]);
    o.raw("c", pos(m)).raw("x", arrn(d, [&](long i) { return sfx(static_cast<double>(x[i]), 1 << 20); }));
    return o.done();
  }
  // points with coordinates k / 256 * side
  template <int D, class F> std::string points(std::string const & k, Tok & t)
  {
    Obj o;
    double side[3]; for (int i = 0; i < D; ++i) side[i] = t.d();
    int const n = t.i();
    std::vector<um2::Point<D, F>> a(static_cast<size_t>(n));
    for (auto & p : a) for (int i = 0; i < D; ++i) p[i] = static_cast<F>(t.i() / 256.0 * side[i]);
    Vec<D, F> sc; for (int i = 0; i < D; ++i) sc[i] = static_cast<F>(1 / side[i]);
    auto all = [&](auto const & v) { return arr(v, [&](auto const & p) { return arrn(D, [&](long i) { return sfx(p[static_cast<Int>(i)] / side[i], 256); }); }); };
    auto cs = [&](auto const & v) { return arr(v, [&](auto const & p) { return pos(um2::mortonEncode(um2::Point<D, F>(p * sc))); }); };
    if (k == "msort") { um2::mortonSort(a.data(), a.data() + n); o.raw("a", all(a)).raw("c", cs(a)); }
    else {
      std::vector<Int> p(static_cast<size_t>(n), -1);
      if (k == "mperm") um2::mortonSortPermutation(a.data(), a.data() + n, p.data());
      else um2::mortonSortPermutation(a.data(), a.data() + n, p.data(), sc);
      o.raw("p", ints(p)).raw("a", all(a)).raw("c", cs(a));
    }
    return o.done();
  }
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    Obj o;
    if (k == "setp") { perm = t.vi(); return "{}"; }
    if (k == "invert") {
      std::vector<Int> q(perm.size(), -1);
      um2::invertPermutation(perm.data(), perm.data() + perm.size(), q.data());
      o.raw("p", ints(perm)).raw("q", ints(q));
      perm.assign(q.begin(), q.end());
      return o.done();
    }
    if (k == "iota") {
      int const n = t.i(), x = t.i();
      std::vector<int> v(static_cast<size_t>(n) + 2, 77);
      um2::iota(v.data() + 1, v.data() + 1 + n, x);
      o.raw("a", ints(v));
      return o.done();
    }
    std::string const ty = t.w();
    if (k == "enc" || k == "dec") return ty == "u32" ? codes<uint32_t>(k, t) : codes<uint64_t>(k, t);
    if (k == "fenc") return ty == "u32f" ? fcodes<uint32_t, float>(t) : ty == "u32" ? fcodes<uint32_t, double>(t) : fcodes<uint64_t, double>(t);
    if (k == "msort" || k == "mperm" || k == "mscale")
      return ty == "2f" ? points<2, float>(k, t) : ty == "2" ? points<2, double>(k, t) : ty == "3f" ? points<3, float>(k, t) : points<3, double>(k, t);
    if (ty == "int") return arrays<int>(k, t);
    if (ty == "i8") return arrays<int8_t>(k, t);
    if (ty == "dbl") return arrays<double>(k, t);
    return arrays<um2::String>(k, t);
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
