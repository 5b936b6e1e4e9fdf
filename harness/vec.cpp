#include "h.hpp"
#include "alloc_count.hpp"
static long g_live = 0;
#include <um2/stdlib/vector.hpp>
#include <um2/stdlib/string.hpp>
using namespace h;

// An element with non-trivial lifetime; double destruction or use after destruction is a
// heap error reported by the sanitizer.
struct Tracked {
  int * p;
  Tracked() : p(static_cast<int *>(malloc(sizeof(int)))) { *p = 0; ++g_live; }
  explicit Tracked(int x) : p(static_cast<int *>(malloc(sizeof(int)))) { *p = x; ++g_live; }
  Tracked(Tracked const & o) : p(static_cast<int *>(malloc(sizeof(int)))) { *p = *o.p; ++g_live; }
  Tracked(Tracked && o) noexcept : p(static_cast<int *>(malloc(sizeof(int)))) { *p = *o.p; *o.p = -77; ++g_live; }
  Tracked & operator=(Tracked const & o) { *p = *o.p; return *this; }
  Tracked & operator=(Tracked && o) noexcept { int const t = *o.p; *o.p = -77; *p = t; return *this; }
  ~Tracked() { *p = -99; free(p); p = nullptr; --g_live; }
  bool operator==(Tracked const & o) const { return *p == *o.p; }
  bool operator<(Tracked const & o) const { return *p < *o.p; }
};
// Trivial, but wider than a pointer and with padding.
struct Pod {
  double d; char c; int x;
  bool operator==(Pod const & o) const { return x == o.x && d == o.d; }
  bool operator<(Pod const & o) const { return x < o.x; }
};

template <class T> struct Conv;
template <> struct Conv<int> { static int mk(int x) { return x; } static long get(int x) { return x; } };
template <> struct Conv<int8_t> { static int8_t mk(int x) { return static_cast<int8_t>(x); } static long get(int8_t x) { return x; } };
template <> struct Conv<double> { static double mk(int x) { return x * 0.5; } static long get(double x) { return x * 2 == std::floor(x * 2) ? static_cast<long>(x * 2) : -12345; } };
template <> struct Conv<Tracked> { static Tracked mk(int x) { return Tracked(x); } static long get(Tracked const & t) { return *t.p; } };
template <> struct Conv<Pod> { static Pod mk(int x) { return Pod{x * 1.5, 'a', x}; } static long get(Pod const & t) { return t.d == t.x * 1.5 ? t.x : -12345; } };
// odd values are long (heap) strings, even ones short
template <> struct Conv<um2::String> {
  static um2::String mk(int x)
  {
    if (x == 0) return um2::String();
    std::string s(x % 2 ? 30 : 1, static_cast<char>('a' + x));
    s[0] = static_cast<char>('a' + x);
    return um2::String(s.c_str());
  }
  static long get(um2::String const & s)
  {
    if (s.size() == 0) return 0;
    int const x = s.data()[0] - 'a';
    std::string e(x % 2 ? 30 : 1, static_cast<char>('a' + x));
    return std::string(s.data(), static_cast<size_t>(s.size())) == e ? x : -12345;
  }
};
template <> struct Conv<um2::Vector<int>> {
  static um2::Vector<int> mk(int x) { um2::Vector<int> v; for (int i = 0; i < x; ++i) v.push_back(x); return v; }
  static long get(um2::Vector<int> const & v) { for (auto y : v) if (y != v.size()) return -12345; return v.size(); }
};

struct IB { virtual ~IB() = default; virtual std::string step(Tok & t) = 0; };

template <class T> struct VB : IB {
  static constexpr int NV = 3;
  using V = um2::Vector<T>;
  alignas(V) unsigned char mem[NV][sizeof(V)];
  long base, lbase;
  V & v(int i) { return *reinterpret_cast<V *>(mem[i]); }
  VB() { for (int i = 0; i < NV; ++i) new (mem[i]) V(); base = g_out; lbase = g_live; }
  // replace variable a by a newly constructed array
  template <class F> void rebuild(int a, F f)
  {
    alignas(V) unsigned char tmp[sizeof(V)];
    f(tmp);
    v(a).~V();
    new (mem[a]) V(std::move(*reinterpret_cast<V *>(tmp)));
    reinterpret_cast<V *>(tmp)->~V();
  }
  std::string step(Tok & t) override
  {
    std::string const k = t.w();
    std::string res = "[]";
    bool capkept = true;
    long leak = 0;
    if (k == "new") { int a = t.i(), n = t.i(); rebuild(a, [&](void * p) { new (p) V(n); }); }
    else if (k == "newv") { int a = t.i(), n = t.i(), x = t.i(); T e = Conv<T>::mk(x); rebuild(a, [&](void * p) { new (p) V(n, e); }); }
    else if (k == "list" || k == "lasgn") {
      int a = t.i(); auto xs = t.vi();
      auto go = [&](std::initializer_list<T> const & il) {
        if (k == "list") rebuild(a, [&](void * p) { new (p) V(il); });
        else v(a) = il;
      };
      auto m = [&](size_t i) { return Conv<T>::mk(xs[i]); };
      if (xs.size() == 1) go({m(0)});
      else if (xs.size() == 2) go({m(0), m(1)});
      else if (xs.size() == 3) go({m(0), m(1), m(2)});
      else if (xs.size() == 5) go({m(0), m(1), m(2), m(3), m(4)});
      else _exit(99);
    }
    else if (k == "range" || k == "assign") {
      int a = t.i(); auto xs = t.vi();
      std::vector<T> ext; ext.reserve(xs.size() + 1);
      for (int x : xs) ext.push_back(Conv<T>::mk(x));
      T const * b = ext.data();
      if (k == "range") rebuild(a, [&](void * p) { new (p) V(b, b + xs.size()); });
      else v(a).assign(b, b + xs.size());
    }
    else if (k == "copy") { int a = t.i(), b = t.i(); rebuild(a, [&](void * p) { new (p) V(static_cast<V const &>(v(b))); }); }
    else if (k == "move") { int a = t.i(), b = t.i(); rebuild(a, [&](void * p) { new (p) V(um2::move(v(b))); }); }
    else if (k == "asgn") { int a = t.i(), b = t.i(); v(a) = static_cast<V const &>(v(b)); }
    else if (k == "masgn") { int a = t.i(), b = t.i(); v(a) = um2::move(v(b)); }
    else if (k == "push") { int a = t.i(); T const e = Conv<T>::mk(t.i()); v(a).push_back(e); }
    else if (k == "pushm") { int a = t.i(); v(a).push_back(Conv<T>::mk(t.i())); }
    else if (k == "emplace") { int a = t.i(); T const e = Conv<T>::mk(t.i()); v(a).emplace_back(e); }
    else if (k == "pushself") { int a = t.i(), i = t.i(); v(a).push_back(v(a)[i]); }
    else if (k == "emplself") { int a = t.i(), i = t.i(); v(a).emplace_back(v(a)[i]); }
    else if (k == "pop") { v(t.i()).pop_back(); }
    else if (k == "resize") { int a = t.i(); v(a).resize(t.i()); }
    else if (k == "reserve") { int a = t.i(); v(a).reserve(t.i()); }
    else if (k == "clear") { int a = t.i(); auto c = v(a).capacity(); v(a).clear(); capkept = v(a).capacity() == c; }
    else if (k == "set") { int a = t.i(), i = t.i(); v(a)[i] = Conv<T>::mk(t.i()); }
    else if (k == "ends") { V const & c = v(t.i()); V & m = const_cast<V &>(c);
      res = "[" + std::to_string(&m.front() == &c.front() ? Conv<T>::get(c.front()) : -1) + "," + std::to_string(&m.back() == &c.back() ? Conv<T>::get(c.back()) : -1) + "]"; }
    else if (k == "cmp") {
      V const & l = v(t.i()); V const & r = v(t.i());
      auto bs = [](bool x) { return std::string(x ? "true" : "false"); };
      if constexpr (std::is_same_v<T, um2::Vector<int>> || true) {
        res = "[" + bs(l == r) + "," + bs(l != r) + "," + bs(l < r) + "," + bs(l > r) + "," + bs(l <= r) + "," + bs(l >= r) + "]";
      }
    }
    else if (k == "end") {
      for (int i = 0; i < NV; ++i) v(i).~V();
      leak = (g_out - base);
      if (std::is_same_v<T, Tracked>) leak += g_live - lbase;
      for (int i = 0; i < NV; ++i) new (mem[i]) V();
    }
    else _exit(99);
    Obj o;
    o.raw("v", arrn(NV, [&](long i) {
      V const & c = v(static_cast<int>(i));
      // every way of iterating must agree
      std::string s = "["; long n = 0;
      for (auto it = c.begin(); it != c.end(); ++it, ++n) { if (n) s += ","; s += std::to_string(Conv<T>::get(*it)); }
      bool ok = n == c.size() && c.empty() == (n == 0) && c.cbegin() == c.begin() && c.cend() == c.end();
      for (long j = 0; ok && j < n; ++j) ok = Conv<T>::get(c[static_cast<int>(j)]) == Conv<T>::get(c.data()[j]);
      if (!ok) s += (n ? ",-9" : "-9");
      return s + "]"; }));
    o.raw("cap", arrn(NV, [&](long i) { return std::to_string(v(static_cast<int>(i)).capacity()); }));
    o.raw("res", res);
    o.b("capkept", capkept);
    o.i("live", std::is_same_v<T, Tracked> ? g_live - lbase : -1);
    o.i("leak", leak);
    return o.done();
  }
};

struct B {
  std::unique_ptr<IB> b;
  std::string step(Tok & t)
  {
    std::string ty = t.w();
    if (!b) {
      if (ty == "int") b = std::make_unique<VB<int>>();
      else if (ty == "i8") b = std::make_unique<VB<int8_t>>();
      else if (ty == "dbl") b = std::make_unique<VB<double>>();
      else if (ty == "trk") b = std::make_unique<VB<Tracked>>();
      else if (ty == "pod") b = std::make_unique<VB<Pod>>();
      else if (ty == "str") b = std::make_unique<VB<um2::String>>();
      else if (ty == "vec") b = std::make_unique<VB<um2::Vector<int>>>();
      else _exit(99);
    }
    return b->step(t);
  }
};
int main(int argc, char ** argv) { return drive<B>(argc, argv); }
