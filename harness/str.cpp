#include "h.hpp"
#include "alloc_count.hpp"
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/string_view.hpp>
using namespace h;
using um2::String;
using um2::StringView;

struct B {
  static constexpr int NS = 3;
  alignas(String) unsigned char mem[NS][sizeof(String)];
  std::string buf;      // text the view points into
  StringView w;
  long base;
  String & s(int i) { return *reinterpret_cast<String *>(mem[i]); }
  B() { for (int i = 0; i < NS; ++i) new (mem[i]) String(); base = g_out; }
  void put(int a, String && x)
  {
    String t(um2::move(x));
    s(a).~String();
    new (mem[a]) String(um2::move(t));
  }
  static std::string text(Tok & t)
  {
    auto v = t.vi();
    std::string r;
    for (int c : v) r.push_back(static_cast<char>(c));
    return r;
  }
  static std::string codes(char const * p, size_t n)
  {
    return arrn(static_cast<long long>(n), [&](long long i) { return std::to_string(static_cast<int>(static_cast<unsigned char>(p[i]))); });
  }
  static StringView sv(std::string const & x) { return x.empty() ? StringView(x.data(), uint64_t(0)) : StringView(x.data(), x.size()); }
  static int sg(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
  static long np(uint64_t x) { return x == StringView::npos ? -1 : static_cast<long>(x); }
  static long ns(int x) { return x == String::npos ? -1 : x; }
  template <class A, class C> static std::vector<long> cmps(A const & l, C const & r, int c)
  {
    return {l == r, l != r, l < r, l <= r, l > r, l >= r, sg(c)};
  }
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    std::vector<long> res;
    long leak = 0;
    if (k == "cstr") { int a = t.i(); auto x = text(t); put(a, String(x.c_str())); }
    else if (k == "ctorview") { int a = t.i(); auto x = text(t); put(a, String(sv(x))); }
    else if (k == "setcstr") { int a = t.i(); auto x = text(t); s(a) = x.c_str(); }
    else if (k == "assignview") { int a = t.i(); auto x = text(t); s(a).assign(sv(x)); }
    else if (k == "copy") { int a = t.i(), b = t.i(); put(a, String(static_cast<String const &>(s(b)))); }
    else if (k == "move") { int a = t.i(), b = t.i(); put(a, String(um2::move(s(b)))); }
    else if (k == "asgn") { int a = t.i(), b = t.i(); s(a) = static_cast<String const &>(s(b)); }
    else if (k == "masgn") { int a = t.i(), b = t.i(); s(a) = um2::move(s(b)); }
    else if (k == "substr") { int a = t.i(), b = t.i(), p = t.i(), n = t.i(); put(a, n >= 100000 ? s(b).substr(p) : s(b).substr(p, n)); }
    else if (k == "subctor") { int a = t.i(), b = t.i(), p = t.i(), n = t.i(); put(a, n >= 100000 ? String(s(b), p) : String(s(b), p, n)); }
    else if (k == "assignsub") { int a = t.i(), b = t.i(), p = t.i(), n = t.i(); s(a).assign(StringView(s(b).data() + p, static_cast<uint64_t>(n))); }
    else if (k == "addc") { int a = t.i(); auto x = text(t); s(a) += x.c_str(); }
    else if (k == "app") { int a = t.i(); auto x = text(t); std::string y = x + "zzz"; s(a).append(y.c_str(), static_cast<int>(x.size())); }
    else if (k == "adds") { int a = t.i(), b = t.i(); s(a) += s(b); }
    else if (k == "plus") { int a = t.i(), b = t.i(), c = t.i(); put(a, s(b) + s(c)); }
    else if (k == "plusc") { int a = t.i(), b = t.i(); auto x = text(t); put(a, s(b) + x.c_str()); }
    else if (k == "front") { int a = t.i(); s(a).front() = static_cast<char>(t.i()); }
    else if (k == "back") { int a = t.i(); s(a).back() = static_cast<char>(t.i()); }
    else if (k == "int") { int a = t.i(); put(a, String(t.i())); }
    else if (k == "wide") { int a = t.i(); bool neg = t.i(); long hi = t.i(), lo = t.i(); long v = hi * 1000000000L + lo; put(a, String(static_cast<int64_t>(neg ? -v : v))); }
    else if (k == "dbl") { int a = t.i(); put(a, String(t.i() / 64.0)); }
    else if (k == "flt") { int a = t.i(); put(a, String(static_cast<float>(t.i()) / 64.0F)); }
    else if (k == "cmp") {
      String const & a = s(t.i()); String const & b = s(t.i());
      res = cmps(a, b, a.compare(b));
      StringView va(a), vb(b);
      auto r2 = cmps(va, vb, va.compare(vb));
      res.insert(res.end(), r2.begin(), r2.end());
    }
    else if (k == "cmpc") { String const & a = s(t.i()); auto x = text(t); res = {sg(a.compare(sv(x))), sg(a.compare(x.c_str()))}; }
    else if (k == "pre") {
      String const & a = s(t.i()); auto x = text(t); char c = static_cast<char>(t.i());
      res = {a.starts_with(sv(x)), a.starts_with(x.c_str()), a.ends_with(sv(x)), a.ends_with(x.c_str()), a.starts_with(c), a.ends_with(c)};
    }
    else if (k == "flast") { String const & a = s(t.i()); char c = static_cast<char>(t.i()); int p = t.i(); res = {ns(a.find_last_of(c, p)), ns(a.find_last_of(c))}; }
    else if (k == "view") { buf = text(t); buf.reserve(buf.size() + 1); w = buf.empty() ? StringView() : StringView(buf.data(), buf.data() + buf.size()); }
    else if (k == "vprefix") { w.remove_prefix(static_cast<uint64_t>(t.i())); }
    else if (k == "vtrim") { w.removeLeadingSpaces(); }
    else if (k == "vtok") { char d = static_cast<char>(t.i()); auto x = d == ' ' ? w.getTokenAndShrink() : w.getTokenAndShrink(d); for (uint64_t i = 0; i < x.size(); ++i) res.push_back(x.data()[i]); }
    else if (k == "vsub") { int p = t.i(), n = t.i(); auto x = w.substr(static_cast<uint64_t>(p), static_cast<uint64_t>(n)); for (uint64_t i = 0; i < x.size(); ++i) res.push_back(x.data()[i]); }
    else if (k == "vfind") { char c = static_cast<char>(t.i()); auto p = static_cast<uint64_t>(t.i());
      res = {np(w.find_first_of(c, p)), np(w.find_first_not_of(c, p)), np(w.find_last_of(c, p)), np(w.find_last_of(c)), np(w.find_first_of(c)), np(w.find_first_not_of(c))}; }
    else if (k == "vfinds") { auto x = text(t); auto p = static_cast<uint64_t>(t.i()); auto n = static_cast<uint64_t>(t.i());
      res = {np(w.find_first_of(sv(x), p)), np(w.find_first_of(x.c_str(), p)), np(w.find_first_of(x.c_str(), p, n)), np(w.find_first_of(sv(x)))}; }
    else if (k == "vcmp") { auto x = text(t); int p = t.i(); StringView v = sv(x);
      res = cmps(w, v, w.compare(v));
      for (long y : {long(w.starts_with(v)), long(w.starts_with(x.c_str())), long(w.ends_with(v)), long(w.ends_with(x.c_str())), long(w.front()), long(w.back()), long(w[p % static_cast<int>(w.size())])}) res.push_back(y); }
    else if (k == "end") {
      for (int i = 0; i < NS; ++i) s(i).~String();
      w = StringView(); buf = std::string(); buf.shrink_to_fit();
      res = {}; res.shrink_to_fit();
      leak = g_out - base - (k.capacity() > 15 ? 1 : 0);
      for (int i = 0; i < NS; ++i) new (mem[i]) String();
    }
    else _exit(99);
    std::string why;
    for (int i = 0; i < NS; ++i) {
      String const & c = s(i);
      if (c.data()[c.size()] != '\0') why += "not terminated ";
      if (c.capacity() < c.size()) why += "capacity ";
      if (c.empty() != (c.size() == 0)) why += "empty ";
      if (c.end() - c.begin() != c.size() || c.cbegin() != c.begin() || c.cend() != c.end() || c.begin() != c.data()) why += "iterators ";
      if (!c.empty() && (&c.front() != c.data() || &c.back() != c.data() + c.size() - 1)) why += "ends ";
    }
    Obj o;
    o.raw("s", arrn(NS, [&](long i) { String const & c = s(static_cast<int>(i)); return codes(c.data(), static_cast<size_t>(c.size())); }));
    o.raw("w", codes(w.data(), w.size()));
    o.raw("res", ints(res));
    o.b("ok", why.empty());
    o.str("why", why);
    o.i("leak", leak);
    return o.done();
  }
};
int main(int argc, char ** argv) { return drive<B>(argc, argv); }
