// Text to numbers, layouts and labels; colours.
#include "h.hpp"
#include <um2.hpp>
#include <um2/common/color.hpp>
#include <um2/common/string_to_lattice.hpp>
using namespace h;
static std::string codes(std::string const & s) { return arr(s, [](char c) { return std::to_string(static_cast<int>(static_cast<unsigned char>(c))); }); }
template <class T> std::string val(T x) {
  if constexpr (std::is_floating_point_v<T>) return sfx(static_cast<double>(x), 1000); else return codes(std::to_string(x));
}
template <class T> std::string lay(std::string const & s, char d, bool dflt) {
  um2::String const str(s.c_str());
  auto const r = dflt ? um2::stringToLattice<T>(str) : um2::stringToLattice<T>(str, d);
  return Obj().raw("r", arrn(r.size(), [&](long i) { auto const & row = r[static_cast<Int>(i)]; return arrn(row.size(), [&](long j) { return val<T>(row[static_cast<Int>(j)]); }); })).done();
}
template <class T> std::string num(std::string const & s) {
  std::unique_ptr<char[]> b(new char[s.size() + 1]); std::memcpy(b.get(), s.c_str(), s.size() + 1);
  char * e = nullptr; T const v = um2::strto<T>(b.get(), &e);
  return Obj().raw("v", val<T>(v)).i("n", e - b.get()).done();
}
struct B {
  std::string pre; bool wide = false; um2::String u; std::string s;
  std::string step(Tok & t) {
    auto const k = t.w();
    if (k == "lay") {
      auto const f = t.w(); int const d = t.i(); auto const x = t.s(); char const c = static_cast<char>(d); bool const df = d == ' ';
      if (f == "i") return lay<int32_t>(x, c, df);
      if (f == "l") return lay<int64_t>(x, c, df);
      if (f == "u") return lay<uint32_t>(x, c, df);
      if (f == "ul") return lay<uint64_t>(x, c, df);
      return f == "f" ? lay<float>(x, c, df) : lay<double>(x, c, df);
    }
    if (k == "num") {
      auto const f = t.w(); auto const x = t.s();
      if (f == "i") return num<int32_t>(x);
      if (f == "l") return num<int64_t>(x);
      if (f == "u") return num<uint32_t>(x);
      if (f == "ul") return num<uint64_t>(x);
      return f == "f" ? num<float>(x) : num<double>(x);
    }
    if (k == "col") {
      auto const f = t.w(); int c[4], e[4]; for (auto & x : c) x = t.i(); for (auto & x : e) x = t.i();
      um2::Color q;
      if (f == "i") q = um2::Color(c[0], c[1], c[2], c[3]);
      else if (f == "f") q = um2::Color(static_cast<float>(c[0]) / 1000, static_cast<float>(c[1]) / 1000, static_cast<float>(c[2]) / 1000, static_cast<float>(c[3]) / 1000);
      else q = um2::Color(c[0] / 1000., c[1] / 1000., c[2] / 1000., c[3] / 1000.);
      um2::Color const z(e[0], e[1], e[2], e[3]);
      return Obj().raw("c", ints(std::vector<int>{q.r(), q.g(), q.b(), q.a()})).b("same", q == z && !(q != z)).done();
    }
    if (k == "idx") { wide = false; u = um2::mpact::getASCIINumber(t.i()); }
    else if (k == "lab") { wide = t.i() != 0; auto const x = t.s(); u = um2::String(x.c_str()); s = x; }
    else { int const m = t.i(); for (int i = 0; i < m; ++i) { if (wide) um2::mpact::incrementASCIINumber(s); else um2::mpact::incrementASCIINumber(u); } }
    return Obj().raw("t", codes(wide ? s : std::string(u.data(), static_cast<size_t>(u.size())))).done();
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
