// The logger: settings, messages, streams and exits.
#include "h.hpp"
#include <um2.hpp>
#include <um2/common/logger.hpp>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <time.h>
#include <variant>
using namespace h;
namespace lg = um2::logger;
static long skew = 0; // seconds
extern "C" int clock_gettime(clockid_t c, struct timespec * t)
{
  long const r = syscall(SYS_clock_gettime, c, t);
  if (r == 0) t->tv_sec += skew;
  return static_cast<int>(r);
}
using Arg = std::variant<char const *, um2::String, um2::StringView, char, int8_t, int32_t, uint32_t, int64_t, uint64_t, double, float, bool>;
struct Text { std::string kind, s; };
static Arg conv(Text const & a)
{
  auto const & s = a.s;
  if (a.kind == "cs") return s.c_str();
  if (a.kind == "str") return um2::String(s.c_str());
  if (a.kind == "sv") return um2::StringView(s.data(), static_cast<uint64_t>(s.size()));
  if (a.kind == "ch") return s[0];
  if (a.kind == "i8") return static_cast<int8_t>(std::stoi(s));
  if (a.kind == "i32") return static_cast<int32_t>(std::stol(s));
  if (a.kind == "u32") return static_cast<uint32_t>(std::stoul(s));
  if (a.kind == "i64") return static_cast<int64_t>(std::stoll(s));
  if (a.kind == "u64") return static_cast<uint64_t>(std::stoull(s));
  if (a.kind == "f64") return std::stod(s);
  if (a.kind == "f32") return std::stof(s);
  return s == "true";
}
struct Msg { int level, macro; std::vector<Text> a; };
template <class... A> static void put(int level, int macro, A const &... a)
{
  if (macro) {
    if (level == 1) { LOG_ERROR(a...); }
    if (level == 2) { LOG_WARN(a...); }
    if (level == 3) { LOG_INFO(a...); }
    if (level == 4) { LOG_DEBUG(a...); }
  } else {
    if (level == 1) lg::error(a...);
    if (level == 2) lg::warn(a...);
    if (level == 3) lg::info(a...);
    if (level == 4) lg::debug(a...);
  }
}
static void say(Msg const & m)
{
  std::vector<Arg> v; for (auto const & a : m.a) v.push_back(conv(a));
  if (v.size() == 1) std::visit([&](auto const & x) { put(m.level, m.macro, x); }, v[0]);
  else if (v.size() == 2) std::visit([&](auto const & x, auto const & y) { put(m.level, m.macro, x, y); }, v[0], v[1]);
  else std::visit([&](auto const & x, auto const & y) { put(m.level, m.macro, "lit ", x, y, std::get<0>(v[2])); }, v[0], v[1]);
}
// a line without its escape sequences
static std::string line(std::string const & s)
{
  std::string t, first, last; int n = 0; bool lead = false;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\033') {
      size_t const e = s.find('m', i);
      std::string const q = s.substr(i + 1, e == std::string::npos ? e : e - i);
      if (i == 0) { lead = true; first = q; }
      last = i + q.size() + 1 == s.size() ? q : "";
      ++n; i += q.size();
    } else t += s[i];
  }
  Obj o; o.str("t", t).str("pre", lead ? first : "").str("end", last).i("n", n);
  return o.done();
}
static std::string lines(std::string const & s)
{
  std::vector<std::string> v; std::string x;
  for (char c : s) if (c == '\n') { v.push_back(x); x.clear(); } else x += c;
  if (!x.empty()) v.push_back(x + "<no newline>");
  return arr(v, line);
}
struct B {
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    Obj o;
    if (k == "level") { int const v = t.i(); if (t.i()) um2::settings::logger::level = v; else lg::level = v; }
    else if (k == "flag") {
      std::string const f = t.w(); bool const v = t.i() != 0; int const s = t.i();
      if (f == "ts") (s ? um2::settings::logger::timestamped : lg::timestamped) = v;
      if (f == "col") (s ? um2::settings::logger::colorized : lg::colorized) = v;
      if (f == "ex") (s ? um2::settings::logger::exit_on_error : lg::exit_on_error) = v;
    }
    else if (k == "restore") lg::reset();
    else if (k == "age") skew += t.i();
    else if (k == "init") um2::initialize();
    else if (k == "fini") um2::finalize();
    else if (k == "say") {
      int const n = t.i();
      std::vector<Msg> v;
      for (int i = 0; i < n; ++i) {
        Msg m; m.level = t.i(); m.macro = t.i();
        int const q = t.i();
        for (int j = 0; j < q; ++j) { std::string kd = t.w(); m.a.push_back({kd, t.s()}); }
        v.push_back(m);
      }
      // in a child first: an error may end the process
      cap.out(); cap.err();
      pid_t const p = fork();
      if (p == 0) { for (auto const & m : v) say(m); fflush(stdout); _exit(77); }
      int st = 0; waitpid(p, &st, 0);
      int const code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
      std::string const co = cap.out(), ce = cap.err();
      o.i("exit", code).raw("o", lines(co)).raw("e", lines(ce)).i("max", MAX_LOG_LEVEL);
      if (code == 77) {
        for (auto const & m : v) say(m);
        cap.out(); cap.err();
        auto const sv = lg::getLastMessage();
        o.raw("last", line(std::string(sv.data(), static_cast<size_t>(sv.size()))));
      }
      return o.done();
    }
    else _exit(99);
    std::string const co = cap.out(), ce = cap.err();
    o.raw("o", lines(co)).raw("e", lines(ce));
    return o.i("lvl", lg::level).i("ts", lg::timestamped).i("col", lg::colorized).i("ex", lg::exit_on_error).i("slvl", um2::settings::logger::level).done();
  }
};
int main(int c, char ** v) { return drive<B>(c, v); }
