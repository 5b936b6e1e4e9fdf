// Shared driver of the conformance harnesses.  Reads behaviours (one operation per line),
// runs each behaviour in a child process on the real code and writes one JSON record per
// operation: "<behaviour> <index> <json>".  A child that ends early is recorded as
// "<behaviour> C <reason>".
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <vector>

namespace h
{

inline std::string
unhex(std::string const & s)
{
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) {
    r.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
  }
  return r;
}

// The operation being executed: whitespace separated tokens.
struct Tok {
  std::vector<std::string> t;
  size_t p = 0;
  std::string
  w()
  {
    if (p >= t.size()) {
      fprintf(stderr, "harness: missing token\n");
      _exit(99);
    }
    return t[p++];
  }
  int
  i()
  {
    return std::atoi(w().c_str());
  }
  long long
  ll()
  {
    return std::atoll(w().c_str());
  }
  double
  d()
  {
    return std::strtod(w().c_str(), nullptr);
  }
  // strings are written as x<hex>
  std::string
  s()
  {
    return unhex(w());
  }
  std::vector<int>
  vi()
  {
    std::vector<int> v(static_cast<size_t>(i()));
    for (auto & x : v) x = i();
    return v;
  }
  std::vector<double>
  vd()
  {
    std::vector<double> v(static_cast<size_t>(i()));
    for (auto & x : v) x = d();
    return v;
  }
};

// ---- JSON output -----------------------------------------------------------
inline std::string
jstr(std::string const & s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

struct Obj {
  std::string s;
  Obj &
  raw(char const * k, std::string const & v)
  {
    if (!s.empty()) s += ",";
    s += "\"";
    s += k;
    s += "\":" + v;
    return *this;
  }
  Obj &
  i(char const * k, long long v)
  {
    return raw(k, std::to_string(v));
  }
  Obj &
  b(char const * k, bool v)
  {
    return raw(k, v ? "true" : "false");
  }
  Obj &
  str(char const * k, std::string const & v)
  {
    return raw(k, jstr(v));
  }
  std::string
  done() const
  {
    return "{" + s + "}";
  }
};

template <class C, class F>
std::string
arr(C const & c, F f)
{
  std::string s = "[";
  bool first = true;
  for (auto const & x : c) {
    if (!first) s += ",";
    first = false;
    s += f(x);
  }
  return s + "]";
}

template <class F>
std::string
arrn(long long n, F f)
{
  std::string s = "[";
  for (long long k = 0; k < n; ++k) {
    if (k) s += ",";
    s += f(k);
  }
  return s + "]";
}

template <class C>
std::string
ints(C const & c)
{
  return arr(c, [](auto const & x) { return std::to_string(static_cast<long long>(x)); });
}

// Fixed point projection of a double: round(x * scale), saturating far outside 32 bits.
inline long long
fx(double x, double scale)
{
  if (std::isnan(x)) return -2000000011LL;
  double const v = x * scale;
  if (v > 2000000000.0) return 2000000007LL;
  if (v < -2000000000.0) return -2000000007LL;
  return std::llround(v);
}

inline std::string
sfx(double x, double scale)
{
  return std::to_string(fx(x, scale));
}

// Text written to stdout and stderr by the library since the last call.
struct Capture {
  int fo = -1, fe = -1;
  long po = 0, pe = 0;
  static std::string
  rd(int fd, long & pos)
  {
    std::string r;
    char buf[4096];
    while (true) {
      ssize_t const n = pread(fd, buf, sizeof buf, pos);
      if (n <= 0) break;
      r.append(buf, static_cast<size_t>(n));
      pos += n;
    }
    return r;
  }
  std::string
  out()
  {
    fflush(stdout);
    return rd(fo, po);
  }
  std::string
  err()
  {
    fflush(stderr);
    return rd(fe, pe);
  }
};
inline Capture cap;

inline int
countSub(std::string const & s, std::string const & x)
{
  int n = 0;
  for (size_t p = s.find(x); p != std::string::npos; p = s.find(x, p + x.size())) ++n;
  return n;
}

// B must offer:  std::string step(Tok &)  returning a JSON object.
template <class B>
int
drive(int argc, char ** argv, unsigned timeout_s = 40, std::function<void()> once = {})
{
  if (argc < 3) return 98;
  std::ifstream in(argv[1]);
  int const out = open(argv[2], O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
  if (!in || out < 0) return 98;
  if (once) once();
  std::string line;
  std::vector<Tok> ops;
  long id = -1;
  int hangs = 0; // after two behaviours that do not end the rest is left out
  auto flush = [&]() {
    if (id < 0) return;
    if (hangs > 1) {
      std::string const r = std::to_string(id) + " S left out\n";
      if (write(out, r.data(), r.size()) < 0) _exit(97);
      return;
    }
    fflush(stdout);
    fflush(stderr);
    char const * fno = "cap.out";
    char const * fne = "cap.err";
    int const co = open(fno, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    int const ce = open(fne, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    pid_t const pid = fork();
    if (pid == 0) {
      alarm(timeout_s);
      dup2(co, 1);
      dup2(ce, 2);
      cap.fo = co;
      cap.fe = ce;
      mkdir("d", 0755);
      auto b = std::make_unique<B>();
      for (size_t k = 0; k < ops.size(); ++k) {
        std::string r = std::to_string(id) + " " + std::to_string(k) + " " + b->step(ops[k]) + "\n";
        if (write(out, r.data(), r.size()) < 0) _exit(97);
      }
      b.reset();
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      std::string why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                        : "exit " + std::to_string(WEXITSTATUS(st));
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
      Capture c;
      c.fo = co;
      c.fe = ce;
      std::string txt = Capture::rd(co, c.po) + Capture::rd(ce, c.pe);
      size_t p = txt.find("Assertion");
      if (p == std::string::npos) p = txt.find("ERROR: AddressSanitizer");
      if (p == std::string::npos) p = txt.size() > 200 ? txt.size() - 200 : 0;
      txt = txt.substr(p, 200);
      for (auto & ch : txt) {
        if (ch == '\n' || static_cast<unsigned char>(ch) > 126 || ch < 32) ch = ' ';
      }
      std::string r = std::to_string(id) + " C " + why + " " + txt + "\n";
      if (write(out, r.data(), r.size()) < 0) _exit(97);
    }
    close(co);
    close(ce);
  };
  while (std::getline(in, line)) {
    if (line.rfind("#B ", 0) == 0 || line.rfind("#E", 0) == 0) {
      flush();
      ops.clear();
      id = line[1] == 'B' ? std::atol(line.c_str() + 3) : -1;
      continue;
    }
    Tok t;
    std::istringstream ss(line);
    std::string x;
    while (ss >> x) t.t.push_back(x);
    ops.push_back(t);
  }
  flush();
  return 0;
}

} // namespace h
