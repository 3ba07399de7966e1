// Reading commands and writing trace events.
//
// Input: one command per line, tokens separated by blanks, grouped in
// "SESSION n" ... "END".  Output: "S n", one "E {json}" per recorded event,
// "D n".  Doubles are written as the two signed 32-bit halves of their bits.
#pragma once
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace trace {

class Ev {
 public:
  explicit Ev(const std::string& op) { s_ = "{\"op\":" + quote(op); }
  static std::string quote(const std::string& x) {
    std::string r = "\"";
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += static_cast<char>(c);
      } else if (c < 32 || c > 126) {
        char b[8];
        std::snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += static_cast<char>(c);
      }
    }
    return r + "\"";
  }
  static std::string num(double x) {
    uint64_t b;
    std::memcpy(&b, &x, 8);
    char t[40];
    std::snprintf(t, sizeof t, "[%d,%d]", static_cast<int32_t>(b >> 32),
                  static_cast<int32_t>(b & 0xffffffffu));
    return t;
  }
  static std::string num(const std::complex<double>& c) {
    return "[" + num(c.real()) + "," + num(c.imag()) + "]";
  }
  Ev& raw(const char* k, const std::string& v) {
    s_ += ",\"";
    s_ += k;
    s_ += "\":" + v;
    return *this;
  }
  Ev& d(const char* k, double x) { return raw(k, num(x)); }
  Ev& c(const char* k, const std::complex<double>& x) { return raw(k, num(x)); }
  Ev& i(const char* k, long long x) { return raw(k, std::to_string(x)); }
  Ev& b(const char* k, bool x) { return raw(k, x ? "true" : "false"); }
  Ev& s(const char* k, const std::string& x) { return raw(k, quote(x)); }
  template <typename It>
  static std::string list(It b, It e) {
    std::string r = "[";
    for (bool first = true; b != e; ++b, first = false) {
      if (!first) r += ",";
      r += item(*b);
    }
    return r + "]";
  }
  template <typename V>
  Ev& v(const char* k, const V& x) {
    return raw(k, list(x.begin(), x.end()));
  }
  template <typename V>
  static std::string item(const std::vector<V>& x) {
    return list(x.begin(), x.end());
  }
  static std::string item(double x) { return num(x); }
  static std::string item(const std::complex<double>& x) { return num(x); }
  static std::string item(const std::string& x) { return quote(x); }
  static std::string item(bool x) { return x ? "true" : "false"; }
  static std::string item(int x) { return std::to_string(x); }
  static std::string item(unsigned x) { return std::to_string(x); }
  static std::string item(long x) { return std::to_string(x); }
  static std::string item(long long x) { return std::to_string(x); }
  static std::string item(unsigned long x) { return std::to_string(x); }
  static std::string item(unsigned char x) { return std::to_string(int(x)); }
  static std::string item(signed char x) { return std::to_string(int(x)); }
  static std::string item(unsigned short x) { return std::to_string(int(x)); }
  std::string str() const { return s_ + "}"; }

 private:
  std::string s_;
};

// One command line.
class Cmd {
 public:
  explicit Cmd(const std::string& line) {
    std::istringstream is(line);
    std::string t;
    while (is >> t) tok_.push_back(t);
  }
  bool empty() const { return tok_.empty(); }
  const std::string& op() const { return tok_[0]; }
  bool more() const { return pos_ < tok_.size(); }
  size_t left() const { return tok_.size() - pos_; }
  std::string str() {
    if (pos_ >= tok_.size()) {
      std::fprintf(stderr, "missing argument of %s\n", tok_[0].c_str());
      std::exit(97);
    }
    return tok_[pos_++];
  }
  double d() { return std::strtod(str().c_str(), nullptr); }
  long long i() { return std::strtoll(str().c_str(), nullptr, 10); }
  std::vector<double> ds() {
    std::vector<double> r(static_cast<size_t>(i()));
    for (auto& x : r) x = d();
    return r;
  }
  std::vector<long long> is() {
    std::vector<long long> r(static_cast<size_t>(i()));
    for (auto& x : r) x = i();
    return r;
  }
  std::vector<std::string> ss() {
    std::vector<std::string> r(static_cast<size_t>(i()));
    for (auto& x : r) x = str();
    return r;
  }

 private:
  std::vector<std::string> tok_;
  size_t pos_{1};
};

inline void emit(const Ev& e) {
  std::string s = "E " + e.str() + "\n";
  std::fwrite(s.data(), 1, s.size(), stdout);
}

// Runs f(cmd) for every command; reset() at the beginning of every session.
template <typename Reset, typename F>
int loop(Reset reset, F f) {
  static char buf[1 << 16];
  std::setvbuf(stdout, buf, _IOFBF, sizeof buf);
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.compare(0, 8, "SESSION ") == 0) {
      reset();
      std::printf("S %s\n", line.c_str() + 8);
      std::fflush(stdout);
      std::string id = line.substr(8);
      while (std::getline(std::cin, line) && line != "END") {
        Cmd c(line);
        if (c.empty()) continue;
        f(c);
        std::fflush(stdout);
      }
      std::printf("D %s\n", id.c_str());
      std::fflush(stdout);
    }
  }
  return 0;
}

// Kind of the exception being handled.
inline std::string kind() {
  try {
    throw;
  } catch (const std::invalid_argument&) {
    return "invalid_argument";
  } catch (const std::out_of_range&) {
    return "out_of_range";
  } catch (const std::length_error&) {
    return "length_error";
  } catch (const std::runtime_error&) {
    return "runtime_error";
  } catch (const std::logic_error&) {
    return "logic_error";
  } catch (const std::exception&) {
    return "exception";
  } catch (...) {
    return "unknown";
  }
}

}  // namespace trace
