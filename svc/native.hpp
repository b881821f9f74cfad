// bounded stand-in / replay support: seeded generator, steering constants, failure report
#ifndef SVC_NATIVE_HPP
#define SVC_NATIVE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <chrono>
#include <limits>
#include <algorithm>
#include <set>
namespace svc {
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {}
  std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  std::uint64_t operator()() { return next(); }
  long long range(long long lo, long long hi) { return lo + (long long)((next() >> 8) % (std::uint64_t)(hi - lo + 1)); }
  bool chance(int n) { return next() % n == 0; }
};
inline std::vector<long long>& consts() {
  static std::vector<long long> c = [] {
    std::vector<long long> v; const char* p = std::getenv("SVC_CONSTS");
    if (p) { std::ifstream f(p); std::string l; while (std::getline(f, l)) v.push_back(l[0] == '-' ? std::strtoll(l.c_str(), 0, 10) : (long long)std::strtoull(l.c_str(), 0, 10)); }
    if (v.empty()) v.push_back(0);
    return v; }();
  return c;
}
template<class T> T any_int(Rng& r) {
  switch (r.range(0, 7)) {
    case 0: return (T)r.range(-3, 3);
    case 1: return std::numeric_limits<T>::min() + (T)r.range(0, 2);
    case 2: return std::numeric_limits<T>::max() - (T)r.range(0, 2);
    case 3: { long long k = consts()[r.next() % consts().size()]; return (T)((unsigned long long)k + (unsigned long long)r.range(-1, 1)); }
    case 4: return (T)((std::uint64_t)1 << r.range(0, 63));
    case 5: return (T)(((std::uint64_t)1 << r.range(0, 63)) - 1);
    case 6: return (T)(r.next() >> r.range(0, 63));
    default: return (T)r.next();
  }
}
inline int gen_len(Rng& r, int big = 300) {
  switch (r.range(0, 9)) {
    case 0: return (int)r.range(0, 2);
    case 1: case 2: case 3: case 4: return (int)r.range(0, 9);
    case 5: case 6: return (int)r.range(0, 20);
    case 7: { int k = (1 << r.range(0, 8)) + (int)r.range(-1, 1); return k < 0 ? 0 : k > big ? big : k; }
    case 8: { long long k = consts()[r.next() % consts().size()]; if (k >= 0 && k <= big) return (int)k + (int)r.range(0, 1); return (int)r.range(0, 5); }
    default: return (int)r.range(0, r.chance(4) ? big : 40);
  }
}
// exact heap allocation so that the address sanitizer sees every out-of-range access
template<class T> struct Buf {
  T* p; std::size_t n;
  Buf() : p(new T[0]), n(0) {}
  explicit Buf(std::vector<T> const& v) : p(new T[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), p); }
  Buf(Buf const&) = delete; Buf& operator=(Buf const&) = delete;
  ~Buf() { delete[] p; }
  T* begin() { return p; } T* end() { return p + n; }
  T const* cb() const { return p; } T const* ce() const { return p + n; }
};
template<class T> std::vector<T> gen_vec(Rng& r, int n, int mode = -1) {
  std::vector<T> v(n);
  if (mode < 0) mode = (int)r.range(0, 5);
  long long base = r.chance(3) ? (long long)any_int<T>(r) : 0;
  for (auto& x : v) switch (mode) {
    case 0: x = (T)r.range(0, 1); break;
    case 1: x = (T)r.range(0, 3); break;
    case 2: x = any_int<T>(r); break;
    case 3: x = (T)((unsigned long long)base + (unsigned long long)r.range(0, 2)); break;
    case 4: x = (T)r.range(-20, 20); break;
    default: x = r.chance(12) ? (T)1 : (T)0; break;
  }
  return v;
}
template<class T> std::string show(std::vector<T> const& v) {
  std::ostringstream o; o << "[";
  for (std::size_t i = 0; i < v.size(); ++i) { if (i) o << ","; if (i > 60) { o << "...(" << v.size() << ")"; break; } o << (long long)v[i]; }
  o << "]"; return o.str();
}
inline void put(std::ostringstream&) {}
template<class T, class... U> void put(std::ostringstream& o, T const& t, U const&... u) { o << " " << t; put(o, u...); }
template<class... U> [[noreturn]] void fail(const char* what, U const&... u) {
  std::ostringstream o; put(o, u...);
  std::printf("FAIL %s :%s\n", what, o.str().c_str()); std::fflush(stdout); std::_Exit(1);
}
struct Run {
  Rng r; std::chrono::steady_clock::time_point end; unsigned long long count = 0; std::set<std::uint64_t> seen;
  Run(int argc, char** argv) : r(argc > 1 ? std::strtoull(argv[1], 0, 10) : 1),
    end(std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(1000 * (argc > 2 ? std::atof(argv[2]) : 5)))) {}
  bool more() { ++count; return (count & 15) || std::chrono::steady_clock::now() < end; }
  void note(std::uint64_t h) { if (seen.size() < 2000000) seen.insert(h); }
  int done() { std::printf("OK evaluations=%llu distinct=%zu\n", count, seen.size()); return 0; }
};
template<class T> std::uint64_t hash(std::vector<T> const& v, std::uint64_t h = 1469598103934665603ull) {
  for (auto x : v) { h ^= (std::uint64_t)x; h *= 1099511628211ull; h ^= h >> 29; } return h ^ (v.size() << 56);
}
}
#define CK(cond, ...) do { if (!(cond)) ::svc::fail(__VA_ARGS__); } while (0)
#endif
