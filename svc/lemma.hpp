// contract lemmas: pre- and postconditions of the real functions written next to a call of them.
// For the prover ANY* are universally quantified values; natively they are read from a generator or a replayed counterexample.
#ifndef SVC_LEMMA_HPP
#define SVC_LEMMA_HPP
#include <cstdint>
#include <cstddef>
#include <type_traits>
#ifndef SVC_NATIVE
extern "C" {
  bool svc_any1(char const*); std::uint8_t svc_any8(char const*); std::uint16_t svc_any16(char const*); std::uint32_t svc_any32(char const*); std::uint64_t svc_any64(char const*);
  float svc_anyf(char const*); double svc_anyd(char const*); long double svc_anyl(char const*);
  void svc_assume(bool); void svc_assert(bool, char const*); void svc_throws(bool);
}
#define LEMMA(n) extern "C" void lemma_##n()
#else
#include "native.hpp"
#include <map>
extern "C" {
  bool svc_any1(char const*); std::uint8_t svc_any8(char const*); std::uint16_t svc_any16(char const*); std::uint32_t svc_any32(char const*); std::uint64_t svc_any64(char const*);
  float svc_anyf(char const*); double svc_anyd(char const*); long double svc_anyl(char const*);
  void svc_assume(bool); void svc_assert(bool, char const*); void svc_throws(bool);
}
namespace svc { struct Lem { char const* name; void (*f)(); }; inline std::vector<Lem>& lems() { static std::vector<Lem> v; return v; } struct Reg { Reg(char const* n, void (*f)()) { lems().push_back(Lem{n, f}); } };
extern bool lo_hi; extern long long lo_v, hi_v; }
#define LEMMA(n) extern "C" void lemma_##n(); static ::svc::Reg reg_##n(#n, &lemma_##n); extern "C" void lemma_##n()
#endif
template<std::size_t N, bool I> struct svc_any_s;
template<> struct svc_any_s<1, true> { static std::uint8_t f(char const* n) { return svc_any8(n); } };
template<> struct svc_any_s<2, true> { static std::uint16_t f(char const* n) { return svc_any16(n); } };
template<> struct svc_any_s<4, true> { static std::uint32_t f(char const* n) { return svc_any32(n); } };
template<> struct svc_any_s<8, true> { static std::uint64_t f(char const* n) { return svc_any64(n); } };
template<> struct svc_any_s<4, false> { static float f(char const* n) { return svc_anyf(n); } };
template<> struct svc_any_s<8, false> { static double f(char const* n) { return svc_anyd(n); } };
template<> struct svc_any_s<16, false> { static long double f(char const* n) { return svc_anyl(n); } };
template<class T> inline T svc_any(char const* n) { return (T)svc_any_s<sizeof(T), !std::is_floating_point<T>::value>::f(n); }
template<> inline bool svc_any<bool>(char const* n) { return svc_any1(n); }
#define ANY(T, x) T x = svc_any<T>(#x)
#ifndef SVC_NATIVE
#define ANY_IN(T, x, lo, hi) T x = svc_any<T>(#x); svc_assume(x >= (lo)); svc_assume(x <= (hi))
#else
template<class T> inline T svc_any_in(char const* n, long long lo, long long hi) { svc::lo_hi = true; svc::lo_v = lo; svc::hi_v = hi; T r = svc_any<T>(n); svc::lo_hi = false; return r; }
#define ANY_IN(T, x, lo, hi) T x = svc_any_in<T>(#x, (long long)(lo), (long long)(hi)); svc_assume(x >= (lo)); svc_assume(x <= (hi))
#endif
#define ANY_ARR(T, x, n) T x[n]; for (std::size_t svc_i = 0; svc_i < (n); ++svc_i) x[svc_i] = svc_any<T>(#x)
#define ANY_ARR_IN(T, x, n, lo, hi) T x[n]; for (std::size_t svc_i = 0; svc_i < (n); ++svc_i) { ANY_IN(T, svc_t, lo, hi); x[svc_i] = svc_t; }
#define REQUIRE(c) svc_assume(c)
#define ENSURE(c, name) svc_assert((c), name)
#define THROWS_IFF(c) svc_throws(c)
#endif
