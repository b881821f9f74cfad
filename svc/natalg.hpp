// stand-in support for the iterator algorithms: iterators of each category, arbitrary predicates and orders
#ifndef SVC_NATALG_HPP
#define SVC_NATALG_HPP
#include <svc_iters.hpp>
#include "native.hpp"
#include <numeric>
#include <functional>
static std::uint64_t g_mask = 0;           // arbitrary predicate: a table over the low six bits
static int g_key[32];                      // arbitrary weak order: a key per low five bits
static int g_eqm = 0;                      // arbitrary binary relation: equality modulo
inline bool Pred::operator()(E x) const { return (g_mask >> (x & 63)) & 1; }
inline bool Cmp::operator()(E a, E b) const { return g_key[a & 31] < g_key[b & 31]; }
inline bool BPred::operator()(E a, E b) const { return g_eqm ? (a % g_eqm) == (b % g_eqm) : a == b; }
inline E Op2::operator()(E a, E b) const { return (E)((unsigned)a * 31u + (unsigned)b * 7u + 3u); }
inline E Op1::operator()(E a) const { return (E)((unsigned)a * 5u + 11u); }
inline void shake(svc::Rng& r) {
  g_mask = r.chance(3) ? r.next() : r.chance(2) ? (r.next() & r.next() & r.next()) : (r.next() | r.next() | r.next());
  int w = (int)r.range(1, 12);
  for (int i = 0; i < 32; ++i) g_key[i] = (int)r.range(0, w);
  g_eqm = r.chance(2) ? 0 : (int)r.range(1, 7);
}
// iterator over [b,e) as each category
template<class It> struct Mk { static It at(E* p) { return It(p); } };
template<> struct Mk<E const*> { static E const* at(E* p) { return p; } };
template<> struct Mk<E*> { static E* at(E* p) { return p; } };
inline E const* raw(E const* p) { return p; }
template<class T> inline E const* raw(It<T> const& i) { return i.p; }
#endif
