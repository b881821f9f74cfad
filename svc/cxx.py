"""C++ text shared by translation units: opaque predicates, an element type, non-random-access iterators"""
ITERS = r'''
#include <iterator>
#include <cstddef>
typedef int E;
// declared, never defined: an arbitrary predicate / comparison / operation (an uninterpreted function for the prover)
struct Pred { bool operator()(E) const; };
struct BPred { bool operator()(E, E) const; };
struct Cmp { bool operator()(E, E) const; };
struct Op2 { E operator()(E, E) const; };
struct Op1 { E operator()(E) const; };
template<class Tag> struct It {
  typedef Tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type;
  typedef E const* pointer; typedef E const& reference;
  E const* p;
  constexpr It() : p() {}
  constexpr explicit It(E const* q) : p(q) {}
  constexpr E const& operator*() const { return *p; }
  E const* operator->() const { return p; }
  It& operator++() { ++p; return *this; }
  It operator++(int) { It t(*this); ++p; return t; }
  It& operator--() { --p; return *this; }
  It operator--(int) { It t(*this); --p; return t; }
  friend bool operator==(It const& a, It const& b) { return a.p == b.p; }
  friend bool operator!=(It const& a, It const& b) { return a.p != b.p; }
};
typedef It<std::forward_iterator_tag> Fwd;
typedef It<std::bidirectional_iterator_tag> Bid;
typedef E const* Ra;
'''
