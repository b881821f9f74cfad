from svc.driver import Unit, Native
from . import cstrspec as K
from .iterspec import EXT

INC = '#include <sprout/cstring.hpp>\n#include <sprout/cwchar.hpp>\n'
N = '''
std::size_t k_strlen(CH const* s) { return sprout::strlen(s); }
CH const* k_strchr(CH const* s, CH c) { return sprout::strchr(s, c); }
CH const* k_strrchr(CH const* s, CH c) { return sprout::strrchr(s, c); }
int k_strcmp(CH const* s, CH const* t) { return sprout::strcmp(s, t); }
std::size_t k_strspn(CH const* s, CH const* t) { return sprout::strspn(s, t); }
std::size_t k_strcspn(CH const* s, CH const* t) { return sprout::strcspn(s, t); }
CH const* k_strpbrk(CH const* s, CH const* t) { return sprout::strpbrk(s, t); }
CH* k_strcpy(CH* s, CH const* t) { return sprout::strcpy(s, t); }
CH* k_strncpy(CH* s, CH const* t, std::size_t n) { return sprout::strncpy(s, t, n); }
CH* k_strcat(CH* s, CH const* t) { return sprout::strcat(s, t); }
CH* k_strncat(CH* s, CH const* t, std::size_t n) { return sprout::strncat(s, t, n); }
CH const* k_strstr(CH const* s, CH const* t) { return sprout::strstr(s, t); }
'''

M = '''
std::size_t k_strnlen(CH const* s, std::size_t n) { return sprout::strlen(s, n); }
int k_strncmp(CH const* s, CH const* t, std::size_t n) { return sprout::strncmp(s, t, n); }
'''
MC = '''
int k_memcmp(unsigned char const* s, unsigned char const* t, std::size_t n) { return sprout::memcmp(s, t, n); }
void const* k_memchr(unsigned char const* s, int c, std::size_t n) { return sprout::memchr(s, c, n); }
'''
MW = '''
int k_wmemcmp(wchar_t const* s, wchar_t const* t, std::size_t n) { return sprout::wmemcmp(s, t, n); }
wchar_t const* k_wmemchr(wchar_t const* s, wchar_t c, std::size_t n) { return sprout::wmemchr(s, c, n); }
'''


def units(tier):
    return [Unit('narrow_n', INC + M.replace('CH', 'char') + MC, K.indexed('i8'), ext=EXT), Unit('wide_n', INC + M.replace('CH', 'wchar_t') + MW, K.indexed('i32'), ext=EXT),
            Unit('narrow', INC + N.replace('CH', 'char'), K.cstr('i8'), ext=EXT), Unit('wide', INC + N.replace('CH', 'wchar_t'), K.cstr('i32'), ext=EXT)]


NAT = r'''
#include "native.hpp"
#include <cstring>
#include <cwchar>
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
using namespace svc;
static int sg(long x) { return x < 0 ? -1 : x > 0; }
template<class C> struct T;
template<> struct T<char> {
  static std::size_t len(char const* s) { return std::strlen(s); }
  static char const* chr(char const* s, char c) { return std::strchr(s, c); } static char const* rchr(char const* s, char c) { return std::strrchr(s, c); }
  static int cmp(char const* s, char const* t) { return std::strcmp(s, t); } static int ncmp(char const* s, char const* t, std::size_t n) { return std::strncmp(s, t, n); }
  static std::size_t spn(char const* s, char const* t) { return std::strspn(s, t); } static std::size_t cspn(char const* s, char const* t) { return std::strcspn(s, t); }
  static char const* pbrk(char const* s, char const* t) { return std::strpbrk(s, t); } static char const* str(char const* s, char const* t) { return std::strstr(s, t); }
  static char* cpy(char* s, char const* t) { return std::strcpy(s, t); } static char* ncpy(char* s, char const* t, std::size_t n) { return std::strncpy(s, t, n); }
  static char* cat(char* s, char const* t) { return std::strcat(s, t); } static char* ncat(char* s, char const* t, std::size_t n) { return std::strncat(s, t, n); }
};
template<> struct T<wchar_t> {
  typedef wchar_t W;
  static std::size_t len(W const* s) { return std::wcslen(s); }
  static W const* chr(W const* s, W c) { return std::wcschr(s, c); } static W const* rchr(W const* s, W c) { return std::wcsrchr(s, c); }
  static int cmp(W const* s, W const* t) { return std::wcscmp(s, t); } static int ncmp(W const* s, W const* t, std::size_t n) { return std::wcsncmp(s, t, n); }
  static std::size_t spn(W const* s, W const* t) { return std::wcsspn(s, t); } static std::size_t cspn(W const* s, W const* t) { return std::wcscspn(s, t); }
  static W const* pbrk(W const* s, W const* t) { return std::wcspbrk(s, t); } static W const* str(W const* s, W const* t) { return std::wcsstr(s, t); }
  static W* cpy(W* s, W const* t) { return std::wcscpy(s, t); } static W* ncpy(W* s, W const* t, std::size_t n) { return std::wcsncpy(s, t, n); }
  static W* cat(W* s, W const* t) { return std::wcscat(s, t); } static W* ncat(W* s, W const* t, std::size_t n) { return std::wcsncat(s, t, n); }
};
#define EQ(x, y) do { auto o_ = (x); decltype(o_) s_ = (y); CK(o_ == s_, #x, "char size", sizeof(C), "a", show(a), "b", show(b), "c", (long)c, "n", n, "got", (long long)o_, "expected", (long long)s_); } while (0)
#define PO(x, s) ((x) ? (long)((x) - (s)) : -1L)
template<class C> void wide(std::vector<C> const&, std::vector<C> const&, C const*, C const*, C, std::size_t) {}
template<class C> std::vector<C> dst(std::vector<C> const& pre, std::size_t room) { std::vector<C> v(pre); v.resize(pre.size() + room, (C)'#'); return v; }
void extra(std::vector<char> const& a, std::vector<char> const& b, char const* s, char const* t, char c, std::size_t n, Rng& r) {
  typedef char C;
  // an int argument converts to the character type
  int big = (int)(unsigned char)c + 256 * (int)r.range(-2, 2);
  EQ(PO(sprout::strchr(s, big), s), PO(std::strchr(s, big), s)); EQ(PO(sprout::strrchr(s, big), s), PO(std::strrchr(s, big), s));
  unsigned char const* us = (unsigned char const*)s; unsigned char const* ut = (unsigned char const*)t;
  std::size_t m = n < a.size() ? n : a.size(), k = m < b.size() ? m : b.size();
  EQ(sg(sprout::memcmp(us, ut, k)), sg(std::memcmp(us, ut, k)));
  unsigned char const* f = (unsigned char const*)sprout::memchr(us, big, m); EQ(PO(f, us), PO((unsigned char const*)std::memchr(us, big, m), us));
  // memcpy / memset / memmove on exact heap objects
  std::vector<C> d(k + 2, '#'), e(d);
  CK(sprout::memcpy((unsigned char*)d.data() + 1, us, k) == (void*)(d.data() + 1), "memcpy result"); std::memcpy(e.data() + 1, s, k); CK(d == e, "memcpy", show(a), k);
  CK(sprout::memset((unsigned char*)d.data() + 1, big, k) == (void*)(d.data() + 1), "memset result"); std::memset(e.data() + 1, big, k); CK(d == e, "memset", big, k);
  d = a; e = a; std::size_t from = r.range(0, a.size()), to = r.range(0, a.size()), l = r.range(0, a.size() - std::max(from, to));
  CK(sprout::memmove((unsigned char*)d.data() + to, (unsigned char const*)d.data() + from, l) == (void*)(d.data() + to), "memmove result");
  std::memmove(e.data() + to, e.data() + from, l); CK(d == e, "memmove", show(a), "to", to, "from", from, "n", l);
}
void extra(std::vector<wchar_t> const& a, std::vector<wchar_t> const& b, wchar_t const* s, wchar_t const* t, wchar_t c, std::size_t n, Rng& r) {
  typedef wchar_t C;
  EQ(sprout::wcslen(s), std::wcslen(s)); EQ(PO(sprout::wcschr(s, c), s), PO(std::wcschr(s, c), s)); EQ(PO(sprout::wcsrchr(s, c), s), PO(std::wcsrchr(s, c), s));
  EQ(sg(sprout::wcscmp(s, t)), sg(std::wcscmp(s, t))); EQ(sg(sprout::wcscoll(s, t)), sg(std::wcscmp(s, t)));
  std::size_t m = n < a.size() ? n : a.size(), k = m < b.size() ? m : b.size();
  EQ(sg(sprout::wcsncmp(s, t, k)), sg(std::wcsncmp(s, t, k)));
  EQ(sprout::wcsspn(s, t), std::wcsspn(s, t)); EQ(sprout::wcscspn(s, t), std::wcscspn(s, t));
  EQ(PO(sprout::wcspbrk(s, t), s), PO(std::wcspbrk(s, t), s)); EQ(PO(sprout::wcsstr(s, t), s), PO(std::wcsstr(s, t), s));
  EQ(sg(sprout::wmemcmp(s, t, k)), sg(std::wmemcmp(s, t, k))); EQ(PO(sprout::wmemchr(s, c, m), s), PO(std::wmemchr(s, c, m), s));
  std::vector<C> d(k + 2, L'#'), e(d);
  CK(sprout::wmemcpy(d.data() + 1, s, k) == d.data() + 1, "wmemcpy result"); std::wmemcpy(e.data() + 1, s, k); CK(d == e, "wmemcpy", show(a), k);
  CK(sprout::wmemset(d.data() + 1, c, k) == d.data() + 1, "wmemset result"); std::wmemset(e.data() + 1, c, k); CK(d == e, "wmemset", (long)c, k);
  d = a; e = a; std::size_t from = r.range(0, a.size()), to = r.range(0, a.size()), l = r.range(0, a.size() - std::max(from, to));
  CK(sprout::wmemmove(d.data() + to, d.data() + from, l) == d.data() + to, "wmemmove result");
  std::wmemmove(e.data() + to, e.data() + from, l); CK(d == e, "wmemmove", show(a), "to", to, "from", from, "n", l);
  #define WR(F, ...) { std::vector<C> x = dst(a, b.size() + n + 1), y = x; CK(sprout::F(x.data(), t, ##__VA_ARGS__) == x.data(), #F " result"); std::F(y.data(), t, ##__VA_ARGS__); CK(x == y, #F, "a", show(a), "b", show(b), "n", n); }
  WR(wcscpy) WR(wcsncpy, n) WR(wcscat) WR(wcsncat, n)
}
template<class C> void go(Run& R, std::vector<C> a, std::vector<C> b, C c, std::size_t n) {
  Buf<C> A(a), B(b); C const* s = A.cb(); C const* t = B.cb();
  typedef T<C> S;
  EQ(sprout::strlen(s), S::len(s)); 
  std::size_t m = n < a.size() ? n : a.size(), k = m < b.size() ? m : b.size();
  EQ(sprout::strlen(s, m), std::min(m, S::len(s)));
  EQ(PO(sprout::strchr(s, c), s), PO(S::chr(s, c), s)); EQ(PO(sprout::strrchr(s, c), s), PO(S::rchr(s, c), s));
  EQ(sg(sprout::strcmp(s, t)), sg(S::cmp(s, t))); EQ(sg(sprout::strcoll(s, t)), sg(S::cmp(s, t))); EQ(sg(sprout::strncmp(s, t, k)), sg(S::ncmp(s, t, k)));
  EQ(sg(sprout::strcmp(s, s)), 0);
  EQ(sprout::strspn(s, t), S::spn(s, t)); EQ(sprout::strcspn(s, t), S::cspn(s, t));
  EQ(PO(sprout::strpbrk(s, t), s), PO(S::pbrk(s, t), s)); EQ(PO(sprout::strstr(s, t), s), PO(S::str(s, t), s));
  #define WS(F, G, ...) { std::vector<C> x = dst(a, b.size() + n + 1), y = x; CK(sprout::F(x.data(), t, ##__VA_ARGS__) == x.data(), #F " result"); S::G(y.data(), t, ##__VA_ARGS__); CK(x == y, #F, "a", show(a), "b", show(b), "n", n); }
  WS(strcpy, cpy) WS(strncpy, ncpy, n) WS(strcat, cat) WS(strncat, ncat, n)
  extra(a, b, s, t, c, n, R.r);
}
template<class C> void one(Run& R) {
  int mode = (int)R.r.range(0, 3), la = gen_len(R.r, 300), lb = R.r.chance(2) ? (int)R.r.range(0, 4) : gen_len(R.r, 300);
  auto gen = [&](int n) { std::vector<C> v(n + 1); for (auto& x : v) {
    switch (mode) { case 0: x = (C)('a' + R.r.range(0, 1)); break; case 1: x = (C)R.r.range(0, 3); break; case 2: x = sizeof(C) == 1 ? (C)R.r.next() : (C)(R.r.next() & 0x7fffffff); break; default: x = (C)any_int<signed char>(R.r); }
    if (sizeof(C) > 1 && x < 0) x = (C)(x & 0x7fffffff); } v[n] = 0; return v; };
  std::vector<C> a = gen(la), b = gen(lb);
  if (R.r.chance(3)) { b = a; int p = (int)R.r.range(0, la); if (p < la && R.r.chance(2)) b[p] ^= sizeof(C) == 1 && R.r.chance(2) ? (C)0x80 : (C)1; else { b.resize(p + 1); b[p] = 0; } }
  else if (R.r.chance(2)) { int p = (int)R.r.range(0, la), q = (int)R.r.range(p, la); b.assign(a.begin() + p, a.begin() + q); b.push_back(0); if (b.size() > 1 && R.r.chance(3)) b[b.size() - 2] ^= 1; }
  C c = R.r.chance(3) ? 0 : a[R.r.range(0, la)]; if (R.r.chance(5)) c = sizeof(C) == 1 ? (C)R.r.next() : (C)(R.r.next() & 0x7fffffff);
  R.note(hash(a, hash(b)));
  go<C>(R, a, b, c, (std::size_t)gen_len(R.r, 300));
}
int main(int argc, char** argv) { Run R(argc, argv); while (R.more()) { one<char>(R); one<wchar_t>(R); } return R.done(); }
'''


def natives(tier):
    return [Native('cstrings', NAT, secs=(8, 60))]
