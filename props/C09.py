from svc.driver import lemmas

SRC = r'''
#include <sprout/ctype.hpp>
#include <sprout/cwctype.hpp>
#include <sprout/cctype.hpp>
template<class C> long code(C c) { return (std::is_signed<C>::value && sizeof(C) < 8) ? (long)c : (long)(unsigned long)c; }
inline bool up(long x) { return x >= 'A' && x <= 'Z'; } inline bool lo(long x) { return x >= 'a' && x <= 'z'; } inline bool dg(long x) { return x >= '0' && x <= '9'; }
inline bool gr(long x) { return x > 0x20 && x < 0x7f; } inline bool sp(long x) { return x == 0x20 || (x >= 9 && x <= 13); } inline bool bl(long x) { return x == 0x20 || x == 9; }
inline bool ct(long x) { return (x >= 0 && x < 0x20) || x == 0x7f; } inline bool xd(long x) { return dg(x) || (x >= 'A' && x <= 'F') || (x >= 'a' && x <= 'f'); }
inline bool pr(long x) { return x >= 0x20 && x < 0x7f; } inline bool pu(long x) { return gr(x) && !up(x) && !lo(x) && !dg(x); }
#define CLS(P, S) \
  ENSURE(sprout::is##P##alnum(c) == (up(x) || lo(x) || dg(x)), "alnum is letters and digits" S); ENSURE(sprout::is##P##alpha(c) == (up(x) || lo(x)), "alpha is A-Z a-z" S); \
  ENSURE(sprout::is##P##blank(c) == bl(x), "blank is space and tab" S); ENSURE(sprout::is##P##cntrl(c) == ct(x), "cntrl is 0-1F and 7F" S); \
  ENSURE(sprout::is##P##digit(c) == dg(x), "digit is 0-9" S); ENSURE(sprout::is##P##graph(c) == gr(x), "graph is 21-7E" S); \
  ENSURE(sprout::is##P##lower(c) == lo(x), "lower is a-z" S); ENSURE(sprout::is##P##print(c) == pr(x), "print is 20-7E" S); \
  ENSURE(sprout::is##P##punct(c) == pu(x), "punct is graph that is not alnum" S); ENSURE(sprout::is##P##space(c) == sp(x), "space is 20 and 9-D" S); \
  ENSURE(sprout::is##P##upper(c) == up(x), "upper is A-Z" S); ENSURE(sprout::is##P##xdigit(c) == xd(x), "xdigit is 0-9 A-F a-f" S);
template<class C> void cls() { ANY(C, c); long x = code(c); CLS(, "") }
template<class C> void fun() {
  using namespace sprout::ctypes; ANY(C, c); long x = code(c);
#define FN(N, E) ENSURE(is_##N<C>()(c) == (E), "functor is_" #N); ENSURE(is_##N<>()(c) == (E), "transparent functor is_" #N);
  FN(alnum, up(x) || lo(x) || dg(x)) FN(alpha, up(x) || lo(x)) FN(blank, bl(x)) FN(cntrl, ct(x)) FN(digit, dg(x)) FN(graph, gr(x)) FN(lower, lo(x)) FN(print, pr(x)) FN(punct, pu(x)) FN(space, sp(x)) FN(upper, up(x)) FN(xdigit, xd(x))
  ANY_IN(int, m, 0, 0x7fff); ENSURE(is_classified<C>((mask)m)(c) == sprout::isclassified((mask)m, c) && is_classified<>((mask)m)(c) == sprout::isclassified((mask)m, c), "functors is_classified");
  ANY(C, d); bool eq = (up(x) ? C(c + 32) : c) == (up(code(d)) ? C(d + 32) : d);
  ENSURE(nocase_equal_to<C>()(c, d) == eq && nocase_equal_to<>()(c, d) == eq, "nocase_equal_to ignores ASCII case only"); ENSURE(nocase_not_equal_to<C>()(c, d) != eq && nocase_not_equal_to<>()(c, d) != eq, "nocase_not_equal_to is its negation");
  ENSURE(to_lower<C>()(c) == (up(x) ? C(c + 32) : c), "functor to_lower"); ENSURE(to_upper<>()(c) == (lo(x) ? C(c - 32) : c), "functor to_upper");
}
template<class C> void conv() {
  ANY(C, c); long x = code(c);
  C l = sprout::tolower(c), u = sprout::toupper(c);
  ENSURE(l == (up(x) ? C(c + 32) : c), "tolower maps A-Z to a-z and nothing else"); ENSURE(u == (lo(x) ? C(c - 32) : c), "toupper maps a-z to A-Z and nothing else");
  ENSURE(sprout::tolower(l) == l && sprout::toupper(u) == u, "case conversion is idempotent");
  ENSURE(sprout::tolower(u) == l && sprout::toupper(l) == u, "case conversions determine each other");
}
inline bool cl(int m, long x) {
  using namespace sprout::ctypes;
  return ((m & space) && sp(x)) || ((m & print) && pr(x)) || ((m & cntrl) && ct(x)) || ((m & upper) && up(x)) || ((m & lower) && lo(x)) || ((m & alpha) && (up(x) || lo(x)))
    || ((m & digit) && dg(x)) || ((m & punct) && pu(x)) || ((m & xdigit) && xd(x)) || ((m & blank) && bl(x));
}
template<class C> void classified() {
  ANY(C, c); ANY_IN(int, m, 0, 0x7fff); long x = code(c);
  ENSURE(sprout::isclassified((sprout::ctypes::mask)m, c) == cl(m, x), "isclassified is the union of the classes selected by the mask");
}
LEMMA(class_char) { cls<char>(); }
LEMMA(class_wchar) { cls<wchar_t>(); }
LEMMA(class_char16) { cls<char16_t>(); }
LEMMA(class_char32) { cls<char32_t>(); }
LEMMA(class_w) { ANY(wchar_t, c); long x = code(c); CLS(w, " (isw)")
  ENSURE(sprout::towlower(c) == (up(x) ? wchar_t(c + 32) : c), "towlower"); ENSURE(sprout::towupper(c) == (lo(x) ? wchar_t(c - 32) : c), "towupper"); }
LEMMA(fun_char) { fun<char>(); }
LEMMA(fun_wchar) { fun<wchar_t>(); }
LEMMA(case_char) { conv<char>(); }
LEMMA(case_wchar) { conv<wchar_t>(); }
LEMMA(case_char16) { conv<char16_t>(); }
LEMMA(case_char32) { conv<char32_t>(); }
LEMMA(classified_char) { classified<char>(); }
LEMMA(classified_wchar) { classified<wchar_t>(); }
LEMMA(classified_char16) { classified<char16_t>(); }
LEMMA(classified_char32) { classified<char32_t>(); }
LEMMA(classified_w) { ANY(wchar_t, c); ANY_IN(int, m, 0, 0x7fff); ENSURE(sprout::iswclassified((sprout::ctypes::mask)m, c) == cl(m, code(c)), "iswclassified is the union of the classes selected by the mask"); }
'''


def units(tier):
    return [lemmas('ctype', SRC, mode='bv')]
