TECH = ('contracts on the real functions (IR extracted by clang from the headers on every run), verification conditions '
        'discharged by z3/cvc5; seeded replay harness against the real code')
NOTE = ('Every function on the path is checked against its own contract for all inputs of the listed instantiations; '
        'trusted: clang front end, the VC generator in /verif/svc, the solvers. Functions reported undecided are decided only by '
        'the bounded stand-in and are not counted as discharged.')
ALG = 'sprout/algorithm/'


def p(id, title, statement, why, for_all, files, mech, technique=TECH, note=NOTE, **k):
    d = dict(id=id, title=title, statement=statement, why_tests_cant=why, for_all=for_all, files=files, mech=mech,
             technique=technique, note=note)
    d.update(k)
    return d


PROPS = [
    p('C01', 'Linear searches return the position the C++ standard specifies',
      'For every valid range and every predicate, find, find_if, find_if_not, adjacent_find, find_first_of, search and search_n return the first '
      'position that satisfies the criterion and find_end returns the last one; each returns the end of the range exactly when there is none. '
      'The result does not depend on the iterator category, only elements of the given ranges are read, and the call terminates.',
      'The tests search a handful of literal arrays of about ten elements; position, range length, pattern length and iterator category are unbounded.',
      'all ranges (any length, any contents), all predicates, random access / bidirectional / forward iterators',
      [ALG + x for x in ('find.hpp', 'find_if.hpp', 'find_if_not.hpp', 'adjacent_find.hpp', 'find_first_of.hpp', 'search.hpp', 'search_n.hpp', 'find_end.hpp')] + ['sprout/detail/algorithm/search_one.hpp'],
      [('divide-and-conquer recursion over a pivot', ALG + 'find.hpp'), ('doubling scan over an (iterator, found) pair', ALG + 'find.hpp')]),
    p('C02', 'Quantifier and counting algorithms decide the whole range',
      'For every valid range, all_of, any_of, none_of and one_of (and their _equal forms) are true exactly if all / at least one / no / exactly one '
      'element satisfies the predicate (equals the value); count and count_if return the number of such elements; is_partitioned is true exactly if '
      'no satisfying element follows a non-satisfying one. The result does not depend on the iterator category.',
      'Tests use one short array per algorithm; a wrong split or a lost element shows only for particular lengths and positions of matches.',
      'all ranges, all predicates and values, random access and forward iterators',
      [ALG + x for x in ('all_of.hpp', 'any_of.hpp', 'none_of.hpp', 'one_of.hpp', 'one_of_equal.hpp', 'count.hpp', 'count_if.hpp', 'is_partitioned.hpp')],
      [('pivot recursion and doubling scan', ALG + 'all_of.hpp')]),
    p('C03', 'Sequence comparisons decide equality and lexicographic order of whole ranges',
      'For all valid ranges: equal is true exactly if corresponding elements all satisfy the relation (and, with two end iterators, lengths agree); mismatch returns '
      'the first pair of positions that differ; lexicographical_compare is true exactly if the first range precedes the second; tristate_lexicographical_compare '
      'returns the sign of that order (also of sequences ended by a delimiter, reading nothing past it); includes and is_permutation decide multiset inclusion of sorted ranges and equality as multisets. Results do not depend on the iterator category.',
      'Tests compare a few short arrays; the first difference may be at any position, at either end, or be the length itself.',
      'all ranges and lengths, all relations, random access and forward iterators',
      [ALG + x for x in ('equal.hpp', 'mismatch.hpp', 'lexicographical_compare.hpp', 'tristate_lexicographical_compare.hpp', 'includes.hpp', 'is_permutation.hpp')],
      [('pivot recursion over two ranges in lock step', ALG + 'mismatch.hpp')]),
    p('C04', 'Binary searches find the boundary in every partitioned range',
      'For every range partitioned with respect to the comparison, lower_bound, upper_bound and partition_point return the boundary position, equal_range returns both, and '
      'binary_search is true exactly if an equivalent element exists; distance, next, prev and advance move by exactly the requested number of positions for every iterator category.',
      'Tests use one sorted array; an off-by-one in the halving shows only for particular lengths and boundary positions.',
      'all partitioned ranges of any length, all values, random access and forward iterators, both the C++11 and the C++14 code paths',
      [ALG + x for x in ('lower_bound.hpp', 'upper_bound.hpp', 'equal_range.hpp', 'binary_search.hpp', 'partition_point.hpp')] + ['sprout/iterator/distance.hpp', 'sprout/iterator/next.hpp', 'sprout/iterator/prev.hpp'],
      [('halving with recursive iterator motion', ALG + 'lower_bound.hpp')]),
    p('C05', 'Extremes and order checks agree with the ordering for every range',
      'For every strict weak ordering: min_element returns the first smallest element, max_element the first largest, minmax_element the first smallest and the last largest; '
      'min, max, minmax and clamp select values accordingly; is_sorted / is_sorted_until and is_heap / is_heap_until report the longest sorted or heap prefix, equal elements allowed.',
      'Ties, the position of the extreme and the length of the ordered prefix are unbounded; tests fix one array without ties.',
      'all ranges and all strict weak orderings, random access and forward iterators',
      [ALG + x for x in ('min_element.hpp', 'max_element.hpp', 'minmax_element.hpp', 'is_sorted.hpp', 'is_sorted_until.hpp', 'is_heap.hpp', 'is_heap_until.hpp', 'min.hpp', 'max.hpp', 'minmax.hpp', 'clamp.hpp')],
      [('pivot recursion combining two halves', ALG + 'min_element.hpp')]),
    p('C06', 'Folds combine every element once, in order, for every range and operation',
      'For every range, initial value and operation (not assumed commutative or associative): accumulate, inner_product, reduce and transform_reduce return the left-to-right fold of the elements; '
      'fold_while and fold_until stop exactly where their predicate on the accumulated value first fails (holds) and return the value reached there.',
      'The recursion splits the range in halves or doubling blocks, so a dropped or repeated element depends on the length; tests use one length and an addition that hides the order.',
      'all ranges, operations and initial values, random access and forward iterators',
      ['sprout/numeric/' + x for x in ('accumulate.hpp', 'inner_product.hpp', 'reduce.hpp', 'transform_reduce.hpp')] + [ALG + 'fold_while.hpp', ALG + 'fold_until.hpp'],
      [('block-wise recursion threading the accumulator', 'sprout/numeric/accumulate.hpp')]),
    p('C07', 'Bit operations compute the mathematical function for every value and width',
      'For every value of every integer type: popcount, parity, leading/trailing zero and one counts, redundant sign bits, find-first-set, floor/ceil powers of two, bit length, single-bit tests, '
      'rotations, shifts, byte and bit reversals, and the mask/set/reset/flip operations return exactly the value their definition gives; every shift amount that occurs is smaller than the '
      'operand width. The portable and the builtin-based implementations agree.',
      'Tests sample a few 32-bit constants; zero, the top bit, narrow and signed types and full-width shift amounts are the failing cases.',
      'all values of all integer types, all bit positions, both the builtin and the portable code path',
      ['sprout/bit'], [('mask and shift arithmetic with promotion of narrow types', 'sprout/bit/rotl.hpp')]),
    p('C08', 'Network byte order conversions are exact and mutually inverse for every value',
      'For every value of every unsigned width (8 to 64 bits), hton stores the value most significant byte first in memory, ntoh reads that image back, the two are inverses, '
      'and htonl/htons/ntohl/ntohs are these conversions at their width. Single bytes are unchanged and all byte indices stay inside the value.',
      'Tests convert one or two constants per width.',
      'all values of uint8_t to uint64_t', ['sprout/net/endian.hpp', 'sprout/endian_traits.hpp'], [('byte swapping recursion over two indices', 'sprout/net/endian.hpp')]),
    p('C09', 'Character classification and case conversion agree with ASCII on every code',
      'For every value of char, wchar_t, char16_t and char32_t, including negative and non-ASCII codes, each is* function (isw* for wchar_t) is true exactly for its ASCII class and false outside ASCII; '
      'tolower/toupper map exactly A-Z to a-z and back and leave all else unchanged; isclassified is the union of the classes selected by its mask; the functor forms (and nocase comparison) agree.',
      'A lookup table entry or a sign extension error affects single codes; tests try a few letters.',
      'all character codes of all four types and all masks', ['sprout/ctype/ascii.hpp', 'sprout/ctype/wascii.hpp', 'sprout/ctype/functor.hpp', 'sprout/ctype/mask.hpp'],
      [('table lookup guarded by an unsigned bound', 'sprout/ctype/ascii.hpp')]),
    p('C10', 'C string functions match the C library on every terminated string',
      'For every terminated string of char or wchar_t and every count: strlen, strchr, strrchr, strcmp, strncmp, strcoll, strspn, strcspn, strpbrk, strstr, memchr, memcmp (and the wcs*/wmem* forms) return what '
      'the C standard prescribes - first or last occurrence, terminator included where it counts, null when absent, sign of the first difference with char compared as unsigned char - reading nothing past '
      'the terminator or the count; strcpy, strncpy, strcat, strncat, memcpy, memmove and memset write exactly the prescribed characters, padding and terminator and nothing else, and return the destination.',
      'Terminator handling, searching for the terminator, high-bit characters, partial matches at the end and count/length relations are unbounded; tests use a few fixed literals.',
      'all terminated strings and counts; wide characters non-negative',
      ['sprout/cstring', 'sprout/cwchar'], [('doubling scan to an unknown terminator', 'sprout/cstring/strlen.hpp'), ('index iterators over a counted prefix', 'sprout/cstring/strncmp.hpp')]),
    p('C11', 'Integers and their text convert both ways exactly, saturating out of range',
      'For every terminated string and base (2 to 36, or 0 for automatic): ascii_to_int, str_to_int and the ato*/strto*/wcsto* forms without end pointer skip white space, take one sign, an 0x/0 prefix only where the base '
      'allows it, consume exactly the leading digits valid in the base and return their value, saturated at the type limits (maximum or minimum by sign); no intermediate step overflows. For every integer value, '
      'to_string / int_to_string produce exactly its digits in the base, most significant first, minus sign if negative, with the exact length; parsing the text gives the value back.',
      'The overflow decision differs in the last digit only, the minimum value has no positive counterpart and lengths vary by type and base; tests try a handful of numbers.',
      'all strings, bases, integer types and values', ['sprout/cstdlib/str_to_int.hpp', 'sprout/cstdlib/ascii_to_int.hpp', 'sprout/string/int_to_string.hpp', 'sprout/string/string_to_int.hpp', 'sprout/detail/char_conversion.hpp', 'sprout/detail/math/int.hpp'],
      [('saturating digit recursion', 'sprout/cstdlib/str_to_int.hpp'), ('digit extraction by division', 'sprout/detail/math/int.hpp')]),
    p('C12', 'gcd, lcm and exact rational arithmetic and order are mathematically exact',
      'For all integers of every width: gcd is the greatest common divisor of the magnitudes and lcm the least common multiple whenever it is representable. Every rational is kept in lowest terms with a positive '
      'denominator; +, -, *, /, their compound forms (also with itself as operand), ++/--, negation and abs give the exact value; construction with denominator zero and division by zero throw and nothing else does; '
      '==, !=, <, >, <=, >= (with rationals and integers on either side) agree with cross multiplication, without overflowing.',
      'Tests sample a few small positive fractions; sign combinations, common factors, deep continued fractions, aliasing of operands and extreme values are unbounded.',
      'all integer values above the type minimum; rational operands whose products fit the type',
      ['sprout/math/gcd.hpp', 'sprout/math/lcm.hpp', 'sprout/rational/rational.hpp', 'sprout/rational/arithmetic.hpp', 'sprout/rational/comparison.hpp', 'sprout/rational/values.hpp'],
      [('binary gcd recursion on a two element array', 'sprout/math/gcd.hpp'), ('continued fraction comparison', 'sprout/rational/comparison.hpp')]),
    p('C13', 'Mutating algorithms write exactly the prescribed elements, in place or copied',
      'For every valid range and predicate, copy, copy_n, copy_if, copy_while, copy_until, copy_backward, move, move_backward, transform, fill, fill_n, generate, generate_n, replace*, remove*, unique*, reverse*, rotate*, '
      'swap_ranges, partition_copy, partition, stable_partition, merge, the set operations and for_each produce exactly the elements the C++ standard prescribes, in the prescribed order, return the prescribed end, '
      'leave the source (where it is const) and every element outside the written range unchanged, and access nothing outside the given ranges. Results do not depend on the iterator category.',
      'Positions, lengths, overlaps and runs of kept or dropped elements are unbounded; the tests apply each algorithm to one or two literal arrays.',
      'all ranges and contents, all predicates, relations and operations, pointers and wrapped iterators of each category',
      [ALG + 'cxx14'], [('element-exact loop invariants with ghost prefix counts', ALG + 'cxx14/remove_if.hpp'), ('recursive stable partition', ALG + 'cxx14/stable_partition.hpp')]),
    p('C14', 'Sorting, heap and permutation algorithms order any range and lose no element',
      'For every range and strict weak ordering: sort, stable_sort (stably), partial_sort, partial_sort_copy, nth_element, inplace_merge, make_heap, push_heap, pop_heap, sort_heap establish the order the C++ standard prescribes; '
      'next_permutation / prev_permutation produce the neighbouring permutation and report whether there is one; all of them, and shuffle, random_shuffle and random_swap, rearrange exactly the given elements and touch nothing outside the range; '
      'sample takes min(n, length) distinct positions of the population.',
      'Sorting code takes different branches by length (cut-offs at 3 to 30 and 1000 elements), by presortedness and by ties; tests sort one ten-element array.',
      'all ranges, all strict weak orderings, pointers (contracts); random access and bidirectional iterators (replay harness)',
      [ALG + 'cxx14/' + x for x in ('sort.hpp', 'stable_sort.hpp', 'partial_sort.hpp', 'partial_sort_copy.hpp', 'nth_element.hpp', 'inplace_merge.hpp', 'make_heap.hpp', 'push_heap.hpp', 'pop_heap.hpp', 'sort_heap.hpp', 'next_permutation.hpp', 'prev_permutation.hpp', 'shuffle.hpp', 'random_swap.hpp', 'sample.hpp')],
      [('quicksort with insertion sort fallback', ALG + 'cxx14/sort.hpp'), ('sift up / sift down around a gap', ALG + 'cxx14/push_heap.hpp')]),
    p('C15', 'bitset<N> behaves as N independent bits under every operation and size',
      'For every N and contents: each logical, shift, set/reset/flip, query, count, find, comparison and conversion operation of bitset<N> gives exactly the bits, number, position or text obtained bit by bit; '
      'the unused high bits of the last word stay clear; positions and values out of range are reported by the exception the C++ standard names and nothing else throws; parsing and printing are inverse.',
      'The word boundary, the partial last word and shift amounts equal to a word or to N make separate paths; tests use one or two small sizes.',
      'all contents, positions and shift amounts at sizes of one word, partial, exact and several words',
      ['sprout/bitset'], [('word and offset arithmetic of a shift', 'sprout/bitset/bitset.hpp')]),
    p('C16', 'Fixed-capacity strings and views match std::string within their capacity',
      'For all strings (without embedded terminators), positions and counts: construction, assignment, append, prepend, resize, swap, copy, substr and concatenation of basic_string, also with parts of itself, leave exactly '
      'the characters and length std::string would have, terminated and cleared behind them; exceeding the capacity or a position past the end is reported by an exception and never by writing outside; find, rfind, find_first/last_(not_)of, '
      'compare and the relations of basic_string and basic_string_view return what std::string returns, reading only the characters given; npos compares as a position past every position.',
      'Positions at and past the end, npos, counts that wrap, overlapping sources and a full string are separate cases; tests use a few literals.',
      'all contents and lengths, all 64-bit positions and counts',
      ['sprout/string', 'sprout/utility/string_view'], [('fixed storage with length and terminator', 'sprout/string/string.hpp'), ('recursive searches shared by string and view', 'sprout/string/detail/find.hpp')]),
    p('C17', 'Container-returning algorithms give the standard result within the container',
      'For every container (array or sub range of one) and source range of any length: each sprout::fixed algorithm (copies, conditional and partitioning copies, transform, fill, generate, unfold, recurrence, reverse, rotate, replace, remove, unique, merge, set operations, '
      'partition, sort, stable_sort, partial_sort, nth_element, inplace_merge, heap operations, permutations, shuffle, swap) returns a copy of the container whose first elements are what the C++ standard algorithm would write, cut off at the size, with all others '
      'unchanged; the sprout::fit form returns exactly those elements. Order of equal elements is kept where the standard keeps it, nothing outside the sub range changes, and iterator category does not matter.',
      'Sources longer than the result, empty sub ranges and offsets are separate code paths; tests use one array each.',
      'all contents, source lengths, sub ranges and predicates at small container sizes',
      ['sprout/algorithm/fixed', 'sprout/algorithm/fit'], [('filling the rest of the result from the old container', 'sprout/detail/container_complate.hpp'), ('size of a fit result', 'sprout/container/fit_size.hpp')]),
    p('C18', 'Value types behave as the values they hold',
      'optional, variant, pair, tuple, array and tribool: construction, copy, move, assignment (also to itself and converting), swap and reset leave each object with exactly the state and value stated for the C++ standard (or Boost) counterpart and '
      'leave the source of a copy unchanged; observers, element access, visitors and iteration see exactly the held values, and writing through them changes those only; reading an empty optional or an index out of range throws, nothing else does; '
      'the six relations form the standard (lexicographic; empty first; alternative index first) order; tribool follows three-valued logic.',
      'Tests use one or two literals of each; empty against engaged, each pair of alternatives, self assignment and each component deciding an order are separate cases.',
      'all values of the elements, all engaged/alternative states',
      ['sprout/optional', 'sprout/variant', 'sprout/tuple/tuple', 'sprout/utility/pair', 'sprout/utility/value_holder', 'sprout/array', 'sprout/logic/tribool'],
      [('swap of flag and value', 'sprout/optional/optional.hpp'), ('all alternatives stored side by side, selected by index', 'sprout/variant/variant.hpp')]),
    p('C19', 'Rounding, classification and comparison of numbers are exact',
      'For every argument, NaN, infinities, subnormal and huge values included: floor, ceil, trunc and round return the integer they are defined to be; their integer-valued forms (ifloor, iceil, itrunc, iround, lround, llround) '
      'return it whenever it is representable; integer_part and fractional_part split a value exactly; isnan, isinf, isfinite, isnormal, issubnormal, iszero, fpclassify and signbit classify it correctly; fabs, copysign, fmin, fmax and fdim '
      'give the standard result (the sign of a zero is claimed for copysign, fabs and signbit only); the quiet comparisons and the math:: comparisons agree with the mathematical order, for integers of different signedness too.',
      'Tests use a few moderate values and one implementation (built-in or portable); errors sit at half-way values, at 2^52 to 2^64, at subnormals and infinities, or in the implementation not selected.',
      'all values of float, double and (where stated) long double, both implementations',
      ['sprout/math/floor.hpp', 'sprout/math/ceil.hpp', 'sprout/math/trunc.hpp', 'sprout/math/round.hpp', 'sprout/math/iround.hpp', 'sprout/math/fpclassify.hpp', 'sprout/math/fmin.hpp', 'sprout/math/fdim.hpp', 'sprout/math/equal_to.hpp', 'sprout/math/less.hpp'],
      [('conversion through uintmax_t', 'sprout/math/floor.hpp'), ('special cases ahead of the built-in', 'sprout/math/fdim.hpp')]),
    p('C20', 'Running folds: partial sums, scans, adjacent differences and iota',
      'For every range, operation (not assumed commutative or associative) and initial value: partial_sum and inclusive_scan give the running left folds x0, x0*x1, ...; exclusive_scan gives init, init*x0, ..., one result per element; '
      'inclusive scans with an initial value store init and then its running folds with each element (n + 1 results, the convention of this library); transform_ forms fold the transformed elements; adjacent_difference gives x0, op(x1, x0), ...; iota counts up. '
      'Through an output iterator exactly those elements are written and the end is returned; the container forms (fixed) place them at the front of the container or sub range, cut off at its size, and leave all else unchanged; fit returns exactly them.',
      'Order and association of the operands, the first element, empty sources and sources longer than the result are separate cases; tests sum one array with a commutative operation.',
      'all ranges, operations and initial values (output iterators: any length; containers: small sizes), random access and forward iterators',
      ['sprout/numeric/partial_sum.hpp', 'sprout/numeric/inclusive_scan.hpp', 'sprout/numeric/exclusive_scan.hpp', 'sprout/numeric/transform_inclusive_scan.hpp', 'sprout/numeric/transform_exclusive_scan.hpp', 'sprout/numeric/adjacent_difference.hpp', 'sprout/numeric/cxx14', 'sprout/numeric/fixed', 'sprout/numeric/fit'],
      [('results collected in a growing argument pack', 'sprout/numeric/fixed/partial_sum.hpp'), ('one pending operand', 'sprout/numeric/cxx14/transform_exclusive_scan.hpp')]),
]

NA = [
    dict(id='N01', title='Transcendental functions are accurate for every argument',
         statement='For every argument, sin, cos, tan, exp, log, pow, sqrt, cbrt, hypot, tgamma, lgamma, erf and the other real functions of sprout/math, and their complex forms, return a value within a few units in the last place of the exact one.',
         why_tests_cant='Tests sample a few dozen points of each function; errors of a series or of a range reduction appear in intervals between them.',
         for_all='all finite arguments', files=['sprout/math', 'sprout/complex'], mech=[('series with a fixed number of terms', 'sprout/math/sin.hpp')],
         reason='the bound is a statement of real analysis about truncated series and rounding; none of the installed deductive back ends decides transcendental error bounds for all doubles'),
    dict(id='N02', title='Constant evaluation gives the same results as run time evaluation',
         statement='Every constexpr function of the library that is a constant expression for some arguments yields there the value it returns for them at run time.',
         why_tests_cant='Tests evaluate the same literals both ways; the two evaluations differ where a path depends on the evaluation context or on a depth limit.',
         for_all='all arguments', files=['sprout/config', 'sprout/workaround'], mech=[('configuration macros that select constexpr paths', 'sprout/config/constexpr.hpp')],
         reason='a statement about the evaluator of the compiler, not about a postcondition of a function: the code extracted for the verifier is the run time code only'),
    dict(id='N03', title='Random distributions follow their distribution',
         statement='The numbers drawn by the distributions of sprout/random from a uniform engine follow the distribution their name states.',
         why_tests_cant='A handful of drawn numbers says nothing about a distribution.',
         for_all='all parameters and engines', files=['sprout/random'], mech=[('rejection and inversion methods', 'sprout/random/normal_distribution.hpp')],
         reason='a property of an ensemble of calls and of transcendental functions; a contract on one call cannot state it'),
]
