From 445bfbca22f5c4863792121387944f31fc153b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 01/66] fix: one_of / one_of_equal on random access ranges must
 reject two matches in the left half

---
 sprout/algorithm/one_of.hpp       | 10 +++++++---
 sprout/algorithm/one_of_equal.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..f237104 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_impl_ra_1(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..7e04e85 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_equal_impl_ra_1(
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From 8bafb9a9105bf1c02b31bc8d19cfcd136fa8df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 02/66] fix: search_n with a zero count finds the empty run at
 first

---
 sprout/algorithm/search_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/search_n.hpp b/sprout/algorithm/search_n.hpp
index 0f931db..5edfe9a 100644
--- a/sprout/algorithm/search_n.hpp
+++ b/sprout/algorithm/search_n.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value, BinaryPredicate pred) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
+		return count == 0 ? first : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
 			: sprout::detail::search_n(first, last, count, value, pred, category());
 	}
 
@@ -137,7 +137,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find(first, last, value)
+		return count == 0 ? first : count == 1 ? sprout::find(first, last, value)
 			: sprout::detail::search_n(first, last, count, value, sprout::equal_to<>(), category());
 	}
 }	// namespace sprout
-- 
2.43.0


From ee423a8b6b1fb8d740044a7543caa8705b8ebe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:41 +0000
Subject: [PATCH 03/66] fix: is_heap_until accepts equal parent and child

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From a47aea87dd305f22c7415e3c0b607d506b21acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 04/66] fix: cntl1, cntt1 and clrsb count within the width of
 the operand type

---
 sprout/bit/clrsb.hpp | 4 +++-
 sprout/bit/cntl1.hpp | 4 ++--
 sprout/bit/cntt1.hpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/bit/clrsb.hpp b/sprout/bit/clrsb.hpp
index 96f5bc4..78ce5f2 100644
--- a/sprout/bit/clrsb.hpp
+++ b/sprout/bit/clrsb.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_BIT_CLRSB_HPP
 #define SPROUT_BIT_CLRSB_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/clz.hpp>
+#include <sprout/bit/shar.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -31,7 +33,7 @@ namespace sprout {
 		template<typename Integral>
 		inline SPROUT_CONSTEXPR int
 		clrsb(Integral x) SPROUT_NOEXCEPT {
-			return sprout::clz(~x);
+			return sprout::clz(static_cast<Integral>(x ^ sprout::shar(x, sizeof(x) * CHAR_BIT - 1))) - 1;
 		}
 	}	// namespace detail
 	//
diff --git a/sprout/bit/cntl1.hpp b/sprout/bit/cntl1.hpp
index a54b84f..b1cd2f8 100644
--- a/sprout/bit/cntl1.hpp
+++ b/sprout/bit/cntl1.hpp
@@ -10,7 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/bit/clrsb.hpp>
+#include <sprout/bit/clz.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntl1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::clrsb(x);
+		return sprout::clz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/cntt1.hpp b/sprout/bit/cntt1.hpp
index 0a6b207..76d9500 100644
--- a/sprout/bit/cntt1.hpp
+++ b/sprout/bit/cntt1.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntt1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::ctz(~x);
+		return sprout::ctz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From f8e9b0e864a0cf1c4cd93a1f592597bcd5eba5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 05/66] fix: rotl / rotr by zero must not shift by the full
 width

---
 sprout/bit/rotl.hpp | 2 +-
 sprout/bit/rotr.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/rotl.hpp b/sprout/bit/rotl.hpp
index 3e39668..de7363f 100644
--- a/sprout/bit/rotl.hpp
+++ b/sprout/bit/rotl.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	rotl(Integral x, int s) SPROUT_NOEXCEPT {
-		return (x << s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s);
+		return (x << s) | sprout::shlr(x, (sizeof(x) * CHAR_BIT - s) % (sizeof(x) * CHAR_BIT));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rotr.hpp b/sprout/bit/rotr.hpp
index 3327e01..352a90c 100644
--- a/sprout/bit/rotr.hpp
+++ b/sprout/bit/rotr.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	rotr(Integral x, int s) SPROUT_NOEXCEPT {
-		return sprout::shlr(x, s) | (x << (sizeof(x) * CHAR_BIT - s));
+		return sprout::shlr(x, s) | (x << ((sizeof(x) * CHAR_BIT - s) % (sizeof(x) * CHAR_BIT)));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 0d2fc8f5d01f2baf5d16ab606ec0b0a5ad4d11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 06/66] fix: setbitsle, rstbitsle, flipbitsle at the top bit
 must not shift by the full width

---
 sprout/bit/flipbitsle.hpp | 2 +-
 sprout/bit/rstbitsle.hpp  | 2 +-
 sprout/bit/setbitsle.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bit/flipbitsle.hpp b/sprout/bit/flipbitsle.hpp
index 4590515..aee1405 100644
--- a/sprout/bit/flipbitsle.hpp
+++ b/sprout/bit/flipbitsle.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ((Integral(1) << (b + 1)) - 1);
+		return x ^ ((Integral(2) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsle.hpp b/sprout/bit/rstbitsle.hpp
index 8f5044f..917a1eb 100644
--- a/sprout/bit/rstbitsle.hpp
+++ b/sprout/bit/rstbitsle.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~((Integral(1) << (b + 1)) - 1);
+		return x & ~((Integral(2) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsle.hpp b/sprout/bit/setbitsle.hpp
index 604ad71..af1a706 100644
--- a/sprout/bit/setbitsle.hpp
+++ b/sprout/bit/setbitsle.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ((Integral(1) << (b + 1)) - 1);
+		return x | ((Integral(2) << b) - 1);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From d7284eadb66ae0bd3ffb5b17c438175394bd6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:55 +0000
Subject: [PATCH 07/66] fix: hton/ntoh of one-byte types must not recurse past
 the low byte; ntoh on PDP uses its argument

---
 sprout/net/endian.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/net/endian.hpp b/sprout/net/endian.hpp
index 3a69d11..388bde5 100644
--- a/sprout/net/endian.hpp
+++ b/sprout/net/endian.hpp
@@ -98,7 +98,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			reverse_impl(T val, std::uint_fast8_t n1, std::uint_fast8_t n2) {
-				return n1 > n2 ? val : sprout::net::detail::reverse_impl(sprout::net::detail::swap(val, n1, n2), n1 + 1, n2 - 1);
+				return n1 >= n2 ? val : sprout::net::detail::reverse_impl(sprout::net::detail::swap(val, n1, n2), n1 + 1, n2 - 1);
 			}
 
 			/*
@@ -160,7 +160,7 @@ namespace sprout {
 #elif defined(SPROUT_LITTLE_ENDIAN)
 			return sprout::net::detail::reverse(net);
 #elif defined(SPROUT_PDP_ENDIAN)
-			return sprout::net::detail::reverse_words(host);
+			return sprout::net::detail::reverse_words(net);
 #else
 			return SPROUT_ASSERT_MSG(0, "ntoh: unsupported endian"), net;
 #endif
-- 
2.43.0


From daf953129e5df3a1e401f2a517b85e40dda080e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:54 +0000
Subject: [PATCH 08/66] fix: isclassified tests the requested classes instead
 of ignoring the mask

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From 415aaba4d75af7bcd8f457e6a3ea9b310f0a7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:43 +0000
Subject: [PATCH 09/66] fix: inner_product names its first operation and starts
 its scan (did not compile for any iterator)

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From 40d0aa0772c571917f1eaee4aa591d958daea839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 10/66] fix: strcat appends at the terminator, strncat writes a
 single terminator

---
 sprout/cstring/strcat.hpp  | 5 +++--
 sprout/cstring/strncat.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..4bdf336 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			while (n) {
 				--n;
 				if (!(*s1++ = *s2++)) {
-					break;
+					return result;
 				}
 			}
 			*s1 = value_type();
-- 
2.43.0


From fb69fadb7d0499d83ed9e034d2d4597c06756746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 11/66] fix: memmove writes to [s1, s1 + n) and copies in the
 direction the overlap needs

---
 sprout/cstring/memmove.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..0593105 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -19,7 +20,14 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			// only equality of pointers is a constant expression for unrelated objects
+			for (std::size_t i = 1; i < n; ++i) {
+				if (s2 + i == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 	}	// namespace detail
-- 
2.43.0


From 0e8412827c70bfce518d4ad7a6ef0b62406bfad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 12/66] fix: strstr of two empty strings returns the first
 instead of null

---
 sprout/cstring/strstr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..2e6595d 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -135,13 +135,13 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
+		return !*s2 ? s1 : sprout::detail::str_find_check(
 			sprout::detail::strstr(s1, s2)
 			);
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
+		return !*s2 ? s1 : sprout::detail::str_find_check(
 			sprout::detail::strstr(s1, s2)
 			);
 	}
@@ -152,7 +152,7 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
+		return !*s2 ? s1 : sprout::detail::str_find_check(
 			sprout::detail::strstr(s1, s2)
 			);
 	}
-- 
2.43.0


From 95321cb517b45864b98e4cf2090b32f7701bd7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 13/66] fix: strcmp and strncmp compare char as unsigned char

---
 sprout/cstring/strcmp.hpp  |  5 +++--
 sprout/cstring/strncmp.hpp |  7 +++++--
 sprout/detail/str.hpp      | 23 +++++++++++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..b1bc507 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -16,6 +16,7 @@
 #include <sprout/tuple/tuple/tuple.hpp>
 #include <sprout/tuple/tuple/get.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/detail/str.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -36,8 +37,8 @@ namespace sprout {
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
+				: n == 1 ? sprout::detail::str_less()(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
+					: sprout::detail::str_less()(*sprout::tuples::get<1>(current), *sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
 					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..6383501 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -13,6 +13,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/detail/str.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
 
 namespace sprout {
@@ -26,7 +27,8 @@ namespace sprout {
 	strncmp(char const* s1, char const* s2, std::size_t n) {
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
+			sprout::detail::str_less()
 			);
 	}
 
@@ -39,7 +41,8 @@ namespace sprout {
 		typedef typename std::decay<Elem>::type type;
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type()
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),
+			sprout::detail::str_less()
 			);
 	}
 }	// namespace sprout
diff --git a/sprout/detail/str.hpp b/sprout/detail/str.hpp
index 351477c..433f8fc 100644
--- a/sprout/detail/str.hpp
+++ b/sprout/detail/str.hpp
@@ -27,6 +27,29 @@ namespace sprout {
 				: found
 				;
 		}
+
+		//
+		// str_less
+		//	char is compared as unsigned char (7.21.4)
+		//
+		struct str_less {
+		private:
+			static SPROUT_CONSTEXPR unsigned char
+			value(char c) {
+				return static_cast<unsigned char>(c);
+			}
+			template<typename Elem>
+			static SPROUT_CONSTEXPR Elem
+			value(Elem c) {
+				return c;
+			}
+		public:
+			template<typename Elem>
+			SPROUT_CONSTEXPR bool
+			operator()(Elem x, Elem y) const {
+				return value(x) < value(y);
+			}
+		};
 	}	// namespace detail
 }	// namespace sprout
 
-- 
2.43.0


From eefb7128e64c8fffbcd97be2f1462eed32f1bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:20 +0000
Subject: [PATCH 14/66] fix: ascii_to_int and str_to_int accept the negated
 maximum instead of saturating to the minimum

---
 sprout/cstdlib/ascii_to_int.hpp | 2 +-
 sprout/cstdlib/str_to_int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/ascii_to_int.hpp b/sprout/cstdlib/ascii_to_int.hpp
index 276ff83..6b125d4 100644
--- a/sprout/cstdlib/ascii_to_int.hpp
+++ b/sprout/cstdlib/ascii_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			SPROUT_STATIC_ASSERT(sprout::detail::is_char_type_of_consecutive_digits<value_type>::value);
 			return !sprout::ascii::isdigit(*str)
 				? negative ? -val : val
-				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type)) - (negative ? 1 : 0)) / 10
+				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type))) / 10
 				? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::ascii_to_int_impl<IntType>(
 					sprout::next(str),
diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index af50e37..859edf4 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
-				: val > (sprout::numeric_limits<IntType>::max() - x - (negative ? 1 : 0)) / base
+				: val > (sprout::numeric_limits<IntType>::max() - x) / base
 					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
-- 
2.43.0


From c4b3c746220918d43ab88ca7621a38eb394fc94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:20 +0000
Subject: [PATCH 15/66] fix: str_to_int takes a 0x prefix only in base 16 or
 automatic base

---
 sprout/cstdlib/str_to_int.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 859edf4..306ca9d 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -47,8 +47,10 @@ namespace sprout {
 		str_to_int_impl(NullTerminatedIterator const& str, int base, bool negative) {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return *str == SPROUT_CHAR_LITERAL('0', char_type)
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
-					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+				? (base == 0 || base == 16)
+					&& (*sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
+						|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+						)
 					? sprout::detail::str_to_int_impl_1<IntType>(
 						sprout::next(str, 2),
 						base ? base : 16,
-- 
2.43.0


From 029dd1e69961a5c329246055f21b01c907bdfd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:38 +0000
Subject: [PATCH 16/66] fix: int_to_string renders digits above nine in bases
 larger than ten

---
 sprout/string/int_to_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index 2d465f8..a705d37 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -46,13 +46,13 @@ namespace sprout {
 			return val < 0 ? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
@@ -68,7 +68,7 @@ namespace sprout {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_integer_digits<IntType, Base>::value> access_type;
 			return access_type::raw_construct(
 				static_cast<std::size_t>(digits),
-				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 					: Elem()
 					)...
 				);
-- 
2.43.0


From f1bdccbc47ecc54b52cfcf94b1cd364fa396ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 17/66] fix: int_digit_at and int_to_string handle the minimum
 value in power-of-two bases (base**digits overflowed, last digit dropped)

---
 sprout/detail/math/int.hpp      |  5 +++--
 sprout/string/int_to_string.hpp | 23 +++++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sprout/detail/math/int.hpp b/sprout/detail/math/int.hpp
index 6c1465f..170e591 100644
--- a/sprout/detail/math/int.hpp
+++ b/sprout/detail/math/int.hpp
@@ -84,8 +84,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return val < 0 ? -((val / sprout::detail::int_pow<IntType, Base>(digits)) % Base)
-				: (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base
+			return digits ? sprout::detail::int_digit_at<Base>(static_cast<IntType>(val / Base), digits - 1)
+				: val < 0 ? -(val % Base)
+				: val % Base
 				;
 		}
 		template<
diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index a705d37..f11b69b 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -13,6 +13,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/string/string.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/integer/integer_digits.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
@@ -23,6 +24,24 @@
 #include <sprout/detail/math/int.hpp>
 
 namespace sprout {
+	namespace detail {
+		//
+		// magnitude_digits
+		//	the magnitude of the minimum value can have one digit more than the maximum value
+		//
+		template<typename IntType, std::size_t Base>
+		struct magnitude_digits
+			: public sprout::integral_constant<
+				std::size_t,
+				(sprout::integer_digits<IntType, Base>::value
+					< static_cast<std::size_t>(sprout::detail::int_digits<static_cast<int>(Base)>(sprout::numeric_limits<IntType>::min()))
+					)
+					? static_cast<std::size_t>(sprout::detail::int_digits<static_cast<int>(Base)>(sprout::numeric_limits<IntType>::min()))
+					: sprout::integer_digits<IntType, Base>::value
+			>
+		{};
+	}	// namespace detail
+
 	//
 	// printed_integer_digits
 	//
@@ -30,7 +49,7 @@ namespace sprout {
 	struct printed_integer_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::integer_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
+			sprout::detail::magnitude_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
 		>
 	{};
 
@@ -87,7 +106,7 @@ namespace sprout {
 		return sprout::detail::int_to_string<Elem, Base>(
 			val,
 			sprout::detail::int_digits<Base>(val),
-			sprout::make_index_tuple<sprout::integer_digits<IntType, Base>::value>::make()
+			sprout::make_index_tuple<sprout::detail::magnitude_digits<IntType, Base>::value>::make()
 			);
 	}
 
-- 
2.43.0


From c5dfd2ebdfbc66f73fc14d0ef8e6960aa0439e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 18/66] fix: gcd of large values no longer throws where
 recursion depth is limited (finishes with Euclid)

---
 sprout/math/gcd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/gcd.hpp b/sprout/math/gcd.hpp
index 203c286..ea6084a 100644
--- a/sprout/math/gcd.hpp
+++ b/sprout/math/gcd.hpp
@@ -57,8 +57,8 @@ namespace sprout {
 			}
 			template<int D, typename BuiltInUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			inline SPROUT_CONSTEXPR BuiltInUnsigned
-			gcd_binary_2_2(unsigned, sprout::array<BuiltInUnsigned, 2> const&, unsigned) {
-				return sprout::throw_recursive_function_template_instantiation_exeeded();
+			gcd_binary_2_2(unsigned shifts, sprout::array<BuiltInUnsigned, 2> const& r, unsigned) {
+				return sprout::math::detail::gcd_euclidean(r[0], r[1]) << shifts;
 			}
 			template<int D, typename BuiltInUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE_DECL(D)>
 			inline SPROUT_CONSTEXPR BuiltInUnsigned
@@ -88,8 +88,8 @@ namespace sprout {
 			}
 			template<int D, typename BuiltInUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
 			inline SPROUT_CONSTEXPR BuiltInUnsigned
-			gcd_binary_2_1(unsigned, sprout::array<BuiltInUnsigned, 2> const&, unsigned) {
-				return sprout::throw_recursive_function_template_instantiation_exeeded();
+			gcd_binary_2_1(unsigned shifts, sprout::array<BuiltInUnsigned, 2> const& r, unsigned) {
+				return sprout::math::detail::gcd_euclidean(r[0], r[1]) << shifts;
 			}
 #else
 			template<typename BuiltInUnsigned>
-- 
2.43.0


From 1f0cf9907268b13107b2fb131b26c5de75a0e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 19/66] fix: rational < integer passed quotient and remainder
 in the wrong order (-1/2 < 0 was false)

---
 sprout/rational/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index 2518640..d406aa7 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					r + lhs.denominator(), q - 1
+					q - 1, r + lhs.denominator()
 					)
 				: q < rhs
 				;
-- 
2.43.0


From cab2b783f69f1d05a159ab4569d9ea9b5776e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 20/66] fix: rational compound +=, -= and /= with itself as
 operand read already overwritten members (1/3 += itself gave 1)

---
 sprout/rational/rational.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..382f685 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -118,21 +118,25 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const rnum = rhs.num_;
+			IntType const rden = rhs.den_;
+			IntType g = sprout::gcd(den_, rden);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (rden / g) + rnum * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= rden / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const rnum = rhs.num_;
+			IntType const rden = rhs.den_;
+			IntType g = sprout::gcd(den_, rden);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (rden / g) - rnum * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= rden / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
@@ -143,16 +147,18 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator/=(rational const& rhs) {
-			if (rhs.num_ == IntType(0)) {
+			IntType const rnum = rhs.num_;
+			IntType const rden = rhs.den_;
+			if (rnum == IntType(0)) {
 				throw sprout::bad_rational();
 			}
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType gcd1 = sprout::gcd(num_, rnum);
+			IntType gcd2 = sprout::gcd(rden, den_);
+			num_ =(num_ / gcd1) * (rden / gcd2);
+			den_ =(den_ / gcd2) * (rnum / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0


From c408dde60a601f12eab7b2e8fd56e7f26bdbda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 21/66] fix: rational assignment recursed forever
 (copy-and-swap through a swap that assigns)

---
 sprout/rational/rational.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 382f685..13f3e1d 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -97,17 +97,15 @@ namespace sprout {
 		{}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
-			rational temp(rhs);
-			sprout::swap(temp, *this);
+			num_ = rhs.num_;
+			den_ = rhs.den_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
 			return assign(n, 1);
 		}
 		SPROUT_CXX14_CONSTEXPR rational& assign(param_type n, param_type d) {
-			rational temp(n, d);
-			sprout::swap(temp, *this);
-			return *this;
+			return *this = rational(n, d);
 		}
 
 		SPROUT_CONSTEXPR IntType numerator() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 8573a9d907c9c0acaf8f2532428ff9d38b805c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 22/66] fix: copy_while and copy_until could not be
 instantiated (std::pair returned as sprout::pair)

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From cfba9cc568c54a881b9723a7e5bea1e80cb33deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 23/66] fix: for_each_n never advanced its counter and ran past
 the end of the range

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..88946af 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++i, ++first) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From 8bd4ae46273183536f64c244c14d80654670cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 24/66] fix: stable_partition left satisfying elements behind
 non-satisfying ones (right half was partitioned from its satisfying prefix)

---
 sprout/algorithm/cxx14/stable_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..3e37e44 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -28,8 +28,9 @@ namespace sprout {
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
 			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			right_len -= sprout::distance(middle, right_split);
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From 5117f1e2521bacbc773849920757021eff780961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 25/66] fix: move_backward walked its first iterator backwards
 out of the range

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 61f0bc66221fe8f3bcfc195f3339db7d957a4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 26/66] fix: partial_sort_copy could not be instantiated
 (explicit comparison argument did not match the template)

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From f57fb0d53f4862f8e9cd71d9c86ac4c418afa196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 27/66] fix: stable_sort did not compile together with sort
 (two helpers named insertion_sort)

---
 sprout/algorithm/cxx14/detail/insertion_sort.hpp | 2 +-
 sprout/algorithm/cxx14/stable_sort.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/detail/insertion_sort.hpp b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
index f23484d..d852964 100644
--- a/sprout/algorithm/cxx14/detail/insertion_sort.hpp
+++ b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 
 		template<typename RandomAccessIterator, typename Compare>
 		inline SPROUT_CXX14_CONSTEXPR void
-		insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
+		guarded_insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::value_type value_type;
 			if (first == last) {
 				return;
diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..9dd494a 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::guarded_insertion_sort(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From eeba4f540c4c6c7da5d24fe0556d7c5bbcd5bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 28/66] fix: make_heap passed each prefix one element too short
 and did not build a heap

---
 sprout/algorithm/cxx14/make_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..27a8bd0 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 				last = first;
 				++last;
 				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i + 1);
 				}
 			}
 		}
-- 
2.43.0


From 1fdf15a794fcef04bfaba3c4f7e2ef7bf40352a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 29/66] fix: random_swap could pick the element one past the
 end

---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From 53ca50be6d2103465ff6603417c4b823dea66557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 30/66] fix: bitset find_first and find_next could not be
 instantiated (hidden overload, missing argument)

---
 sprout/bitset/bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..f5080bd 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From 88385c0da7b7232a47b211c3f3c1b0911f1d19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 31/66] fix: bitset could not be constructed from a character
 array (misspelt type)

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index f5080bd..b1cf2c9 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1146,7 +1146,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
-- 
2.43.0


From 3d8005059ec04e3e6fe40ee787bf459930f9cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:04 +0000
Subject: [PATCH 32/66] fix: bitset from integer shifted by the full width of
 the integer

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index b1cf2c9..d92ce02 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -230,7 +230,7 @@ namespace sprout {
 			{}
 			base_bitset(base_bitset<N> const&) = default;
 			SPROUT_CONSTEXPR base_bitset(unsigned long long val) SPROUT_NOEXCEPT
-				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value))}
+				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value - 1) >> 1)}
 			{}
 			template<typename... Words>
 			SPROUT_CONSTEXPR base_bitset(sprout::detail::base_bitset_from_words_construct_tag, Words... words)
-- 
2.43.0


From 9437f637ce26001beced2afac120e222ac7f5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:56 +0000
Subject: [PATCH 33/66] fix: bitset extraction did not report failure when no
 digit was read

---
 sprout/bitset/io.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sprout/bitset/io.hpp b/sprout/bitset/io.hpp
index 1b83d86..b0a859b 100644
--- a/sprout/bitset/io.hpp
+++ b/sprout/bitset/io.hpp
@@ -58,10 +58,9 @@ namespace sprout {
 			state |= ios_base::failbit;
 		} else {
 			rhs.copy_from_string(tmp, static_cast<std::size_t>(0), N, zero, one);
-			if (state) {
-				lhs.setstate(state);
-				return lhs;
-			}
+		}
+		if (state) {
+			lhs.setstate(state);
 		}
 		return lhs;
 	}
-- 
2.43.0


From c05f945b5fa4d6b27c4b6b97e57871f5a2a3912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 34/66] fix: string assign, append and copy threw for a
 position equal to the size (so assigning an empty string threw)

---
 sprout/string/string.hpp                   | 2 +-
 sprout/utility/string_view/string_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..1ee50e0 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -891,7 +891,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string<>: index out of range")
 				: (void)0
 				;
 		}
diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..85d973b 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -438,7 +438,7 @@ namespace sprout {
 		// others:
 		SPROUT_CXX14_CONSTEXPR void
 		rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string_view<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string_view<>: index out of range")
 				: (void)0
 				;
 		}
-- 
2.43.0


From 8ad540b621cc8aad775bbb6d689ecba673d27a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 35/66] fix: string_view::substr with a count beyond the end
 made a view past the end of the string

---
 sprout/utility/string_view/string_view.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 85d973b..c9e795f 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -365,9 +365,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string_view
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? n == npos
-					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+			return !(size() < pos) ? basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
-- 
2.43.0


From 046ee37dd3747eef1a982f321e1e1b8eb22783d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 36/66] fix: char_traits::move corrupted an overlapping range
 that starts before the source

---
 sprout/string/char_traits.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..a6fd489 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -18,10 +18,10 @@
 #include <sprout/algorithm/find_if.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
 #include <sprout/algorithm/cxx14/copy.hpp>
-#include <sprout/algorithm/cxx14/copy_backward.hpp>
 #include <sprout/algorithm/cxx14/fill.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/cstring/strlen.hpp>
+#include <sprout/cstring/memmove.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -114,8 +114,7 @@ namespace sprout {
 				);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type const* s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
-			return s1;
+			return sprout::detail::memmove(s1, s2, n);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* copy(char_type* s1, char_type const* s2, std::size_t n) {
 			sprout::copy(s2, s2 + n, s1);
@@ -200,8 +199,7 @@ namespace sprout {
 		}
 		template<typename BidirectionalIterator1, typename BidirectionalIterator2>
 		static SPROUT_CXX14_CONSTEXPR BidirectionalIterator1 move(BidirectionalIterator1 s1, BidirectionalIterator2 s2, std::size_t n) {
-			sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
-			return s1;
+			return sprout::detail::memmove(s1, s2, n);
 		}
 		template<typename OutputIterator, typename BidirectionalIterator>
 		static SPROUT_CXX14_CONSTEXPR OutputIterator copy(OutputIterator s1, BidirectionalIterator s2, std::size_t n) {
-- 
2.43.0


From a273411bfc97b87adae4aabe92ef9ba966c77608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 37/66] fix: string assign and append from input iterators
 accepted one character over the capacity and left a partial write behind

---
 sprout/string/string.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 1ee50e0..638debd 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -304,15 +304,11 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = begin();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
+			basic_string temp;
+			for (; first != last; ++first) {
+				temp.push_back(*first);
 			}
-			put_terminator(sprout::distance(begin(), it));
-			return *this;
+			return assign(temp);
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
@@ -328,15 +324,11 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = end();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
+			basic_string temp(*this);
+			for (; first != last; ++first) {
+				temp.push_back(*first);
 			}
-			put_terminator(size() + sprout::distance(end(), it));
-			return *this;
+			return assign(temp);
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
-- 
2.43.0


From 4ca93c60ac2f736cce8224bace044c0f61b260cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 38/66] fix: string append of a huge count passed the length
 check by wrapping around

---
 sprout/string/string.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 638debd..409a1dd 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -295,6 +295,12 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR void
+		appendcheck(size_type n) const {
+			if (n > max_size() - size()) {
+				throw std::length_error("basic_string<>: length exceeded");
+			}
+		}
+		SPROUT_CXX14_CONSTEXPR void
 		put_terminator(size_type n) {
 			if (n < size()) {
 				traits_type::assign(begin() + n, size() - n, value_type());
@@ -333,7 +339,7 @@ namespace sprout {
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(ForwardIterator first, ForwardIterator last, std::forward_iterator_tag*) {
-			lengthcheck(size() + sprout::distance(first, last));
+			appendcheck(sprout::distance(first, last));
 			iterator it = end();
 			for (; first != last; ++first, ++it) {
 				traits_type::assign(*it, *first);
@@ -611,7 +617,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(value_type const* s, size_type n) {
-			lengthcheck(size() + n);
+			appendcheck(n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
 			return *this;
@@ -622,7 +628,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(size_type n, value_type c) {
-			lengthcheck(size() + n);
+			appendcheck(n);
 			traits_type::assign(end(), n, c);
 			put_terminator(size() + n);
 			return *this;
@@ -905,7 +911,7 @@ namespace sprout {
 			basic_string&
 		>::type
 		append(StringConstIterator s, size_type n) {
-			lengthcheck(size() + n);
+			appendcheck(n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
 			return *this;
@@ -1139,7 +1145,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(T const& rhs) {
-			lengthcheck(size() + 1);
+			appendcheck(1);
 			traits_type::move(begin() + 1, begin(), size());
 			traits_type::assign(begin(), 1, rhs);
 			put_terminator(size() + 1);
@@ -1148,7 +1154,7 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(value_type const* rhs) {
 			size_type rlen = traits_type::length(rhs);
-			lengthcheck(size() + rlen);
+			appendcheck(rlen);
 			traits_type::move(begin() + rlen, begin(), size());
 			traits_type::move(begin(), rhs, rlen);
 			put_terminator(size() + rlen);
@@ -1157,7 +1163,7 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(basic_string<T, N2, Traits> const& rhs) {
-			lengthcheck(size() + rhs.size());
+			appendcheck(rhs.size());
 			traits_type::move(begin() + rhs.size(), begin(), size());
 			traits_type::move(begin(), rhs.begin(), rhs.size());
 			put_terminator(size() + rhs.size());
@@ -1165,7 +1171,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(std::initializer_list<value_type> rhs) {
-			lengthcheck(size() + rhs.size());
+			appendcheck(rhs.size());
 			traits_type::move(begin() + rhs.size(), begin(), size());
 			traits_type::move(begin(), rhs.begin(), rhs.size());
 			put_terminator(size() + rhs.size());
-- 
2.43.0


From d66ed0363437845eb3e7dea6c4eef1c37176a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 39/66] fix: string construction from a position past the end
 of another string read out of bounds

---
 sprout/string/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 409a1dd..b71314e 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -361,14 +361,16 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(basic_string const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2, typename Enable = typename std::enable_if<(N2 < N)>::type>
 		SPROUT_CONSTEXPR basic_string(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N2>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2 SPROUT_ENABLE_IF_WITH_ARRAY_IN_TEMPLATE_PARAMS((N2 - 1 <= N))>
-- 
2.43.0


From aea984ee63086b4392bf910d1f1a8b7d42a4fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 40/66] fix: string construction from a pointer and a count
 read beyond the count

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index b71314e..7fc595d 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -396,7 +396,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(value_type const* s, size_type n)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				sprout::detail::string_checked_construct_t(), s, 0, NS_SSCRISK_CEL_OR_SPROUT::min(n, traits_type::length(s))
+				sprout::detail::string_checked_construct_t(), s, 0, sprout::char_traits_helper<traits_type>::length(s, NS_SSCRISK_CEL_OR_SPROUT::min(n, N + 1))
 				)
 		{}
 		SPROUT_CONSTEXPR basic_string(size_type n, value_type c)
-- 
2.43.0


From 3f5455785ac7b76984a8131381987d85eeb092b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 41/66] fix: string assign of too many characters threw
 out_of_range instead of length_error

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 7fc595d..652436d 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -677,7 +677,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(size_type n, value_type c) {
-			maxcheck(n);
+			lengthcheck(n);
 			traits_type::assign(begin(), n, c);
 			put_terminator(n);
 			return *this;
-- 
2.43.0


From 777323cd1bfa94753232361769c34336e27ed040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 42/66] fix: string extraction overwrote the characters it read
 with terminators

---
 sprout/string/io.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index aceddb9..ec53f33 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -30,8 +30,8 @@ namespace sprout {
 		typedef typename string_type::size_type size_type;
 		std::ios_base::iostate state = std::ios_base::goodbit;
 		bool changed = false;
-		size_type current = 0;
 		if (typename istream_type::sentry(lhs)) {
+			rhs.clear();
 			ctype_type const& ctype_fac = std::use_facet<ctype_type>(lhs.getloc());
 			try {
 				size_type remain = 0 < lhs.width() && static_cast<size_type>(lhs.width()) < rhs.max_size()
@@ -46,9 +46,8 @@ namespace sprout {
 					} else if (ctype_fac.is(ctype_type::space, traits_type::to_char_type(meta))) {
 						break;
 					} else {
-						rhs[current] = traits_type::to_char_type(meta);
+						rhs.push_back(traits_type::to_char_type(meta));
 						changed = true;
-						++current;
 					}
 			} catch (...) {
 				state |= std::ios_base::badbit;
@@ -59,7 +58,6 @@ namespace sprout {
 			state |= std::ios_base::failbit;
 		}
 		lhs.setstate(state);
-		rhs.resize(current);
 		return lhs;
 	}
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
-- 
2.43.0


From a2662c85b296f00a0dacef26ffc799aa27cbeae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 43/66] fix: string find_first_not_of and find_last_not_of of a
 string iterator did not compile

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 652436d..9ba8709 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1033,7 +1033,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1049,7 +1049,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 50fea1c276126d40300a9409c5c7b0157ce2d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 44/66] fix: string find_last_of of a string iterator searched
 only the first character by default

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 9ba8709..27e9a33 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1016,7 +1016,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
-- 
2.43.0


From bd00b5369681cf88e12ebc32aaff0e5e1f57a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 45/66] fix: fit::partition and fit::stable_partition sized
 their result by the elements that do not satisfy the predicate

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 2233017766a0413ec793ebc6d6b31bf228767df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 46/66] fix: fixed::unique_copy wrote one element when the
 result range is empty

---
 sprout/algorithm/fixed/unique_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..6f5a3ea 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,7 +144,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From d67a47771bf366a8fc88133345f7073625e8f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:41 +0000
Subject: [PATCH 47/66] fix: fixed::stable_sort (and sort) of an empty
 sub-range read and wrote an element outside it

---
 sprout/algorithm/fixed/stable_sort.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/algorithm/fixed/stable_sort.hpp b/sprout/algorithm/fixed/stable_sort.hpp
index 218f266..d9a4522 100644
--- a/sprout/algorithm/fixed/stable_sort.hpp
+++ b/sprout/algorithm/fixed/stable_sort.hpp
@@ -179,15 +179,17 @@ namespace sprout {
 				typename sprout::container_traits<Container>::size_type size
 				)
 			{
-				return sprout::fixed::detail::stable_sort_impl_1(
-					cont, comp,
-					size,
-					sprout::next(sprout::begin(cont)),
-					sprout::end(cont),
-					*sprout::begin(cont),
-					1,
-					sprout::begin(cont)
-					);
+				return size > 1 ? sprout::fixed::detail::stable_sort_impl_1(
+						cont, comp,
+						size,
+						sprout::next(sprout::begin(cont)),
+						sprout::end(cont),
+						*sprout::begin(cont),
+						1,
+						sprout::begin(cont)
+						)
+					: sprout::deep_copy(cont)
+					;
 			}
 			template<typename Container, typename Compare>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 28aed040ecacf3ac838d3eb78b7bcfbb6c09c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:45 +0000
Subject: [PATCH 48/66] fix: copying a non-const variant selected the
 converting constructor and did not compile

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From 42c0176090cd762a67fab97f711e56c5f65ffe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:45 +0000
Subject: [PATCH 49/66] fix: pair assigned from a const tuple took the first
 element twice

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From ac3e603eb1f166c89e2eec293f41cf3953ab1a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:45 +0000
Subject: [PATCH 50/66] fix: reverse iteration over an optional dereferenced a
 null pointer (end held no value)

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..fbf1b78 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From 3cb548fd867e6888f21290c2374d3c6a5484c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 51/66] fix: floor and ceil (portable versions) accepted an
 epsilon, so that the result could be on the wrong side of the argument

---
 sprout/math/ceil.hpp   | 3 +--
 sprout/math/floor.hpp  | 3 +--
 sprout/math/iceil.hpp  | 4 +---
 sprout/math/ifloor.hpp | 4 +---
 4 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index a72c3c2..5e53d0e 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -16,7 +16,6 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
-#include <sprout/math/equal_to.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
@@ -40,7 +39,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ceil_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 + T(1)
 					;
 			}
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b018752..465a369 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -16,7 +16,6 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
-#include <sprout/math/equal_to.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
@@ -40,7 +39,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			floor_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 - T(1)
 					;
 			}
diff --git a/sprout/math/iceil.hpp b/sprout/math/iceil.hpp
index 86def99..1297517 100644
--- a/sprout/math/iceil.hpp
+++ b/sprout/math/iceil.hpp
@@ -18,8 +18,6 @@
 #include <sprout/type_traits/enabler_if.hpp>
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 #	include <sprout/math/ceil.hpp>
-#else
-#	include <sprout/math/less_equal.hpp>
 #endif
 
 namespace sprout {
@@ -54,7 +52,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			iceil_impl(FloatType x, To x0) {
-				return sprout::math::less_equal(x, x0) ? x0
+				return x <= x0 ? x0
 					: x0 + 1
 					;
 			}
diff --git a/sprout/math/ifloor.hpp b/sprout/math/ifloor.hpp
index a664fc8..9da30a0 100644
--- a/sprout/math/ifloor.hpp
+++ b/sprout/math/ifloor.hpp
@@ -18,8 +18,6 @@
 #include <sprout/type_traits/enabler_if.hpp>
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 #	include <sprout/math/floor.hpp>
-#else
-#	include <sprout/math/greater_equal.hpp>
 #endif
 
 namespace sprout {
@@ -54,7 +52,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			ifloor_impl(FloatType x, To x0) {
-				return sprout::math::greater_equal(x, x0) ? x0
+				return x >= x0 ? x0
 					: x0 - 1
 					;
 			}
-- 
2.43.0


From f5367f17f2b83922e9bfc4ac55d7d4d5f198001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 52/66] fix: floor, ceil, trunc and round (portable versions)
 of 2^64 converted a value out of the range of uintmax_t

---
 sprout/math/ceil.hpp  | 2 +-
 sprout/math/floor.hpp | 2 +-
 sprout/math/round.hpp | 2 +-
 sprout/math/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index 5e53d0e..629d1cb 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -67,7 +67,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_ceil(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("ceil: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::ceil_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index 465a369..60b995e 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -67,7 +67,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_floor(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("floor: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::floor_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/round.hpp b/sprout/math/round.hpp
index 1d2a361..ea8e9d7 100644
--- a/sprout/math/round.hpp
+++ b/sprout/math/round.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_round(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("round: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::round_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/trunc.hpp b/sprout/math/trunc.hpp
index 80eaba3..291ef4c 100644
--- a/sprout/math/trunc.hpp
+++ b/sprout/math/trunc.hpp
@@ -51,7 +51,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_trunc(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("trunc: large float rounding."), x)
 				: x < 0 ? -static_cast<FloatType>(static_cast<std::uintmax_t>(-x))
 				: static_cast<FloatType>(static_cast<std::uintmax_t>(x))
-- 
2.43.0


From 58f19417d3b6c64f083358c09a52e6c609ae6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 53/66] fix: issubnormal of float and long double used the
 smallest normal double

---
 sprout/math/issubnormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/issubnormal.hpp b/sprout/math/issubnormal.hpp
index 5cf7230..2f60a1e 100644
--- a/sprout/math/issubnormal.hpp
+++ b/sprout/math/issubnormal.hpp
@@ -28,8 +28,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			issubnormal_or_zero(FloatType x) {
 				return x > 0
-					? x < sprout::numeric_limits<double>::min()
-					: x > -sprout::numeric_limits<double>::min()
+					? x < sprout::numeric_limits<FloatType>::min()
+					: x > -sprout::numeric_limits<FloatType>::min()
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From d83f086b928daff208cc6b75721df79525ac318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:38 +0000
Subject: [PATCH 54/66] fix: math::equal_to of a negative and an unsigned
 integer compared the wrapped value

---
 sprout/math/equal_to.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/equal_to.hpp b/sprout/math/equal_to.hpp
index e6d613f..c67620e 100644
--- a/sprout/math/equal_to.hpp
+++ b/sprout/math/equal_to.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			>
 			inline SPROUT_CONSTEXPR bool
 			equal_to(IntType1 x, IntType2 y) {
-				return x == y;
+				return (x < 0) == (y < 0) && x == y;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 0f08e1721bc82f96dcff5aa256ebd0642b8f6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 55/66] fix: math::equal_to held an infinity equal to every
 number

---
 sprout/math/equal_to.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/math/equal_to.hpp b/sprout/math/equal_to.hpp
index c67620e..8a1684c 100644
--- a/sprout/math/equal_to.hpp
+++ b/sprout/math/equal_to.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/math/fabs.hpp>
+#include <sprout/math/isinf.hpp>
 #include <sprout/type_traits/arithmetic_promote.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/algorithm/detail/max.hpp>
@@ -29,8 +30,10 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			equal_to_impl(FloatType x, FloatType y) {
 				return x == y
-					|| sprout::fabs(x - y)
-						<= sprout::numeric_limits<FloatType>::epsilon() * sprout::math::detail::max3(sprout::fabs(x), sprout::fabs(y), FloatType(1))
+					|| (!sprout::math::isinf(x) && !sprout::math::isinf(y)
+						&& sprout::fabs(x - y)
+							<= sprout::numeric_limits<FloatType>::epsilon() * sprout::math::detail::max3(sprout::fabs(x), sprout::fabs(y), FloatType(1))
+						)
 					;
 			}
 
-- 
2.43.0


From e330f36ba28b10b966483720de47859fef5bdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 56/66] fix: fdim(inf, inf) was infinity

---
 sprout/math/fdim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..48dfff9 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,9 +45,9 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
+				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
-				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == -sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				: sprout::math::detail::builtin_fdim(x, y)
-- 
2.43.0


From 13be8ad9e294cfffeeb0152be4b386b4f2d3b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 57/66] fix: lround and llround of an integer did not compile
 with the built-in functions

---
 sprout/math/llround.hpp | 2 +-
 sprout/math/lround.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/llround.hpp b/sprout/math/llround.hpp
index 660fc75..3aca469 100644
--- a/sprout/math/llround.hpp
+++ b/sprout/math/llround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		llround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_llround(x)
+				sprout::math::detail::builtin_llround(static_cast<double>(x))
 #else
 				sprout::math::iround<long long>(x)
 #endif
diff --git a/sprout/math/lround.hpp b/sprout/math/lround.hpp
index e2d42ca..575938d 100644
--- a/sprout/math/lround.hpp
+++ b/sprout/math/lround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		lround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_lround(x)
+				sprout::math::detail::builtin_lround(static_cast<double>(x))
 #else
 				sprout::math::iround<long>(x)
 #endif
-- 
2.43.0


From 525d3b81a67b4c2fdefb35228efe45ae9b7475b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 58/66] fix: iround<To> of an integer rounded to int

---
 sprout/math/iround.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/iround.hpp b/sprout/math/iround.hpp
index bc24f97..ce131f4 100644
--- a/sprout/math/iround.hpp
+++ b/sprout/math/iround.hpp
@@ -92,7 +92,7 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR To
 		iround(IntType x) {
-			return sprout::math::iround(static_cast<double>(x));
+			return sprout::math::iround<To>(static_cast<double>(x));
 		}
 	}	// namespace math
 
-- 
2.43.0


From b35b71f861a8e0bb8d4a889ccd259a8d7d9c73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:49 +0000
Subject: [PATCH 59/66] fix: islessequal (portable version) was false for equal
 arguments

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 0aeef3ca645923d9e9c8d3b1f4802a776be3aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:27 +0000
Subject: [PATCH 60/66] fix: npos < UInt compared for equality

---
 sprout/string/npos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/npos.hpp b/sprout/string/npos.hpp
index b2fa1af..630bb74 100644
--- a/sprout/string/npos.hpp
+++ b/sprout/string/npos.hpp
@@ -78,7 +78,7 @@ namespace sprout {
 	template<typename UIntType, typename sprout::enabler_if<sprout::is_uint<UIntType>::value>::type = sprout::enabler>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::npos_t lhs, UIntType const& rhs) {
-		return rhs == lhs;
+		return UIntType(lhs) < rhs;
 	}
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::npos_t, sprout::npos_t) {
-- 
2.43.0


From 9df32b520599e1f54cec7eb6a9abc4b730e7798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:18 +0000
Subject: [PATCH 61/66] fix: adjacent_difference into a non-empty container did
 not compile

---
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From d753e014eb6f2d173a69e96830d66ebfe7158193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:18 +0000
Subject: [PATCH 62/66] fix: exclusive_scan<Result> did not compile

---
 sprout/numeric/fixed/exclusive_scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..eabf780 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -104,7 +104,7 @@ namespace sprout {
 		template<typename Result, typename InputIterator, typename T>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		exclusive_scan(InputIterator first, InputIterator last, T init) {
-			return sprout::fixed::exclusive_scan<Result>(first, last, sprout::pit<Result>(), init);
+			return sprout::fixed::exclusive_scan(first, last, sprout::pit<Result>(), init);
 		}
 
 		namespace detail {
-- 
2.43.0


From 85e3e6596323b40bfdc534c365d2c0b949aca678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:18 +0000
Subject: [PATCH 63/66] fix: transform_inclusive_scan with an initial value did
 not compile

---
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..6c43859 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -114,7 +114,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -176,7 +176,7 @@ namespace sprout {
 	template<typename Result, typename InputIterator, typename BinaryOperation, typename UnaryOperation, typename T>
 	inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 	transform_inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
-		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, unary_op, init);
+		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, init);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 474930b3db7acecbe152b664ff5f2642971cd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:51 +0000
Subject: [PATCH 64/66] fix: fit::partial_sum and fit::adjacent_difference with
 an operation did not compile

---
 sprout/numeric/fit/adjacent_difference.hpp | 2 +-
 sprout/numeric/fit/partial_sum.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From e1912d7aac58d557048ed99dbaf85885ae7622fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:08 +0000
Subject: [PATCH 65/66] fix: exclusive scans of an empty range produced an
 element

---
 sprout/numeric/cxx14/exclusive_scan.hpp        |  6 +++---
 .../numeric/cxx14/transform_exclusive_scan.hpp |  6 +++---
 sprout/numeric/fixed/exclusive_scan.hpp        | 18 ++++++++++++------
 .../numeric/fixed/transform_exclusive_scan.hpp |  9 ++++++---
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..7a36e36 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = *first;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 14d9c10..fc205a8 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index eabf780..689d643 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init,
+				InputIterator const& first, InputIterator const& last, Result const& result, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -89,7 +92,7 @@ namespace sprout {
 			{
 				return first != last
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
@@ -159,11 +162,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation,
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -177,7 +183,7 @@ namespace sprout {
 			{
 				return first != last
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index dc009c2..ec40231 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation, UnaryOperation,
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation, UnaryOperation,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -89,7 +92,7 @@ namespace sprout {
 			{
 				return first != last
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 3859f35313f769bfbd0e8408d4640a46ba2cd00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:52 +0000
Subject: [PATCH 66/66] fix: scans into an empty part of a container wrote
 outside it

---
 sprout/numeric/fixed/adjacent_difference.hpp      |  4 ++--
 sprout/numeric/fixed/exclusive_scan.hpp           |  8 ++++----
 sprout/numeric/fixed/inclusive_scan.hpp           |  9 ++++++---
 sprout/numeric/fixed/partial_sum.hpp              |  4 ++--
 sprout/numeric/fixed/transform_exclusive_scan.hpp |  4 ++--
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 11 +++++++----
 6 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index c614581..ed6e31a 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, binary_op, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index 689d643..a08243c 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::detail::container_complate(result, init)
 					: sprout::detail::container_complate(result)
 					;
@@ -90,7 +90,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -166,7 +166,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::detail::container_complate(result, init)
 					: sprout::detail::container_complate(result)
 					;
@@ -181,7 +181,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/inclusive_scan.hpp b/sprout/numeric/fixed/inclusive_scan.hpp
index c68052e..a20c41a 100644
--- a/sprout/numeric/fixed/inclusive_scan.hpp
+++ b/sprout/numeric/fixed/inclusive_scan.hpp
@@ -69,7 +69,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return sprout::size(result) == 0 ? sprout::detail::container_complate(result)
+					: sprout::detail::container_complate(result, init)
+					;
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -81,8 +83,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
-					? partial_sum_impl_1(first, last, result, binary_op, size, init)
+				return size == 0 ? sprout::detail::container_complate(result)
+					: first != last
+						? partial_sum_impl_1(first, last, result, binary_op, size, init)
 					: sprout::detail::container_complate(result, init)
 					;
 			}
diff --git a/sprout/numeric/fixed/partial_sum.hpp b/sprout/numeric/fixed/partial_sum.hpp
index d0144cc..6e56a46 100644
--- a/sprout/numeric/fixed/partial_sum.hpp
+++ b/sprout/numeric/fixed/partial_sum.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, size, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, binary_op, size, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index ec40231..0a87092 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::detail::container_complate(result, init)
 					: sprout::detail::container_complate(result)
 					;
@@ -90,7 +90,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 6c43859..581b76a 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_inclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, unary_op(*first))
 					: sprout::detail::container_complate(result)
 					;
@@ -118,7 +118,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return sprout::size(result) == 0 ? sprout::detail::container_complate(result)
+					: sprout::detail::container_complate(result, init)
+					;
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename UnaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -130,8 +132,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
-					? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
+				return size == 0 ? sprout::detail::container_complate(result)
+					: first != last
+						? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
 					: sprout::detail::container_complate(result, init)
 					;
 			}
-- 
2.43.0

