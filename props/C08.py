from svc.driver import lemmas

SRC = r'''
#include <cstring>
#include <sprout/net/endian.hpp>
typedef unsigned char byte;
template<class T> void order() {
  ANY(T, x); byte b[sizeof(T)], h[sizeof(T)];
  T n = sprout::net::hton(x); std::memcpy(b, &n, sizeof(T));
  bool ok = true; for (std::size_t i = 0; i < sizeof(T); ++i) ok = ok && b[i] == (byte)(x >> (8 * (sizeof(T) - 1 - i)));
  ENSURE(ok, "hton stores the value most significant byte first");
  ENSURE(sprout::net::ntoh(n) == x, "ntoh undoes hton");
  ENSURE(sprout::net::hton(sprout::net::ntoh(x)) == x, "hton undoes ntoh");
  std::memcpy(b, &x, sizeof(T)); T y = sprout::net::ntoh(x); ok = true;
  for (std::size_t i = 0; i < sizeof(T); ++i) ok = ok && b[i] == (byte)(y >> (8 * (sizeof(T) - 1 - i)));
  ENSURE(ok, "ntoh reads the memory image most significant byte first");
}
LEMMA(order_u8) { order<std::uint8_t>(); }
LEMMA(order_u16) { order<std::uint16_t>(); }
LEMMA(order_u32) { order<std::uint32_t>(); }
LEMMA(order_u64) { order<std::uint64_t>(); }
LEMMA(posix) {
  ANY(std::uint32_t, x); ANY(std::uint16_t, s);
  ENSURE(sprout::net::htonl(x) == __builtin_bswap32(x), "htonl is the big-endian image on this little-endian host"); ENSURE(sprout::net::ntohl(x) == __builtin_bswap32(x), "ntohl likewise");
  ENSURE(sprout::net::htons(s) == __builtin_bswap16(s), "htons is the big-endian image"); ENSURE(sprout::net::ntohs(s) == __builtin_bswap16(s), "ntohs likewise");
}
'''

PARTS = r'''
#include <cstring>
#include <sprout/net/endian.hpp>
typedef unsigned char byte;
template<class T> void parts() {
  using namespace sprout::net::detail;
  ANY(T, x); ANY_IN(std::uint_fast8_t, i, 0, sizeof(T) - 1); ANY_IN(std::uint_fast8_t, j, 0, sizeof(T) - 1); ANY(std::uint8_t, v);
  ENSURE(byte_at(x, i) == (byte)(x >> (8 * i)), "byte_at reads byte i");
  T r = replace_at(x, v, i), s = sprout::net::detail::swap(x, i, j), w = reverse_words(x); bool a = true, b = true, c = true;
  for (std::size_t k = 0; k < sizeof(T); ++k) {
    a = a && (byte)(r >> (8 * k)) == (k == i ? v : (byte)(x >> (8 * k)));
    b = b && (byte)(s >> (8 * k)) == (byte)(x >> (8 * (k == i ? j : k == j ? i : k)));
    c = c && (byte)(w >> (8 * k)) == (byte)(x >> (8 * (k ^ 1)));
  }
  ENSURE(a, "replace_at replaces byte i only"); ENSURE(b, "swap exchanges bytes i and j only"); ENSURE(c, "reverse_words exchanges the bytes of each 16-bit word");
}
LEMMA(parts_u16) { parts<std::uint16_t>(); }
LEMMA(parts_u32) { parts<std::uint32_t>(); }
LEMMA(parts_u64) { parts<std::uint64_t>(); }
'''


def units(tier):
    return [lemmas('endian', SRC, mode='bv'), lemmas('endian_parts', PARTS, mode='bv')]
