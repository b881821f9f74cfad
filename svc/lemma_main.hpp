// native driver of contract lemmas (bounded stand-in and counterexample replay)
#include <cmath>
#include <exception>
namespace svc {
bool lo_hi = false; long long lo_v, hi_v;
struct Skip {};
struct Val { std::string name; std::string text; };
static Rng* g_r; static std::vector<Val> g_tape; static std::vector<std::string> g_replay; static std::size_t g_pos; static bool g_rep; static char const* g_lem = ""; static bool g_throw; static std::uint64_t g_h;
inline void note_(char const* n, std::string t) { for (char c : t) { g_h ^= (unsigned char)c; g_h *= 1099511628211ull; } g_tape.push_back(Val{n, t}); }
[[noreturn]] inline void fail_(char const* what) {
  std::string s; for (auto& v : g_tape) { if (s.size() > 1500) { s += " ..."; break; } s += " " + v.name + "=" + v.text; }
  std::printf("FAIL lemma_%s: %s : with%s\n", g_lem, what, s.c_str()); std::fflush(stdout); std::_Exit(1);
}
template<class U> U pick(char const* n) {
  U v; typedef typename std::make_signed<U>::type S;
  if (g_rep) v = g_pos < g_replay.size() ? (U)std::strtoull(g_replay[g_pos++].c_str(), 0, 10) : (U)0;
  else if (lo_hi) { long long lo = lo_v, hi = hi_v; unsigned long long w = (unsigned long long)hi - (unsigned long long)lo;
    switch (g_r->range(0, 5)) { case 0: v = (U)(lo + (long long)std::min<unsigned long long>(w, g_r->range(0, 2))); break; case 1: v = (U)(hi - (long long)std::min<unsigned long long>(w, g_r->range(0, 2))); break;
      default: v = (U)((unsigned long long)lo + (w + 1 ? g_r->next() % (w + 1) : g_r->next())); } }
  else v = g_r->chance(2) ? any_int<U>(*g_r) : (U)any_int<S>(*g_r);
  note_(n, std::to_string((unsigned long long)v) + ((S)v < 0 ? "(" + std::to_string((long long)(S)v) + ")" : ""));
  return v;
}
template<class F, class U> F pickf(char const* n) {
  F v;
  if (g_rep) { U u = g_pos < g_replay.size() ? (U)std::strtoull(g_replay[g_pos++].c_str(), 0, 10) : (U)0; std::memcpy(&v, &u, sizeof(U)); }
  else switch (g_r->range(0, 9)) {
    case 0: { static F const sp[] = {F(0), -F(0), F(1), F(-1), F(0.5), F(-0.5), std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::quiet_NaN(), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), -std::numeric_limits<F>::denorm_min()}; v = sp[g_r->next() % 14]; break; }
    case 1: v = (F)g_r->range(-20, 20); break;
    case 2: v = (F)g_r->range(-20, 20) + F(0.5); break;
    case 3: v = (F)g_r->range(-2000000000LL, 2000000000LL) / F(8); break;
    case 4: v = std::ldexp((F)g_r->range(-9, 9), (int)g_r->range(-70, 70)); break;
    case 5: { F b = std::ldexp(F(1), (int)g_r->range(-5, 66)); v = g_r->chance(2) ? std::nextafter(b, F(0)) : std::nextafter(b, b * 2); if (g_r->chance(2)) v = -v; break; }
    case 6: { F b = (F)g_r->range(-40, 40) / F(2); v = g_r->chance(2) ? std::nextafter(b, F(-1000)) : std::nextafter(b, F(1000)); break; }
    case 7: v = (F)(g_r->next() >> 11) / (F)9007199254740992.0; break;
    default: { U u = (U)g_r->next(); std::memcpy(&v, &u, sizeof(U)); } }
  char b[64]; std::snprintf(b, sizeof b, "%.21g", (double)v); note_(n, b);
  return v;
}
}
extern "C" {
  bool svc_any1(char const* n) { bool v = svc::g_rep ? (svc::g_pos < svc::g_replay.size() && svc::g_replay[svc::g_pos++] == "1") : svc::g_r->chance(2); svc::note_(n, v ? "1" : "0"); return v; }
  std::uint8_t svc_any8(char const* n) { return svc::pick<std::uint8_t>(n); }
  std::uint16_t svc_any16(char const* n) { return svc::pick<std::uint16_t>(n); }
  std::uint32_t svc_any32(char const* n) { return svc::pick<std::uint32_t>(n); }
  std::uint64_t svc_any64(char const* n) { return svc::pick<std::uint64_t>(n); }
  float svc_anyf(char const* n) { return svc::pickf<float, std::uint32_t>(n); }
  double svc_anyd(char const* n) { return svc::pickf<double, std::uint64_t>(n); }
  long double svc_anyl(char const* n) { return svc::pickf<double, std::uint64_t>(n); }
  void svc_assume(bool c) { if (!c) throw svc::Skip(); }
  void svc_assert(bool c, char const* w) { if (!c) svc::fail_(w); }
  void svc_throws(bool c) { svc::g_throw = c; }
}
static int svc_one(svc::Lem& l) {
  using namespace svc;
  g_tape.clear(); g_pos = 0; g_throw = false; g_lem = l.name; lo_hi = false;
  try { l.f(); if (g_throw) fail_("an exception is raised as specified"); }
  catch (Skip) { return 0; }
  catch (std::exception&) { if (!g_throw) fail_("exception only as specified"); }
  return 1;
}
int main(int argc, char** argv) {
  using namespace svc;
  if (argc > 2 && std::string(argv[1]) == "--replay") {
    g_rep = true; for (int i = 3; i < argc; ++i) g_replay.push_back(argv[i]);
    for (auto& l : lems()) if (argv[2] == std::string(l.name)) { Rng r(1); g_r = &r; int k = svc_one(l); std::printf("OK replay %d\n", k); }
    return 0;
  }
  Run R(argc, argv); g_r = &R.r;
  std::vector<unsigned long long> ok(lems().size());
  while (R.more()) for (std::size_t i = 0; i < lems().size(); ++i) { g_h = 1469598103934665603ull + i; if (svc_one(lems()[i])) { ++ok[i]; R.note(g_h); } }
  unsigned long long t = 0; std::size_t z = 0; for (auto k : ok) { t += k; z += !k; }
  std::printf("OK lemmas=%zu never_reached=%zu evaluations=%llu distinct=%zu\n", lems().size(), z, t, R.seen.size());
  for (std::size_t i = 0; i < ok.size(); ++i) if (!ok[i]) std::fprintf(stderr, "never reached: %s\n", lems()[i].name);
  return 0;
}
