//@ run quick u8 -DMODE=1 -DT=uint8_t covers:done
//@ run quick u16 -DMODE=1 -DT=uint16_t covers:done
//@ run quick u32 -DMODE=1 -DT=uint32_t covers:done
//@ run quick u64 -DMODE=1 -DT=uint64_t covers:done
//@ run quick range8 -DMODE=2 -DT=uint8_t covers:done
//@ run quick range16 -DMODE=2 -DT=uint16_t covers:done
//@ run quick range32 -DMODE=2 -DT=uint32_t covers:done
//@ run quick range64 -DMODE=2 -DT=uint64_t covers:done
//@ run quick iter8 -DMODE=3 -DT=uint8_t -DN=5 covers:done
//@ run quick iter16 -DMODE=3 -DT=uint16_t -DN=5 covers:done
//@ run quick iter64 -DMODE=3 -DT=uint64_t -DN=3 covers:done
//@ run quick iter8long -DMODE=3 -DT=uint8_t -DN=12 covers:done
//@ run thorough iter64long -DMODE=3 -DT=uint64_t -DN=6 covers:done
//@ run quick iter8long-l -DMODE=3 -DT=uint8_t -DN=13 covers:done
//@ run quick iter16-l -DMODE=3 -DT=uint16_t -DN=6 covers:done
//@ run thorough iter64long-l -DMODE=3 -DT=uint64_t -DN=7 covers:done
#include "hx.h"
#include <macoro/sequence_traits.h>
#include <macoro/sequence_range.h>
using namespace macoro;
using Tr = sequence_traits<T>; using R = sequence_range<T>; using D = std::make_signed_t<T>;
static constexpr int W = sizeof(T) * 8; static constexpr T half = (T)1 << (W - 1);
static T sy(const char* n) { return (T)vk_sym(n, W); }
int main() {
#if MODE == 1
    T a = sy("a"), d = sy("d"), b = (T)(a + d), c = (T)(b + sy("e")); 
    static_assert(std::is_same_v<typename Tr::difference_type, D> && std::is_same_v<typename Tr::size_type, T>);
    CHECK((T)(Tr::initial_sequence + 1) == 0);
    CHECK((T)(a + (T)Tr::difference(b, a)) == b); CHECK(Tr::difference(b, a) == (D)d);           // the signed distance, for any a
    if (d != half) CHECK(Tr::precedes(a, b) == (d != 0 && d < half)); CHECK(!Tr::precedes(a, a));
    if (d != half) CHECK(Tr::precedes(b, a) == (d > half));
    if (d && d != half) CHECK(Tr::precedes(a, b) != Tr::precedes(b, a));                            // strict and total
    T e = (T)(c - b); if (d < half && e < half && (T)(d + e) < half && (T)(d + e) >= d) { CHECK(!Tr::precedes(c, a)); if (Tr::precedes(a, b) || Tr::precedes(b, c)) CHECK(Tr::precedes(a, c)); }  // transitive
    CHECK(Tr::precedes((T)(a + c), (T)(b + c)) == Tr::precedes(a, b));                              // the same everywhere on the circle
#elif MODE == 2
    T a = sy("a"), n = sy("n"); vk_assume(n < half); R r(a, (T)(a + n)); T k = sy("k"), i = sy("i");
    CHECK(r.size() == n && r.empty() == (n == 0)); CHECK(r.front() == a); if (n) CHECK(r.back() == (T)(a + n - 1)); if (i < n) CHECK(r[i] == (T)(a + i));
    CHECK(*r.begin() == a && r.end() - r.begin() == (D)n); CHECK((r.begin() == r.end()) == (n == 0) && (r.begin() != r.end()) == (n != 0));
    CHECK(*(r.begin() + (D)n) == (T)(a + n)); CHECK(r.begin() + (D)n == r.end()); CHECK(r.end() - (D)n == r.begin());
    R f = r.first(k), s = r.skip(k); T m = k < n ? k : n; CHECK(f.size() == m && s.size() == (T)(n - m)); CHECK(f.front() == a); CHECK(s.front() == (T)(a + m)); CHECK(*f.end() == *s.begin()); CHECK(*s.end() == *r.end());
    if (i < m) CHECK(f[i] == r[i]); if (i < (T)(n - m)) CHECK(s[i] == r[(T)(m + i)]);
    R z; CHECK(z.empty() && z.size() == 0 && z.first(k).empty() && z.skip(k).empty()); bool any = false; for (T x : z) { (void)x; any = true; } CHECK(!any);
#else
    T a = sy("a"); unsigned n = vk_choose("n", N + 1); R r(a, (T)(a + (T)n)); unsigned i = 0;
    for (T x : r) { CHECK(i < n); CHECK(x == (T)(a + i)); CHECK(x == r[(T)i]); if (i + 1 < n) CHECK(Tr::precedes(x, r.back())); i++; } CHECK(i == n);
    auto it = r.end(); while (it != r.begin()) { CHECK(i > 0); i--; if (i & 1) --it; else { auto o = it--; CHECK(o - it == 1); } CHECK(*it == (T)(a + i)); CHECK(*it.operator->() == *it); } CHECK(i == 0);
    for (auto jt = r.begin(); jt != r.end(); ) { auto o = jt++; CHECK(*o == (T)(a + i)); i++; } CHECK(i == n); 
    unsigned k = vk_choose("k", N + 1); i = 0; for (T x : r.first((T)k)) { CHECK(x == (T)(a + i)); i++; } CHECK(i == (k < n ? k : n)); for (T x : r.skip((T)k)) { CHECK(x == (T)(a + i)); i++; } CHECK(i == n);
#endif
    vk_cover("done");
}
