//@ run quick iriw-sc -DMODE=1 --weak
//@ run quick iriw-acq -DMODE=2 --weak
//@ run quick mp -DMODE=3 --weak
//@ run quick corr -DMODE=4 --weak
//@ run quick mprelax -DMODE=5 --weak --norace
//@ run quick casfail -DMODE=6 --weak
#include "hx.h"
static std::atomic<int> x, y; static int r[4], d;
int main() {
#if MODE == 1 || MODE == 2
constexpr auto O = MODE == 1 ? std::memory_order_seq_cst : std::memory_order_acquire;
VkThread a([&] { x.store(1, std::memory_order_release); }); VkThread b([&] { y.store(1, std::memory_order_release); });
VkThread c([&] { r[0] = x.load(O); r[1] = y.load(O); }); VkThread e([&] { r[2] = y.load(O); r[3] = x.load(O); });
a.start(); b.start(); c.start(); e.start(); a.join(); b.join(); c.join(); e.join(); CHECKM(!(r[0] && !r[1] && r[2] && !r[3]), "iriw");
#elif MODE == 3
VkThread a([&] { d = 1; x.store(1, std::memory_order_release); }); VkThread c([&] { if (x.load(std::memory_order_acquire)) CHECK(d == 1); }); a.start(); c.start(); a.join(); c.join();
#elif MODE == 4
VkThread a([&] { x.store(1, std::memory_order_relaxed); x.store(2, std::memory_order_relaxed); }); VkThread c([&] { int p = x.load(std::memory_order_relaxed), q = x.load(std::memory_order_relaxed); CHECK(q >= p); }); a.start(); c.start(); a.join(); c.join();
#elif MODE == 5
VkThread a([&] { y.store(1, std::memory_order_relaxed); x.store(1, std::memory_order_relaxed); }); VkThread c([&] { int p = x.load(std::memory_order_relaxed), q = y.load(std::memory_order_relaxed); CHECKM(q >= p, "mp"); }); a.start(); c.start(); a.join(); c.join();
#else
VkThread a([&] { y.store(1, std::memory_order_relaxed); x.store(1, std::memory_order_relaxed); }); VkThread c([&] { int p = x.load(std::memory_order_relaxed); int o = 5; y.compare_exchange_strong(o, 7, std::memory_order_relaxed); CHECKM(o >= p, "casfail"); }); a.start(); c.start(); a.join(); c.join();
#endif
}
