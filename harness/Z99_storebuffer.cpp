//@ run quick sb -DMODE=1 --weak
//@ run quick sbcas -DMODE=2 --weak
//@ run quick sbsc -DMODE=3 --weak
#include "hx.h"
static std::atomic<int> x, y; static int r1, r2;
int main() { VkThread a([&] { x.store(1, std::memory_order_seq_cst); r1 = y.load(std::memory_order_seq_cst); });
#if MODE == 1
 VkThread b([&] { y.store(1, std::memory_order_seq_cst); r2 = x.load(std::memory_order_acquire); });
#elif MODE == 2
 VkThread b([&] { int o = 0; while (!y.compare_exchange_weak(o, 1, std::memory_order_seq_cst, std::memory_order_relaxed)); r2 = x.load(std::memory_order_acquire); });
#else
 VkThread b([&] { int o = 0; while (!y.compare_exchange_weak(o, 1, std::memory_order_seq_cst, std::memory_order_relaxed)); r2 = x.load(std::memory_order_seq_cst); });
#endif
 a.start(); b.start(); a.join(); b.join(); CHECKM(r1 || r2, "sb"); }
