//@ run quick bulk300 -DN=300 --insts 400 covers:done
#include "bulk.h"
#include <macoro/sequence_barrier.h>
using namespace macoro;
// hundreds of waiters with all kinds of targets; publications in steps of any size
using Bar = sequence_barrier<std::size_t>;
static int n[N]; static std::size_t base, cur, from[N];
Fire wait(const Bar& b, int k, std::size_t t) { std::size_t r = co_await b.wait_until_published(base + t); CHECK(cur >= t && r == base + cur); n[k]++; }
int main() { base = start(); Bar b(base); for (int i = 0; i < N; i++) { from[i] = 1 + (std::size_t)(i * 7) % N; wait(b, i, from[i]); } int step = pick("step") + 1;
    while (cur < N) { cur = cur + step > N ? N : cur + step; b.publish(base + cur); vk_merge(); for (int i = 0; i < N; i++) CHECKM(n[i] == (from[i] <= cur), "released exactly when its number is published"); } vk_cover("done"); }
