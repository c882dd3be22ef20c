//@ run quick bulk300 -DN=300 --lazytime --insts 400 covers:done
//@ run thorough bulk1000 -DN=1000 --lazytime --insts 400 covers:done
#include "bulk.h"
#include <chrono>
#include <macoro/thread_pool.h>
using namespace macoro; using ns = std::chrono::nanoseconds;
// hundreds of delayed operations with all kinds of deadlines; some cancelled
static int n[N], ran; static int64_t at[N];
Fire after(thread_pool& p, int i, int64_t d, stop_token t) { co_await p.schedule_after(ns(d), std::move(t)); n[i]++; at[i] = vk_now(); ran++; }
int main() { { thread_pool p; stop_source s; int c = pick("cancelled"), step = vk_coin("falling") ? N - 7 : 7; int64_t due[N]; for (int i = 0; i < N; i++) { due[i] = 10 + (int64_t)i * step % N; after(p, i, due[i], i == c || i % 50 == 3 ? s.get_token() : stop_token{}); vk_merge(); } s.request_stop(); p.run(); for (int i = 0; i < N; i++) { CHECKM(n[i] == 1, "each is resumed once"); CHECKM(at[i] == (i == c || i % 50 == 3 ? 0 : due[i]), "each at its own deadline, a cancelled one at once"); } CHECK(ran == N); } CHECK(vk_liveheap() == 0); vk_cover("done"); }
