//@ run quick bulk100 -DN=100 --lazytime --insts 400 covers:done
//@ run thorough bulk300 -DN=300 --lazytime --insts 400 covers:done
#include "bulk.h"
#include <chrono>
#include <macoro/take_until.h>
#include <macoro/timeout.h>
#include <macoro/thread_pool.h>
#include <macoro/task.h>
using namespace macoro; using ns = std::chrono::nanoseconds;
// hundreds of operations with timeouts at once; one of them runs into its deadline, the others end before
static int n[N], late; static Gate g[N];
task<int> op(int i, stop_token t, bool slow) { if (slow) { co_await t; late++; co_return -1; } co_await g[i]; CHECKM(!t.stop_requested(), "stopped before its deadline"); co_return i; }
Fire one(thread_pool& p, int i, int k) { timeout t(p, ns(1000 + i)); auto tok = t.get_token(); int r = co_await take_until(op(i, tok, i == k), std::move(t)); CHECKM(r == (i == k ? -1 : i), "the operation's own value"); n[i]++; CHECK(vk_now() == (i == k ? 1000 + i : 0)); }
int main() { { thread_pool p; int k = pick("slow"); for (int i = 0; i < N; i++) { one(p, i, k); vk_merge(); } for (int x : n) CHECK(x == 0); for (int i = 0; i < N; i++) if (i != k) { g[i].fire(); vk_merge(); } p.run(); for (int x : n) CHECKM(x == 1, "each ends once"); CHECK(late == 1); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("done"); }
