//@ run quick bulk300 -DN=300 --insts 400 covers:done
#include "bulk.h"
#include <macoro/stop.h>
#include <macoro/task.h>
using namespace macoro;
// hundreds of coroutines wait for one token; one of them waits for another one afterwards
static int n[N]; 
Fire wait(stop_token t, int i, int k, stop_token u) { Tok local(i); co_await t; n[i]++; CHECK(local.get() == i); if (i == k) { co_await u; n[i]++; } }
int main() { { stop_source s, r; int k = pick("goes on"); for (int i = 0; i < N; i++) wait(s.get_token(), i, k, r.get_token()); for (int x : n) CHECKM(x == 0, "not resumed before the request"); s.request_stop(); for (int i = 0; i < N; i++) CHECKM(n[i] == 1, "each is resumed once"); s.request_stop(); r.request_stop(); for (int i = 0; i < N; i++) CHECK(n[i] == (i == k ? 2 : 1)); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("done"); }
