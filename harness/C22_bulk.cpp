//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk5000 -DN=5000 --insts 400 covers:done
#include "bulk.h"
#include <macoro/thread_pool.h>
using namespace macoro;
// hundreds of jobs and work guards
static int n[N], rest;
Fire job(thread_pool& p, int i, int k) { if (i % 3 == 0) co_await p.post(); else if (i % 3 == 1) co_await p.schedule(); else co_await p.dispatch(); n[i]++; if (i == k) { co_await p.post(); CHECKM(rest == N - 1, "jobs run in the order they were queued"); } rest++; }
int main() { { thread_pool p; std::vector<thread_pool::work> g; for (int i = 0; i < N; i++) g.push_back(p.make_work()); int k = pick("again"); for (int i = 0; i < N; i++) job(p, i, k); for (int i = 0; i < N; i++) CHECK(n[i] == 0); if (vk_coin("guards last")) { g[0].reset(); g.erase(g.begin() + 1, g.end()); } else g.clear(); 
    if (g.empty() || true) { g.clear(); p.run(); } for (int i = 0; i < N; i++) CHECKM(n[i] == 1, "each job runs once"); CHECK(rest == N); } CHECK(vk_liveheap() == 0); vk_cover("done"); }
