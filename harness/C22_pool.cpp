//@ run quick one -DMODE=1 -DW=1 -DN=2 covers:ran
//@ run quick two -DMODE=1 -DW=2 -DN=2 --preempt 1 covers:ran
//@ run quick posters -DMODE=2 -DW=1 --preempt 2 covers:ran
//@ run quick posters2-weak -DMODE=2 -DW=2 --weak --preempt 1 covers:ran
//@ run quick nested -DMODE=3 -DW=1 covers:ran
//@ run quick nested2 -DMODE=3 -DW=2 --preempt 1 covers:ran
//@ run quick leave -DMODE=4 -DW=1 covers:ran
//@ run quick guard -DMODE=5 -DW=1 covers:ran
//@ run quick moved -DMODE=6 -DW=1 --preempt 2 covers:ran
//@ run quick together -DMODE=7 -DW=2 --preempt 2 covers:ran
//@ run quick own-thread -DMODE=8 covers:ran
//@ run quick two-pools -DMODE=10 -DW=1 --preempt 1 covers:ran
//@ run quick guards -DMODE=9 covers:ran
//@ run quick wakes -DMODE=1 -DW=1 -DN=2 --wakes 2 covers:ran
//@ run quick wakes2 -DMODE=2 -DW=2 --preempt 1 --wakes 1 covers:ran
//@ run quick unguarded -DMODE=11 -DW=2 --preempt 2 covers:ran
//@ run quick one3 -DMODE=1 -DW=1 -DN=3 covers:ran
//@ run thorough two3 -DMODE=1 -DW=2 -DN=3 --preempt 2 covers:ran
//@ run quick posters-p4 -DMODE=2 -DW=1 --preempt 4 covers:ran
//@ run quick posters2-p2 -DMODE=2 -DW=2 --preempt 2 covers:ran
//@ run quick posters2-weak2 -DMODE=2 -DW=2 --weak --preempt 2 covers:ran
//@ run quick nested2-p3 -DMODE=3 -DW=2 --preempt 3 covers:ran
//@ run quick leave2 -DMODE=4 -DW=2 --preempt 3 covers:ran
//@ run quick guard2 -DMODE=5 -DW=2 --preempt 3 covers:ran
//@ run quick moved2 -DMODE=6 -DW=2 --preempt 2 covers:ran
//@ run quick together-p4 -DMODE=7 -DW=2 --preempt 4 covers:ran
//@ run thorough one3-l -DMODE=1 -DW=1 -DN=4 covers:ran
//@ run thorough two3-l -DMODE=1 -DW=2 -DN=4 --preempt 2 covers:ran
//@ run thorough two3-p -DMODE=1 -DW=2 -DN=3 --preempt 3 covers:ran
//@ run quick posters-p4-p -DMODE=2 -DW=1 --preempt 5 covers:ran
//@ run thorough posters2-weak2-p -DMODE=2 -DW=2 --weak --preempt 3 covers:ran
//@ run quick nested2-p3-p -DMODE=3 -DW=2 --preempt 4 covers:ran
//@ run quick moved-p -DMODE=6 -DW=1 --preempt 3 covers:ran
//@ run thorough together-p4-p -DMODE=7 -DW=2 --preempt 5 covers:ran
//@ run thorough two-pools-p -DMODE=10 -DW=1 --preempt 2 covers:ran
//@ run thorough wakes-l -DMODE=1 -DW=1 -DN=3 --wakes 2 covers:ran
//@ run thorough wakes2-p -DMODE=2 -DW=2 --preempt 2 --wakes 1 covers:ran
//@ run quick unguarded-p -DMODE=11 -DW=2 --preempt 3 covers:ran
//@ run thorough posters2-p2-p -DMODE=2 -DW=2 --preempt 3 covers:ran
//@ run quick leave2-p -DMODE=4 -DW=2 --preempt 4 covers:ran
//@ run quick guard2-p -DMODE=5 -DW=2 --preempt 4 covers:ran
//@ run quick moved2-p -DMODE=6 -DW=2 --preempt 3 covers:ran
#include "hx.h"
#include <cassert>
#include <chrono>
#include <macoro/thread_pool.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
struct Job { int in = 0, runs = 0, on = -1; };
Fire job(thread_pool& p, Job& j, int how) { Tok t(3); switch (how) { case 0: co_await p.schedule(); break; case 1: co_await p.post(); break; default: co_await p.dispatch(); } j.runs++; CHECKM(j.runs == 1, "resumed twice"); j.on = vk_tid(); CHECKM(j.in == 7, "what the poster wrote is visible"); CHECK(t.get() == 3); }
#if MODE == 1   // jobs posted in every way before and after the threads exist; the guard is released; join
int main() { { Job j[N]; { thread_pool p; thread_pool::work g = p.make_work(); bool before = vk_coin("before"); if (!before) p.create_threads(W); for (int i = 0; i < N; i++) { j[i].in = 7; job(p, j[i], (int)vk_choose("how", 3)); } if (before) { p.create_threads(W - 1); p.create_thread(); } g.reset(); if (vk_coin("join")) { p.join(); for (auto& x : j) CHECKM(x.runs == 1, "join returns after everything queued has run"); p.join(); } } for (auto& x : j) { CHECKM(x.runs == 1, "everything posted runs"); CHECKM(x.on != 0, "jobs run on the pool's threads"); } } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 2 // two threads post
int main() { { Job j[2]; thread_pool::work g; thread_pool p(W, g); VkThread a([&, h = p.make_work()]() mutable { j[0].in = 7; job(p, j[0], 0); h.reset(); }); a.start(); j[1].in = 7; job(p, j[1], 2); g.reset(); p.join(); a.join(); CHECKM(j[0].runs == 1 && j[1].runs == 1, "everything posted runs before join returns"); CHECKM(j[0].on != 0 && j[0].on != a.id && j[1].on != 0 && j[1].on != a.id, "jobs run on the pool's threads"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 3 // a job that schedules and dispatches again, and posts a handle
struct Own { std::coroutine_handle<> h; struct promise_type { Own get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vk_fail("exception"); } }; };
static Job k; static int order;
Own other(thread_pool& p) { k.runs++; k.on = vk_tid(); CHECKM(k.in == 7, "what the poster wrote is visible"); co_return; }
Fire chain(thread_pool& p, Job& j, thread_pool::work g) { co_await p.schedule(); int t = vk_tid(); CHECK(t != 0); co_await p.dispatch(); CHECKM(vk_tid() == t, "dispatch on a pool thread continues in place"); k.in = 7; auto h = other(p).h; if (vk_coin("dispatched")) { coroutine_handle<> r = p.dispatch(coroutine_handle<>(h)); CHECKM(r.std_cast() == h, "dispatch on a pool thread returns the handle"); r.resume(); CHECK(k.runs == 1); } else if (vk_coin("schedule")) p.schedule(coroutine_handle<>(h)); else p.post(coroutine_handle<>(h)); co_await p.post(); CHECK(vk_tid() != 0); j.runs++; }
int main() { { Job j; { thread_pool::work g; thread_pool p(W, g); chain(p, j, std::move(g)); } CHECKM(j.runs == 1 && k.runs == 1, "everything posted runs"); CHECKM(k.on != 0, "jobs run on the pool's threads"); } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 4 // the coroutine leaves for the pool and ends there; the pool is gone while the poster is still on its way out
int main() { { Job j; auto p = std::make_unique<thread_pool>(); auto g = p->make_work(); p->create_threads(W); std::atomic<bool> done{false};
    auto f = [&]() -> Fire { co_await p->schedule(); j.runs++; done.store(true, std::memory_order_release); }; VkThread a([&] { f(); }); a.start(); while (!done.load(std::memory_order_acquire)) vk_yield(); g.reset(); p.reset(); a.join(); CHECK(j.runs == 1); } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 5 // the last guard is released on one thread while another one joins and destroys the pool
int main() { { Job j; j.in = 7; { thread_pool::work g; thread_pool p(W, g); VkThread a([&, g2 = std::move(g)]() mutable { g2.reset(); }); job(p, j, 0); a.start(); p.join(); CHECK(j.runs == 1); { thread_pool q(std::move(p)); } a.join(); } } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 6 // a pool is moved while its threads work
int main() { { Job j[2]; j[0].in = j[1].in = 7; thread_pool::work g, g2; thread_pool q; { thread_pool p(W, g); job(p, j[0], 0); if (vk_coin("assign")) { thread_pool r(1, g2); g2.reset(); q = std::move(r); q = std::move(p); } else { thread_pool r(std::move(p)); q = std::move(r); } } job(q, j[1], 1); g.reset(); q.join(); CHECKM(j[0].runs == 1 && j[1].runs == 1, "a moved pool goes on"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 7 // two jobs that need each other: two workers must take one each
int main() { { thread_pool::work g; thread_pool p(W, g); std::atomic<int> s{0}; auto f = [&]() -> Fire { co_await p.schedule(); s.fetch_add(1); while (s.load() < 2) vk_yield(); if (s.fetch_add(1) == 2) g.reset(); }; f(); f(); p.join(); CHECK(s == 4); } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 8 // the caller's own thread runs the jobs
int main() { { thread_pool p; Job j; j.in = 7; job(p, j, 0); CHECK(j.runs == 0); p.run(); CHECK(j.runs == 1 && j.on == 0); p.run(); bool thrown = false; auto e = [&]() -> Fire { co_await p.schedule(); try { p.run(); } catch (std::runtime_error&) { thrown = true; } }; e(); p.run(); CHECKM(thrown, "run inside run is refused"); thread_pool q; Job l; l.in = 7; job(q, l, 2); CHECKM(l.runs == 0, "dispatch elsewhere waits for the pool"); q.run(); CHECK(l.runs == 1); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 10 // jobs that go from one pool to another
int main() { { int hops[4]; for (int& h : hops) h = (int)vk_choose("hop", 4); int n = 0; { thread_pool::work g[2]; thread_pool p(W, g[0]), q(W, g[1]); int at = -1, id[2] = {-1, -1};
    auto hop = [&](int h) -> task<> { thread_pool& x = h & 1 ? q : p; int was = vk_tid(); if (h < 2) co_await x.dispatch(); else co_await x.schedule(); int me = vk_tid(); if (W == 1) { CHECKM(me != 0 && me != id[!(h & 1)], "a job runs on a thread of the pool it was sent to"); if (id[h & 1] < 0) id[h & 1] = me; CHECKM(id[h & 1] == me, "one thread, one id"); } if (h < 2 && at == (h & 1)) CHECKM(me == was, "dispatch on the pool's own thread continues in place"); at = h & 1; n++; }; auto f = [&]() -> Fire { co_await hop(hops[0]); co_await hop(hops[1]); co_await hop(hops[2]); co_await hop(hops[3]); g[0].reset(); g[1].reset(); };
    f(); p.join(); q.join(); } CHECK(n == 4); } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 11 // without a guard: threads stay while there is something queued, and everything queued runs
int main() { { Job j[2]; thread_pool p; for (auto& x : j) { x.in = 7; job(p, x, (int)vk_choose("how", 3)); } unsigned n = vk_choose("threads", W) + 1; if (n == 1) p.create_thread(); else p.create_threads(n); p.join(); CHECKM(j[0].runs == 1 && j[1].runs == 1, "join returns after everything queued has run"); CHECKM(j[0].on != 0 && j[1].on != 0, "jobs run on the pool's threads"); p.create_threads(1); p.join(); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#else           // guards: moved, assigned over, released twice
int main() { { Job j, j2; j.in = j2.in = 7; thread_pool p; auto a = p.make_work(); auto b = p.make_work(); thread_pool::work c(std::move(a)); a.reset(); b = std::move(c); c.reset(); c = p.make_work(); p.create_threads(1); VkThread t([&] { p.join(); CHECKM(j.runs == 1 && j2.runs == 1, "join waits for the guard"); }); t.start(); job(p, j, 0); b.reset(); b.reset(); job(p, j2, 0); if (vk_coin("move")) c = thread_pool::work(); else c.reset(); t.join(); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#endif
