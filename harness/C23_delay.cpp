//@ run quick one -DMODE=1 -DW=1 -DMS=0 covers:ran
//@ run quick one-ms -DMODE=1 -DW=1 -DMS=1 covers:ran
//@ run quick one2 -DMODE=1 -DW=2 -DMS=0 --preempt 1 covers:ran
//@ run quick prompt -DMODE=2 -DW=1 --lazytime covers:first,second
//@ run quick prompt2 -DMODE=2 -DW=2 --lazytime --preempt 1 covers:first,second
//@ run quick cancel -DMODE=3 -DW=1 --lazytime covers:ran
//@ run quick cancel2 -DMODE=3 -DW=2 --lazytime --preempt 2 covers:ran
//@ run quick race -DMODE=4 -DW=1 --preempt 2 covers:cancelled,matured
//@ run quick race-weak -DMODE=4 -DW=1 --weak --preempt 1 covers:cancelled,matured
//@ run quick busy -DMODE=5 -DW=2 --lazytime --preempt 2 covers:ran
//@ run quick busy-job -DMODE=6 -DW=2 --preempt 4 covers:ran
//@ run quick other -DMODE=7 -DW=1 --lazytime --preempt 2 covers:ran
//@ run quick threads -DMODE=8 -DW=1 --preempt 1 covers:ran
//@ run quick wakes -DMODE=1 -DW=1 -DMS=0 --wakes 1 covers:ran
//@ run quick wakes2 -DMODE=4 -DW=1 --preempt 1 --wakes 1 covers:cancelled,matured
//@ run quick unguarded -DMODE=9 -DW=2 --preempt 2 covers:ran
//@ run quick std-one -DMACORO_HAS_STD_STOP_TOKEN -DMODE=1 -DW=1 -DMS=0 covers:ran
//@ run quick std-prompt -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DW=1 --lazytime covers:first,second
//@ run quick std-cancel -DMACORO_HAS_STD_STOP_TOKEN -DMODE=3 -DW=1 --lazytime covers:ran
//@ run quick std-cancel2 -DMACORO_HAS_STD_STOP_TOKEN -DMODE=3 -DW=2 --lazytime --preempt 2 covers:ran
//@ run quick std-race -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 -DW=1 --preempt 2 covers:cancelled,matured
//@ run quick std-busy -DMACORO_HAS_STD_STOP_TOKEN -DMODE=5 -DW=2 --lazytime --preempt 2 covers:ran
//@ run quick one2-p3 -DMODE=1 -DW=2 -DMS=0 --preempt 3 covers:ran
//@ run quick many -DMODE=10 -DN=3 -DMORE=2 --lazytime covers:ran,cancelled
//@ run thorough many4 -DMODE=10 -DN=4 -DMORE=2 --lazytime covers:ran,cancelled
//@ run thorough prompt2-p3 -DMODE=2 -DW=2 --lazytime --preempt 3 covers:first,second
//@ run thorough cancel2-p4 -DMODE=3 -DW=2 --lazytime --preempt 4 covers:ran
//@ run thorough race2 -DMODE=4 -DW=2 --preempt 2 covers:cancelled,matured
//@ run quick race-weak3 -DMODE=4 -DW=1 --weak --preempt 3 covers:cancelled,matured
//@ run thorough busy-p4 -DMODE=5 -DW=2 --lazytime --preempt 4 covers:ran
//@ run thorough other2 -DMODE=7 -DW=2 --lazytime --preempt 3 covers:ran
//@ run thorough threads2 -DMODE=8 -DW=2 --preempt 2 covers:ran
//@ run thorough std-race2 -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 -DW=2 --preempt 2 covers:cancelled,matured
//@ run quick std-race-weak -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 -DW=1 --weak --preempt 1 covers:cancelled,matured
//@ run thorough one2-p3-p -DMODE=1 -DW=2 -DMS=0 --preempt 4 covers:ran
//@ run thorough race-p -DMODE=4 -DW=1 --preempt 3 covers:cancelled,matured
//@ run quick race-weak3-p -DMODE=4 -DW=1 --weak --preempt 4 covers:cancelled,matured
//@ run thorough busy-p4-p -DMODE=5 -DW=2 --lazytime --preempt 5 covers:ran
//@ run thorough busy-job-p -DMODE=6 -DW=2 --preempt 5 covers:ran
//@ run quick other-p -DMODE=7 -DW=1 --lazytime --preempt 3 covers:ran
//@ run thorough threads-p -DMODE=8 -DW=1 --preempt 2 covers:ran
//@ run quick wakes2-p -DMODE=4 -DW=1 --preempt 2 --wakes 1 covers:cancelled,matured
//@ run quick unguarded-p -DMODE=9 -DW=2 --preempt 3 covers:ran
//@ run thorough std-cancel2-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=3 -DW=2 --lazytime --preempt 3 covers:ran
//@ run quick std-race-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 -DW=1 --preempt 3 covers:cancelled,matured
//@ run thorough std-busy-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=5 -DW=2 --lazytime --preempt 3 covers:ran
//@ run thorough race2-p -DMODE=4 -DW=2 --preempt 3 covers:cancelled,matured
//@ run thorough std-race2-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 -DW=2 --preempt 3 covers:cancelled,matured
//@ run quick std-race-weak-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 -DW=1 --weak --preempt 2 covers:cancelled,matured
#include "hx.h"
#include <cassert>
#include <chrono>
#include <macoro/thread_pool.h>
using namespace macoro; using ns = std::chrono::nanoseconds;
static int64_t delay(const char* n) { int64_t d = (int64_t)vk_sym(n, 32); return d; }
struct Op { int64_t due = 0, at = -1; int runs = 0, on = -1; };
template<class D> Fire after(thread_pool& p, D d, Op& o, stop_token t = {}) { auto tok = std::make_unique<Tok>(1); o.due = vk_now() + std::chrono::duration_cast<ns>(d).count(); co_await p.schedule_after(d, std::move(t)); o.runs++; CHECKM(o.runs == 1, "resumed twice"); o.at = vk_now(); o.on = vk_tid(); CHECK(tok->get() == 1); }
#if MODE == 1   // not before the deadline, whatever the delay; join waits for it
int main() { { Op o, q; int64_t d = delay("delay"); { thread_pool::work g; thread_pool p(W, g); vk_tick(1000); if (MS) after(p, std::chrono::milliseconds(d & 15), o); else after(p, ns(d), o); if (vk_coin("guarded")) { p.create_thread(); } g.reset(); p.join(); CHECKM(o.runs == 1, "join waits for what is scheduled"); } CHECKM(o.at >= o.due, "resumed before its deadline"); CHECKM(o.on != 0, "resumed on the pool"); (void)q; } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 2 // each at its own deadline when the workers have nothing else to do (time passes only while everybody sleeps)
int main() { { Op a, b; int64_t x = delay("x"), y = delay("y"); { thread_pool::work g; thread_pool p(W, g); after(p, ns(x), a); after(p, ns(y), b); g.reset(); } CHECK(a.runs == 1 && b.runs == 1); CHECKM(a.at == a.due && b.at == b.due, "a delayed operation is resumed at its deadline, whatever else is scheduled"); if (x < y) vk_cover("first"); if (y < x) vk_cover("second"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 3 // cancelled before, while or after it registers: released at once, and so is join
int main() { { Op o; int64_t d = delay("delay"); vk_assume(d > 0); { thread_pool::work g; thread_pool p(W, g); stop_source s; VkThread c([&] { s.request_stop(); }); c.start(); after(p, ns(d), o, s.get_token()); g.reset(); p.join(); CHECKM(o.runs == 1, "a cancelled operation is resumed"); CHECKM(o.at == 0, "a cancelled operation is resumed at once"); CHECKM(vk_now() == 0, "join does not wait for a cancelled deadline"); c.join(); } CHECK(o.on != 0); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 4 // cancelled while it becomes due
int main() { { Op o; int64_t d = delay("delay"); bool req = false; { thread_pool::work g; thread_pool p(W, g); stop_source s; after(p, ns(d), o, s.get_token()); VkThread c([&] { req = true; s.request_stop(); }); g.reset(); if (vk_coin("cancel")) c.start(), p.join(), c.join(); else p.join(); CHECKM(o.runs == 1, "resumed exactly once"); if (!req) { CHECKM(o.at >= o.due, "resumed before its deadline"); vk_cover("matured"); } else vk_cover("cancelled"); s.request_stop(); CHECK(o.runs == 1); } } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 5 // one worker is busy with a job that waits for the delayed operation: another one takes care of that
int main() { { Op o; int64_t d = delay("delay"); { thread_pool::work g; thread_pool p(W, g); auto g2 = p.make_work(); std::atomic<int> go{0}; auto f = [&]() -> Fire { co_await p.schedule(); while (!go.load()) vk_yield(); }; auto h = [&]() -> Fire { co_await p.schedule_after(ns(d)); o.at = vk_now(); go.store(1); g.reset(); }; if (vk_coin("order")) { h(); f(); } else { f(); h(); } g2.reset(); p.join(); CHECKM(o.at == d, "a busy worker does not hold up a delayed operation"); } } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 6 // a delayed operation keeps one worker busy until a job has run
int main() { { int64_t d = delay("delay"); { thread_pool::work g; thread_pool p(W, g); auto g2 = p.make_work(); std::atomic<int> go{0}; auto f = [&]() -> Fire { co_await p.schedule(); go.store(1); g.reset(); }; auto h = [&]() -> Fire { co_await p.schedule_after(ns(d)); while (!go.load()) vk_yield(); }; h(); f(); vk_tick(d > 0 ? d : 0); g2.reset(); p.join(); } } CHECK(vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 7 // one operation is cancelled by a coroutine on the pool, another one goes on
int main() { { Op a, b; int64_t x = delay("x"), y = delay("y"); vk_assume(x > 100 && y > 0); { thread_pool::work g; thread_pool p(W, g); stop_source s, unused; after(p, ns(x), a, s.get_token()); after(p, ns(y), b, unused.get_token()); auto f = [&]() -> Fire { co_await p.schedule_after(ns(0)); s.request_stop(); }; f(); g.reset(); p.join(); CHECK(a.runs == 1 && b.runs == 1); CHECKM(a.at == 0, "a cancelled operation is resumed at once"); CHECKM(b.at == b.due, "others keep their deadline"); } } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 9 // without a guard: threads stay while something is scheduled
int main() { { Op a; int64_t x = delay("x"); { thread_pool p; after(p, ns(x), a); unsigned n = vk_choose("threads", W) + 1; if (n == 1) p.create_thread(); else p.create_threads(n); p.join(); CHECKM(a.runs == 1, "join waits for what is scheduled"); CHECKM(a.at >= a.due, "resumed before its deadline"); } CHECKM(a.on != 0, "resumed on the pool"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#elif MODE == 10 // several operations at once, one of which schedules another and cancels one; the main thread is the worker
int main() { { static Op o[N + 1]; unsigned k = vk_choose("with a token", N + 1), j = k == N ? 1 : vk_choose("who cancels", 3); if (j == 2) j = N; static int64_t when; when = -1; { thread_pool p; stop_source s; int64_t more = MORE;
    auto lead = [&](int64_t d) -> Fire { o[0].due = vk_now() + d; if (k == 0) co_await p.schedule_after(ns(d), s.get_token()); else co_await p.schedule_after(ns(d)); o[0].runs++; o[0].at = vk_now(); after(p, ns(more), o[N]); if (j == 0 && k != 0) { when = vk_now(); s.request_stop(); } };
    for (int i = 0; i < N; i++) { int64_t d = (int64_t)(vk_sym("delay", 8) & 7); if (i == 0) lead(d); else after(p, ns(d), o[i], (int)k == i ? s.get_token() : stop_token{}); }
    if (j == N) { when = 0; s.request_stop(); } p.run(); }
    for (int i = 0; i <= N; i++) { CHECKM(o[i].runs == 1, "each is resumed once"); if (i < N && (int)k == i && when >= 0 && when < o[i].due) { CHECKM(o[i].at == when, "a cancelled operation is resumed at once"); vk_cover("cancelled"); } else CHECKM(o[i].at == o[i].due, "each at its own deadline, whatever else is scheduled or cancelled"); }
    } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#else           // two threads schedule, one of them cancels the other's
int main() { { Op a, b; int64_t x = delay("x"); { thread_pool::work g; thread_pool p(W, g); stop_source s; VkThread c([&, h = p.make_work()]() mutable { after(p, ns(5), b, s.get_token()); h.reset(); }); c.start(); after(p, ns(x), a, s.get_token()); s.request_stop(); g.reset(); p.join(); c.join(); CHECK(a.runs == 1 && b.runs == 1); } } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("ran"); }
#endif
