//@ run quick ends -DMODE=1 covers:value,throw
//@ run quick types -DMODE=2 covers:done
//@ run quick deadline -DMODE=3 --lazytime --preempt 1 covers:timedout,ended
//@ run quick race -DMODE=4 --preempt 2 covers:timedout,ended
//@ run quick race-weak -DMODE=4 --weak --preempt 1 covers:timedout,ended
//@ run quick wait-token -DMODE=5 --preempt 2 covers:done
//@ run quick outer -DMODE=6 -DLAZY --lazytime --preempt 2 covers:done
//@ run quick outer-weak -DMODE=6 --weak --preempt 1 covers:done
//@ run quick moved -DMODE=7 --lazytime --preempt 1 covers:done
//@ run quick outer-moved -DMODE=8 --preempt 1 covers:stopped,quiet
//@ run quick std-ends -DMACORO_HAS_STD_STOP_TOKEN -DMODE=1 covers:value,throw
//@ run quick std-types -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 covers:done
//@ run quick std-deadline -DMACORO_HAS_STD_STOP_TOKEN -DMODE=3 --lazytime --preempt 1 covers:timedout,ended
//@ run quick std-race -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 --preempt 2 covers:timedout,ended
//@ run thorough std-race-weak -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 --weak --preempt 1 covers:timedout,ended
//@ run quick std-wait-token -DMACORO_HAS_STD_STOP_TOKEN -DMODE=5 --preempt 2 covers:done
//@ run quick std-outer -DMACORO_HAS_STD_STOP_TOKEN -DMODE=6 -DLAZY --lazytime --preempt 2 covers:done
//@ run quick std-moved -DMACORO_HAS_STD_STOP_TOKEN -DMODE=7 --lazytime --preempt 1 covers:done
//@ run quick std-outer-moved -DMACORO_HAS_STD_STOP_TOKEN -DMODE=8 --preempt 1 covers:stopped,quiet
//@ run thorough outer-moved3 -DMODE=8 --preempt 3 covers:stopped,quiet
//@ run thorough race-p4 -DMODE=4 --preempt 4 covers:timedout,ended
//@ run thorough race-weak3 -DMODE=4 --weak --preempt 3 covers:timedout,ended
//@ run quick deadline3 -DMODE=3 --lazytime --preempt 3 covers:timedout,ended
//@ run thorough wait-token4 -DMODE=5 --preempt 4 covers:done
//@ run quick wait-token-weak -DMODE=5 --weak --preempt 2 covers:done
//@ run thorough outer4 -DMODE=6 -DLAZY --lazytime --preempt 4 covers:done
//@ run thorough outer-weak2 -DMODE=6 --weak --preempt 2 covers:done
//@ run thorough std-race3 -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 --preempt 3 covers:timedout,ended
//@ run thorough std-outer4 -DMACORO_HAS_STD_STOP_TOKEN -DMODE=6 -DLAZY --lazytime --preempt 3 covers:done
//@ run thorough deadline3-p -DMODE=3 --lazytime --preempt 4 covers:timedout,ended
//@ run thorough race-p4-p -DMODE=4 --preempt 5 covers:timedout,ended
//@ run thorough wait-token4-p -DMODE=5 --preempt 5 covers:done
//@ run quick moved-p -DMODE=7 --lazytime --preempt 2 covers:done
//@ run thorough outer-moved3-p -DMODE=8 --preempt 4 covers:stopped,quiet
//@ run quick std-deadline-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=3 --lazytime --preempt 2 covers:timedout,ended
//@ run thorough std-race3-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 --preempt 4 covers:timedout,ended
//@ run thorough std-race-weak-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=4 --weak --preempt 2 covers:timedout,ended
//@ run quick std-wait-token-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=5 --preempt 3 covers:done
//@ run thorough std-outer4-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=6 -DLAZY --lazytime --preempt 4 covers:done
//@ run quick std-moved-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=7 --lazytime --preempt 2 covers:done
//@ run thorough std-outer-moved-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=8 --preempt 2 covers:stopped,quiet
//@ run quick wait-token-weak-p -DMODE=5 --weak --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <chrono>
#include <macoro/take_until.h>
#include <macoro/timeout.h>
#include <macoro/thread_pool.h>
#include <macoro/sync_wait.h>
using namespace macoro; using ns = std::chrono::nanoseconds;
#if MODE == 1 || MODE == 2
struct Trig { Gate* g; int* req; bool* alive; bool throws = false; Tok life; Trig(Gate* g, int* r, bool* a, bool t = false) : g(g), req(r), alive(a), throws(t) { *alive = true; } Trig(Trig&& o) : g(o.g), req(o.req), alive(std::exchange(o.alive, nullptr)), throws(o.throws), life(std::move(o.life)) {} ~Trig() { if (alive) *alive = false; }
    void request_stop() { CHECKM(*alive, "the trigger is alive"); ++*req; } struct Aw { Trig* t; bool await_ready() { return false; } template<class H> void await_suspend(H h) { t->g->await_suspend(h); } void await_resume() { t->g->await_resume(); if (t->throws) throw Ex(5); } }; Aw operator co_await() { return {this}; } };
#endif
#if MODE == 1   // the operation and the trigger end in any order, with any outcome
struct Op { Gate* g; bool* alive; int v, e; bool t; Tok life; Op(Gate* g, bool* a, int v, int e, bool t) : g(g), alive(a), v(v), e(e), t(t) { *a = true; } Op(Op&& o) : g(o.g), alive(std::exchange(o.alive, nullptr)), v(o.v), e(o.e), t(o.t), life(std::move(o.life)) {} ~Op() { if (alive) *alive = false; } struct Aw { Op* o; bool await_ready() { return false; } template<class H> void await_suspend(H h) { o->g->await_suspend(h); } Mov await_resume() { CHECKM(*o->alive, "the operation is alive while it is awaited"); if (o->t) throw Ex(o->e); return Mov(o->v); } }; Aw operator co_await() { return {this}; } };
int main() { { Gate og, ug; int req = 0; bool oa = false, ua = false; int v = vk_int("v"), e = vk_int("e"); bool t = vk_coin("throws"); Once end; 
    auto f = [&]() -> Fire { auto u = take_until(Op(&og, &oa, v, e, t), Trig(&ug, &req, &ua, vk_coin("until throws"))); CHECKM(!og.waiting() && !ug.waiting(), "nothing starts before it is awaited"); try { Mov r = co_await std::move(u); CHECKM(!t && r.get() == v, "the operation's own value"); vk_cover("value"); } catch (Ex& x) { CHECKM(t && x.v() == e, "the operation's own exception"); vk_cover("throw"); } end.hit(); };
    f(); CHECK(og.waiting() && !ug.waiting() && req == 0 && oa && ua); og.fire(); CHECKM(req == 1, "the trigger is cancelled once the operation ended"); CHECKM(end.n == 0 && ug.waiting(), "both have to end"); ug.fire(); CHECK(end.n == 1 && req == 1); CHECKM(!oa && !ua, "both are released"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 2 // results of every kind
static int gl; static bool thr; static int seen;
task<void> tv() { seen++; if (thr) throw Ex(1); co_return; } task<int> ti(int v) { if (thr) throw Ex(1); co_return v; } task<Mov> tm(int v) { if (thr) throw Ex(1); co_return Mov(v); } task<int&> tr() { if (thr) throw Ex(1); co_return gl; }
struct Rv { Mov m{8}; bool await_ready() { return true; } void await_suspend(coroutine_handle<>) {} void await_suspend(std::coroutine_handle<>) {} Mov&& await_resume() { if (thr) throw Ex(1); return std::move(m); } };
int main() { { thr = vk_coin("throws"); int k = (int)vk_choose("kind", 6); int v = vk_int("v"); Gate g; int req = 0; bool al = false; bool ended = false, caught = false; auto u = [&] { return Trig(&g, &req, &al); };
    auto f = [&]() -> Fire { try { switch (k) { case 0: co_await take_until(tv(), u()); CHECK(seen == 1); break; case 1: { int r = co_await take_until(ti(v), u()); CHECK(r == v); break; } case 2: { Mov r = co_await take_until(tm(v), u()); CHECK(r.get() == v); break; } case 3: { int& r = co_await take_until(tr(), u()); CHECKM(&r == &gl, "a reference stays one"); break; } case 4: { Mov r = co_await take_until(Rv(), u()); CHECK(r.get() == 8); break; } case 5: { auto r = co_await (take_until(tm(v), u()) | wrap()); CHECK(r.has_error() == thr); if (!thr) CHECK(r.value().get() == v); else { caught = true; try { std::rethrow_exception(r.error()); } catch (Ex& e) { CHECK(e.v() == 1); } } break; } } } catch (Ex& e) { CHECK(e.v() == 1); caught = true; } ended = true; };
    f(); CHECK(req == 1 && !ended); g.fire(); CHECK(ended && caught == thr); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("done"); }
#elif MODE == 3 // an operation of the pool against a deadline: whatever comes first decides, at its time
int main() { { int64_t x = (int64_t)vk_sym("x", 16), d = (int64_t)vk_sym("d", 16); thread_pool::work g; thread_pool p(1, g); bool stopped = false;
    { timeout to(p, ns(d)); stop_token t = to.get_token(); auto op = [](thread_pool& p, stop_token t, int64_t x, bool& stopped) -> task<int> { co_await p.schedule_after(ns(x), t); stopped = t.stop_requested(); co_return 7; }; int r = sync_wait(take_until(op(p, t, x, stopped), std::move(to))); CHECK(r == 7); int64_t m = x < d ? x : d; CHECKM(vk_now() == m, "the earlier one of both decides, at its time"); if (x < d) CHECKM(!stopped, "no stop before the deadline"); if (d < x) CHECKM(stopped, "the deadline stops the operation"); CHECK(t.stop_requested()); if (d < x) vk_cover("timedout"); if (x < d) vk_cover("ended"); }
    g.reset(); p.join(); CHECKM(vk_now() <= (x < d ? x : d), "nothing is left behind"); } CHECK(vk_liveheap() == 0); }
#elif MODE == 4 // the operation ends on another thread while the deadline strikes
int main() { { thread_pool::work g; thread_pool p(1, g); XGate x; int v = vk_int("v"); bool thr = vk_coin("throws"); bool cb = false, ended = false; VkThread b([&] { x.fire(); }); b.start();
    { timeout to(p, ns(10)); auto op = [&](stop_token t) -> task<Mov> { stop_callback c(t, [&] { cb = true; }); co_await x; ended = true; if (thr) throw Ex(v); co_return Mov(v); }; try { Mov r = sync_wait(take_until(op(to.get_token()), std::move(to))); CHECK(!thr && r.get() == v); } catch (Ex& e) { CHECK(thr && e.v() == v); } CHECK(ended); if (cb) vk_cover("timedout"); else vk_cover("ended"); }
    b.join(); g.reset(); p.join(); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 5 // the operation waits for the stop only
int main() { { thread_pool::work g; thread_pool p(1, g); for (int i = 0; i < 1; i++) { timeout to(p, ns(10)); auto op = [](stop_token t) -> task<int> { co_await t; CHECK(t.stop_requested()); co_return 3; }; CHECK(sync_wait(take_until(op(to.get_token()), std::move(to))) == 3); } g.reset(); } CHECK(vk_liveheap() == 0); vk_cover("done"); }
#elif MODE == 6 // stopped from outside, through the timeout's own token
int main() { { thread_pool::work g; thread_pool p(1, g); stop_source s; { timeout to(p, ns(1000), s.get_token()); VkThread b([&] { s.request_stop(); }); b.start(); auto op = [](thread_pool& p, stop_token t) -> task<int> { co_await p.schedule_after(ns(2000), t); CHECKM(t.stop_requested(), "stopped"); co_return 4; }; CHECK(sync_wait(take_until(op(p, to.get_token()), std::move(to))) == 4);
#ifdef LAZY
    CHECKM(vk_now() == 0, "a stop from outside is passed on at once");
#endif
    b.join(); } g.reset(); } CHECK(vk_liveheap() == 0); vk_cover("done"); }
#elif MODE == 8 // a timeout linked to an outer token changes its place, the old place is gone when the stop comes (or comes at the same time)
int main() { { thread_pool::work g; thread_pool p(1, g); { stop_source s; bool during = vk_coin("during"), stop = vk_coin("stop"); auto a = std::make_unique<timeout>(p, ns(30), s.get_token()); stop_token t = a->get_token(); VkThread b([&] { if (stop) s.request_stop(); }); if (during) b.start(); auto c = vk_coin("assign") ? std::make_unique<timeout>() : nullptr; if (c) *c = std::move(*a); else c = std::make_unique<timeout>(std::move(*a)); a.reset(); if (!during) b.start(); b.join(); if (stop) CHECKM(t.stop_requested(), "an outer stop reaches the timeout wherever it is"); auto f = [&]() -> task<> { co_await *c; }; sync_wait(f()); CHECK(c->get_token().stop_requested() && t.stop_requested()); CHECKM(s.stop_requested() == stop, "a deadline does not stop what is outside"); vk_cover(stop ? "stopped" : "quiet"); if (vk_coin("again")) { auto t0 = vk_now(); c->reset(p, ns(5)); if (!stop) s.request_stop(); CHECKM(!c->get_token().stop_requested() || vk_now() >= t0 + 5, "reset without a token: the old link is gone"); sync_wait(f()); } } g.reset(); } CHECK(vk_liveheap() == 0); }
#else           // timeouts moved, reset, awaited on their own
int main() { { thread_pool::work g; thread_pool p(1, g); { timeout a; a.reset(p, ns(50)); stop_token t = a.get_token(); timeout b(std::move(a)); CHECK(!t.stop_requested()); timeout c; c = std::move(b); auto f = [&]() -> task<> { co_await c; }; if (vk_coin("early")) { c.request_stop(); CHECK(t.stop_requested()); sync_wait(f()); CHECKM(vk_now() == 0, "a cancelled timeout ends at once"); } else { sync_wait(f()); CHECKM(vk_now() == 50, "a timeout ends at its deadline"); } CHECK(t.stop_requested() && c.get_source().stop_requested()); c.reset(p, ns(70)); CHECK(!c.get_token().stop_requested() && t.stop_requested()); c.request_stop(); sync_wait(f()); } g.reset(); } CHECK(vk_liveheap() == 0); vk_cover("done"); }
#endif
