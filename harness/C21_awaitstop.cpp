//@ run quick seq -DMODE=1 -DN=5 covers:at-once,later,hopeless
//@ run quick race -DMODE=2 -DAW=1 covers:done
//@ run quick race-weak -DMODE=2 -DAW=1 --weak --preempt 2 covers:done
//@ run quick two -DMODE=2 -DAW=2 --preempt 2 covers:done
//@ run quick task -DMODE=3 covers:done
//@ run quick native -DMODE=4 covers:done
//@ run quick last-source -DMODE=5 covers:resumed,waiting
//@ run quick std-seq -DMACORO_HAS_STD_STOP_TOKEN -DMODE=1 -DN=5 covers:at-once,later,hopeless
//@ run quick std-race -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DAW=1 covers:done
//@ run quick std-two -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DAW=2 --preempt 2 covers:done
//@ run quick std-task -DMACORO_HAS_STD_STOP_TOKEN -DMODE=3 covers:done
//@ run quick std-last-source -DMACORO_HAS_STD_STOP_TOKEN -DMODE=5 covers:resumed,waiting
//@ run quick race-weak4 -DMODE=2 -DAW=1 --weak --preempt 4 covers:done
//@ run quick two4 -DMODE=2 -DAW=2 --preempt 4 covers:done
//@ run thorough two-weak -DMODE=2 -DAW=2 --weak --preempt 2 covers:done
//@ run quick task-weak -DMODE=3 --weak --preempt 3 covers:done
//@ run quick std-race-weak -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DAW=1 --weak --preempt 3 covers:done
//@ run thorough std-two4 -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DAW=2 --preempt 4 covers:done
//@ run quick seq-l -DMODE=1 -DN=6 covers:at-once,later,hopeless
//@ run quick race-weak4-p -DMODE=2 -DAW=1 --weak --preempt 5 covers:done
//@ run thorough two4-p -DMODE=2 -DAW=2 --preempt 5 covers:done
//@ run quick std-seq-l -DMACORO_HAS_STD_STOP_TOKEN -DMODE=1 -DN=6 covers:at-once,later,hopeless
//@ run quick std-two4-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DAW=2 --preempt 5 covers:done
//@ run thorough two-weak-p -DMODE=2 -DAW=2 --weak --preempt 3 covers:done
//@ run quick task-weak-p -DMODE=3 --weak --preempt 4 covers:done
//@ run quick std-race-weak-p -DMACORO_HAS_STD_STOP_TOKEN -DMODE=2 -DAW=1 --weak --preempt 4 covers:done
#include "hx.h"
#include <macoro/stop.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
#include <macoro/macros.h>
using namespace macoro;
#if MODE == 1   // any history on one thread: awaits, requests, the last source goes away
Fire wait(stop_token t, int& n, bool lv) { Tok local; if (lv) co_await t; else co_await stop_token(t); n++; CHECKM(n == 1, "resumed twice"); }
int main() { { auto s = std::make_unique<stop_source>(); stop_token t = s->get_token(); int n[N] = {}, k = 0; bool req = false, owed[N] = {}; 
    for (int i = 0; i < N; i++) switch (vk_choose("op", 3)) {
        case 0: { bool hopeless = !s && !req; wait(t, n[k], vk_coin("lvalue")); CHECKM(n[k] == (req || hopeless), "resumed at once iff stop was requested or cannot be"); if (req) vk_cover("at-once"); if (hopeless) vk_cover("hopeless"); k++; break; }
        case 1: if (s) { s->request_stop(); req = true; for (int j = 0; j < k; j++) CHECKM(n[j] == 1, "a stop request resumes who waits for it"); if (k) vk_cover("later"); } break;
        case 2: if (req || !k || n[0]) s.reset(); break; }
    if (s) s->request_stop(); for (int j = 0; j < k; j++) if (!n[j]) { vk_noleak(); return 0; } }
    CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 2 // awaits race with the request; the coroutine is gone as soon as it is resumed
static int data, n[2];
Fire wait(stop_token t, int i) { auto local = std::make_unique<Tok>(i); co_await t; CHECKM(data == 7, "resumed only by the request, and sees what was written before"); n[i]++; CHECK(local->get() == i); }
int main() { { stop_source s; stop_token t = s.get_token(); VkThread a([&] { wait(t, 0); }); VkThread b([&] { data = 7; s.request_stop(); }); a.start(); b.start(); if (AW > 1) wait(t, 1); a.join(); b.join(); CHECKM(n[0] == 1 && n[1] == AW - 1, "resumed exactly once"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); vk_cover("done"); }
#elif MODE == 3 // through a task and sync_wait: the waiter goes on elsewhere as soon as it is resumed
static int data;
task<int> wait(stop_token t, int v) { Mov local(v); co_await t; CHECK(data == 7); co_return local.get(); }
int main() { { stop_source s; VkThread b([s = s]() mutable { data = 7; s.request_stop(); }); int v = vk_int("v"); b.start(); int r = sync_wait(wait(s.get_token(), v)); CHECK(r == v); b.join(); } CHECK(Tok::live == 0); vk_cover("done"); }
#elif MODE == 4 // from a macro coroutine
static int n;
task<void> wait(stop_token t) { MC_BEGIN(task<void>, t, local = Mov(3)); MC_AWAIT(t); CHECK(local.get() == 3); n++; MC_END(); }
int main() { { stop_source s; VkThread b([&] { s.request_stop(); }); b.start(); sync_wait(wait(s.get_token())); CHECK(n == 1); b.join(); } CHECK(Tok::live == 0); vk_cover("done"); }
#else           // the last source disappears without a request while the token is awaited
static int n; static Fire* f; 
struct Own { std::coroutine_handle<> h; struct promise_type { Own get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vk_fail("exception"); } }; };
Own wait(stop_token t) { Tok local; co_await t; n++; }
int main() { { auto* s = new stop_source; stop_token t = s->get_token(); VkThread b([=] { delete s; }); b.start(); Own w = wait(t); if (n) vk_cover("resumed"); else vk_cover("waiting"); b.join(); CHECKM(n <= 1, "resumed twice"); w.h.destroy(); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#endif
