//@ run quick coros -DMODE=1 covers:failed,ran
//@ run quick sources -DMODE=2 covers:failed,ran
//@ run quick pool -DMODE=3 covers:failed,ran
//@ run quick threads -DMODE=4 --preempt 2 covers:failed,ran
//@ run quick race -DMODE=5 --preempt 3 covers:failed,ran
//@ run quick deadline -DMODE=6 --lazytime --preempt 2 covers:failed,ran
//@ run quick macro-end -DMODE=7
//@ run quick threads-p -DMODE=4 --preempt 3 covers:failed,ran
//@ run thorough race-p -DMODE=5 --preempt 4 covers:failed,ran
//@ run quick deadline-p -DMODE=6 --lazytime --preempt 3 covers:failed,ran
#include "hx.h"
#include <new>
// one allocation, chosen by the solver among those made while armed, fails
static bool armed, ending; static int failed;   // ending: a macro coroutine's body has ended
static bool fails() { if (!armed || ending || !vk_coin("allocation")) return false; armed = false; failed++; return true; }
void* operator new(size_t n) { if (fails()) throw std::bad_alloc(); return vk_new(n); }
extern "C" void* malloc(size_t n) { return fails() ? nullptr : vk_malloc(n); }
void* operator new[](size_t n) { if (fails()) throw std::bad_alloc(); return vk_newarr(n); }
#include <macoro/task.h>
#include <macoro/wrap.h>
#include <macoro/when_all.h>
#include <macoro/start_on.h>
#include <macoro/inline_scheduler.h>
#include <macoro/async_scope.h>
#include <macoro/when_all_scope.h>
#include <macoro/take_until.h>
#include <macoro/timeout.h>
#include <macoro/sync_wait.h>
#include <macoro/stop.h>
#include <macoro/macros.h>
#include <macoro/thread_pool.h>
#include <macoro/channel.h>
#include <macoro/transfer_to.h>
using namespace macoro;
static int ran;
task<int> one(Tok p) { Tok l(p.get()); ran++; co_return l.get(); }
task<int> mone(Tok p) { MC_BEGIN(task<int>, p = std::move(p), l = Tok(1)); ran++; l = p; ending = true; MC_RETURN(l.get()); MC_END(); }
eager_task<int> eag(Tok p) { Tok l(p.get()); ran++; co_return l.get(); }
template<class F> bool attempt(F f) { int b = failed; armed = true; bool r = false; try { f(); r = true; } catch (std::bad_alloc&) { CHECKM(failed > b, "bad_alloc although nothing failed"); } armed = false; CHECKM(r == (failed == b), "a failed allocation is not reported"); if (!r) vk_cover("failed"); else vk_cover("ran"); return r; }
struct until { bool stop = false; bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} void await_resume() {} void request_stop() { stop = true; } };
#if MODE == 1
static task<int> two(int v) { co_return co_await one(Tok(v)) + co_await one(Tok(v)); }
static task<int> mtwo(int v) { MC_BEGIN(task<int>, v, a = int(), b = int()); MC_AWAIT_SET(a, mone(Tok(v))); ending = false; MC_AWAIT_SET(b, mone(Tok(v))); ending = true; MC_RETURN(a + b); MC_END(); }
// what: an operation made and run to its end by a blocking wait, and how often bodies run
template<class F> void blocking(F f, int n, int v) { for (int i = 0; i < 2; i++) { ran = 0; ending = false; int r = 0; if (attempt([&] { r = sync_wait(f()); })) CHECK(r == v && ran == n); else { CHECK(ran <= n); } } }
int main() { int v = vk_int("v"); inline_scheduler is; switch (vk_choose("what", 14)) {
    case 0: blocking([&] { return one(Tok(v)); }, 1, v); break;
    case 1: blocking([&] { return mone(Tok(v)); }, 1, v); break;
    case 2: blocking([&] { return eag(Tok(v)); }, 1, v); break;
    case 3: blocking([&] { return two(v); }, 2, v + v); break;
    case 4: blocking([&] { return mtwo(v); }, 2, v + v); break;
    case 5: blocking([&] { return start_on(is, one(Tok(v))); }, 1, v); break;
    case 6: blocking([&] { return one(Tok(v)) | start_on(is); }, 1, v); break;
    case 7: blocking([&] { return take_until(one(Tok(v)), until{}); }, 1, v); break;
    case 8: blocking([&]() -> task<int> { auto r = co_await when_all_ready(one(Tok(v)), two(v)); co_return std::get<0>(r).result() + std::get<1>(r).result() - v - v; }, 3, v); break;
    case 9: blocking([&]() -> task<int> { std::vector<task<int>> w; w.push_back(one(Tok(v))); w.push_back(one(Tok(v))); auto r = co_await when_all_ready(std::move(w)); int x = r[0].result(); CHECK(x == r[1].result()); co_return x; }, 2, v); break;
    case 10: blocking([&]() -> task<int> { auto r = co_await wrap(two(v)); if (r.has_error()) std::rethrow_exception(r.error()); co_return r.value() - v; }, 2, v); break;
    case 11: { // the failure is in an operation made inside: it is this one's outcome, and everything else still works
        auto f = [&]() -> task<int> { task<int> a = one(Tok(v)); int r = 0; for (int i = 0; i < 2; i++) try { r = co_await one(Tok(v)); break; } catch (std::bad_alloc&) { CHECK(i == 0); } CHECK(r == v); armed = false; r += co_await std::move(a); co_return r; };
        ran = 0; armed = true; try { int r = sync_wait(f()); CHECK(r == v + v && ran == 2); vk_cover(failed ? "failed" : "ran"); } catch (std::bad_alloc&) { CHECK(failed == 1 && ran == 0); } armed = false; break; }
    case 12: { // children that were made before are dropped unstarted, or run all
        auto f = [&]() -> task<int> { task<int> a = one(Tok(v)), b = one(Tok(v)); armed = true; bool ok = false; try { auto r = co_await when_all_ready(std::move(a), std::move(b)); ok = true; armed = false; CHECK(std::get<0>(r).result() == v && std::get<1>(r).result() == v); } catch (std::bad_alloc&) { } armed = false; CHECK(ok == !failed && ran == (ok ? 2 : 0)); vk_cover(ok ? "ran" : "failed"); co_return v; };
        int r = sync_wait(f()); CHECK(r == v); break; }
    case 13: { // the same, vector
        auto f = [&]() -> task<int> { std::vector<task<int>> w; w.push_back(one(Tok(v))); w.push_back(one(Tok(v))); armed = true; bool ok = false; try { auto r = co_await when_all_ready(std::move(w)); ok = true; armed = false; CHECK(r[0].result() == v && r[1].result() == v); } catch (std::bad_alloc&) { } armed = false; CHECK(ok == !failed && ran == (ok ? 2 : 0)); vk_cover(ok ? "ran" : "failed"); co_return v; };
        int r = sync_wait(f()); CHECK(r == v); break; }
    } }
#elif MODE == 2
int main() { switch (vk_choose("what", 7)) {
    case 6: { // the table of callbacks grows
        stop_source s; int hits[20] = {}; struct Cb { int* h; void operator()() { ++*h; } }; std::unique_ptr<stop_callback> cb[20]; for (int i = 0; i < 20; i++) { auto f = [&] { cb[i].reset(new stop_callback(s.get_token(), Cb{&hits[i]})); }; if (i < 14) f(); else attempt(f); }
        if (vk_coin("drop")) cb[3].reset(); s.request_stop(); for (int i = 0; i < 20; i++) CHECK(hits[i] == (cb[i] ? 1 : 0)); break; }
    case 0: { stop_source* s = nullptr; for (int i = 0; i < 2 && !s; i++) attempt([&] { s = new stop_source; }); if (s) { CHECK(s->stop_possible() && !s->stop_requested()); delete s; } break; }
    case 1: { // callbacks: those that were registered run, also after one could not be
        stop_source s; int hits[4] = {}; struct Cb { int* h; void operator()() { ++*h; } }; std::unique_ptr<stop_callback> cb[4]; struct Room { alignas(stop_callback) char b[sizeof(stop_callback)]; };
        for (int i = 0; i < 4; i++) attempt([&] { cb[i].reset(new stop_callback(s.get_token(), Cb{&hits[i]})); });
        s.request_stop(); for (int i = 0; i < 4; i++) CHECK(hits[i] == (cb[i] ? 1 : 0)); break; }
    case 2: { attempt([&] { auto [tx, rx] = mpsc::make_channel<Tok>(2); }); break; }
    case 3: { attempt([&] { auto [tx, rx] = spsc::make_channel<Tok>(2); }); break; }
    case 4: { // waiting for a token
        stop_source s; int woken = 0, err = 0; auto f = [](stop_source& s, int& w, int& e) -> Fire { try { co_await s.get_token(); w++; } catch (std::bad_alloc&) { e++; } }; Fire* p = nullptr; (void)p;
        { int b = failed; armed = true; try { f(s, woken, err); } catch (std::bad_alloc&) { err++; } armed = false; CHECK(woken == 0 && err == failed - b); } s.request_stop(); CHECK(woken + err == 1); vk_cover(err ? "failed" : "ran"); break; }
    case 5: { // items pushed while an allocation fails are either in or not
        auto [tx, rx] = spsc::make_channel<Tok>(2); int v = vk_int("v"); int in = 0, got = 0; auto send = [](auto& tx, int v, int& in) -> Fire { for (int i = 0; i < 2; i++) { auto w = co_await tx.push(); w = Tok(v + i); in++; } }; auto recv = [](auto& rx, int v, int& got) -> Fire { for (int i = 0; i < 2; i++) { auto w = co_await rx.pop(); CHECK((*w).get() == v + i); got++; } };
        attempt([&] { send(tx, v, in); }); if (in == 2) recv(rx, v, got); CHECK(got == in); break; }
    } }
#elif MODE == 3   // a pool whose worker is the main thread
static int woken, refused; static std::vector<int>* order;
template<class F> Fire job(thread_pool& p, F f, int id) { for (int i = 0; i < 2; i++) try { co_await f(p); woken++; order->push_back(id); co_return; } catch (std::bad_alloc&) { refused++; CHECK(failed > 0); armed = false; } CHECK(false); }
int main() { std::vector<int> o; o.reserve(8); order = &o; int filler = 63; { thread_pool p; for (int i = 0; i < filler; i++) p.post(noop_coroutine());
    stop_source src; unsigned what = vk_choose("what", 6);
    for (int i = 0; i < 3; i++) { armed = failed < 2; auto go = [&](auto f) { int b = refused; try { job(p, f, i); } catch (std::bad_alloc&) { CHECK(refused == b); i--; armed = false; } }; // i--: the job's frame could not be made
        switch (what) { case 0: go([](thread_pool& p) { return p.post(); }); break; case 1: go([](thread_pool& p) { return p.dispatch(); }); break; case 2: go([](thread_pool& p) { return p.schedule(); }); break; case 3: go([](thread_pool& p) { return transfer_to(p); }); break;
        case 4: go([&](thread_pool& p) { return p.schedule_after(std::chrono::milliseconds(1), src.get_token()); }); break; case 5: go([](thread_pool& p) { return p.schedule_after(std::chrono::milliseconds(1)); }); break; } armed = false; }
    CHECK(woken == 0); if (what == 4 && vk_coin("cancelled")) src.request_stop(); p.run(); CHECK(woken == 3 && refused <= failed); if (what < 4) for (int i = 0; i < 3; i++) CHECK(o[i] == i); vk_cover(failed ? "failed" : "ran"); } }
#elif MODE == 4   // threads of a pool that cannot all be made
static std::atomic<int> done;
Fire job(thread_pool& p, thread_pool::work w) { co_await p.post(); done++; }
int main() { thread_pool::work w; std::unique_ptr<thread_pool> p; unsigned how = vk_choose("how", 2);
    attempt([&] { if (how == 0) p.reset(new thread_pool(2, w)); else { p.reset(new thread_pool); w = p->make_work(); p->create_threads(2); } });
    if (failed) { if (how == 0) { CHECK(!p); w.reset(); } else if (!p) return 0; }
    if (!p) { p.reset(new thread_pool(1, w)); } else if (failed) { armed = false; p->create_threads(1); }
    job(*p, std::move(w)); p->join(); CHECK(done == 1); }
#elif MODE == 5   // a stop request races with registrations that may fail
static std::atomic<int> hits[3];
int main() { stop_source s; struct Cb { int i; void operator()() { hits[i]++; } }; std::unique_ptr<stop_callback> cb[3]; VkThread t([&] { s.request_stop(); });
    VkThread u([&] { for (int i = 0; i < 3; i++) attempt([&] { cb[i].reset(new stop_callback(s.get_token(), Cb{i})); }); }); u.start(); t.start(); t.join(); u.join();
    for (int i = 0; i < 3; i++) CHECK(hits[i] == (cb[i] ? 1 : 0)); }
#elif MODE == 6   // operations with a deadline
int main() { int v = vk_int("v"); { thread_pool::work w; thread_pool p(1, w); bool got = false;
    auto f = [](thread_pool& p, int v) -> task<int> { struct Off { ~Off() { armed = false; } } off; armed = true; timeout t(p, std::chrono::milliseconds(1)); task<int> o; bool no = false; try { o = one(Tok(v)); } catch (std::bad_alloc&) { no = true; }
        if (no) { t.request_stop(); co_await t; throw std::bad_alloc(); } bool a = armed; armed = false; auto u = take_until(std::move(o), std::move(t)); armed = a; co_return co_await std::move(u); };
    try { int r = sync_wait(f(p, v)); CHECK(r == v && ran == 1); got = true; } catch (std::bad_alloc&) { CHECK(failed == 1); }
    CHECK(got || failed); vk_cover(!failed ? "ran" : "failed"); w.reset(); p.join(); } }
#elif MODE == 7   // what a macro coroutine allocates once its body has ended
task<int> last(Tok p) { MC_BEGIN(task<int>, p = std::move(p)); armed = true; MC_RETURN(p.get()); MC_END(); }
int main() { int r = 0; bool ok = false; try { r = sync_wait(last(Tok(1))); ok = true; } catch (std::bad_alloc&) { } armed = false; CHECK(ok == !failed && (!ok || r == 1)); vk_cover("ran"); }
#endif
