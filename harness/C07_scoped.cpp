//@ run quick drop -DMODE=1 covers:dropped
//@ run quick drop-weak -DMODE=1 --weak covers:dropped
//@ run quick await -DMODE=2 covers:value,exception
//@ run quick await-weak -DMODE=2 --weak covers:value,exception
//@ run quick overwrite -DMODE=3 covers:done
//@ run quick types -DMODE=4 --preempt 2 covers:done,thrown
//@ run quick poll -DMODE=5 covers:ready
//@ run quick elsewhere -DMODE=6 --preempt 2 covers:done
//@ run quick overwrite-weak -DMODE=3 --weak covers:done
//@ run quick elsewhere-weak -DMODE=6 --weak --preempt 2 covers:done
//@ run quick elsewhere-all -DMODE=6 covers:done
//@ run quick types-p -DMODE=4 --preempt 3 covers:done,thrown
//@ run quick elsewhere-weak-p -DMODE=6 --weak --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <vector>
#include <macoro/async_scope.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static XGate g[2]; static int w, w1;
struct Live { static inline int n = 0; Live() { __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED); } Live(Live&&) noexcept { __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED); } ~Live() { __atomic_fetch_sub(&n, 1, __ATOMIC_RELAXED); } };
task<Mov> job(int k, int v, bool th, Live) { Tok t(v); co_await g[k]; (k ? w1 : w)++; if (th) throw Ex(v); co_return Mov(v); }
static int lost(std::vector<std::exception_ptr>& e, int v) { int n = 0; for (auto& x : e) try { std::rethrow_exception(x); } catch (Ex& y) { CHECK(y.v() == v); n++; } return n; }
static int join(async_scope& s, int v) { try { sync_wait(s.join()); } catch (async_scope_exception& e) { return lost(e.m_exceptions, v); } return 0; }
#if MODE == 1   // dropped while the task finishes
int main() {
    int v = vk_int("v"); bool th = vk_flag("th"), again = vk_flag("last"); async_scope s; VkThread a([] { g[0].fire(); }); { auto h = s.add(job(0, v, th, {})); a.start(); } int l = join(s, v); CHECK(l == th); CHECK(w == 1); CHECK(Tok::live == 0 && Live::n == 0); a.join(); vk_cover("dropped"); }
#elif MODE == 2 // awaited while the task finishes
int main() {
    int v = vk_int("v"); bool th = vk_flag("th"), first = vk_flag("joinFirst"); auto* s = new async_scope; VkThread a([] { g[0].fire(); }); { auto h = s->add(job(0, v, th, {})); a.start(); if (first) { CHECK(join(*s, v) == 0); CHECK(h.is_ready()); }
        bool e = false; try { Mov m = sync_wait(std::move(h)); CHECK(m.get() == v); CHECK(w == 1); vk_cover("value"); } catch (Ex& x) { CHECK(x.v() == v); e = true; vk_cover("exception"); } CHECK(e == th); CHECK(w == 1); CHECK(!h.is_ready()); } CHECK(Tok::live == 0 && Live::n == 0);
    if (!first) CHECK(join(*s, v) == 0); delete s; a.join(); }
#elif MODE == 3 // overwritten by, and moved to, other handles while the task finishes
int main() {
    int v = vk_int("v"); bool th = vk_flag("th"); async_scope s; VkThread a([] { g[0].fire(); }); { auto h = s.add(job(0, v, th, {})); a.start(); auto h2 = std::move(h); h = s.add(job(1, v, false, {})); auto& hh = h2; h2 = std::move(hh); h2 = std::move(h); g[1].fire(); Mov m = sync_wait(std::move(h2)); CHECK(m.get() == v); }
    CHECK(join(s, v) == th); CHECK(Tok::live == 0 && Live::n == 0); a.join(); vk_cover("done"); }
#elif MODE == 4 // result types; each returns or throws, is awaited from a task or a thread, or is dropped
task<int&> ref(int& x, bool th) { co_await g[0]; if (th) throw Ex(x); co_return x; } task<> none(int& x, bool th) { int v = x; x = 0; co_await g[0]; x = v; if (th) throw Ex(v); } task<Tok> val(int x, bool th) { Tok t(x); co_await g[0]; if (th) throw Ex(x); co_return t; }
int main() {
    int v = vk_int("v"), x = v, e = -1; bool th = vk_flag("th"), drop = vk_flag("drop"), tsk = vk_flag("task"); async_scope s; VkThread a([] { g[0].fire(); });
    try { switch (vk_choose("type", 3)) {
    case 0: { auto h = s.add(ref(x, th)); a.start(); if (drop) break; int& r = tsk ? sync_wait([](decltype(h) h) -> task<int&> { co_return co_await std::move(h); }(std::move(h))) : sync_wait(std::move(h)); CHECK(&r == &x && !th); } break;
    case 1: { auto h = s.add(none(x, th)); a.start(); if (drop) break; if (tsk) sync_wait([](decltype(h) h) -> task<> { co_await std::move(h); }(std::move(h))); else sync_wait(std::move(h)); CHECK(x == v && !th); } break;
    case 2: { auto h = s.add(val(v, th)); a.start(); if (drop) break; Tok r = tsk ? sync_wait([](decltype(h) h) -> task<Tok> { co_return co_await std::move(h); }(std::move(h))) : sync_wait(std::move(h)); CHECK(r.get() == v && !th); } break; } } catch (Ex& y) { CHECK(th && !drop); CHECK(y.v() == v); vk_cover("thrown"); e = 1; }
    CHECKM(drop || e == (th ? 1 : -1), "an exception is rethrown to the awaiter"); CHECK(join(s, v) == (drop && th)); a.join(); CHECK(Tok::live == 0); vk_cover("done"); }
#elif MODE == 5 // is_ready turns true only after the task has run and stays true
int main() {
    int v = vk_int("v"); bool th = vk_flag("th"); async_scope s; VkThread a([] { g[0].fire(); }); auto h = s.add(job(0, v, th, {})); CHECK(!h.is_ready()); a.start(); bool r = h.is_ready(); if (r) vk_cover("ready"); a.join(); CHECK(h.is_ready()); CHECK(w == 1);
    bool e = false; try { Mov m = sync_wait(std::move(h)); CHECK(m.get() == v); } catch (Ex& x) { CHECK(x.v() == v); e = true; } CHECK(e == th); CHECK(join(s, v) == 0); CHECK(Tok::live == 0); }
#else           // the handle is awaited or dropped by a third thread, the scope is joined by the first
int main() {
    int v = vk_int("v"); bool th = vk_flag("th"), aw = vk_flag("await"); auto* s = new async_scope; VkThread a([] { g[0].fire(); }); auto h = s->add(job(0, v, th, {})); a.start(); bool e = false, got = false; 
    VkThread b([&] { if (aw) { try { Mov m = sync_wait(std::move(h)); CHECK(m.get() == v); got = true; } catch (Ex& x) { CHECK(x.v() == v); e = true; } CHECK(w == 1); } else { auto d = std::move(h); } }); b.start();
    if (!aw) b.join(); int l = join(*s, v); CHECK(w == 1); if (aw) { CHECK(l == 0); b.join(); CHECK(e == th && got == !th); } else CHECK(l == th); a.join(); delete s; CHECK(Tok::live == 0 && Live::n == 0); vk_cover("done"); }
#endif
