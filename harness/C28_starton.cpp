//@ run quick forms -DMODE=1 covers:int,mov,ref,void,threw,direct,pipe
//@ run quick lvalue -DMODE=2 -DWHAT=3 covers:direct,pipe,threw,value
//@ run quick lvalue-plain -DMODE=2 -DWHAT=2 covers:direct,pipe,value
//@ run quick owned -DMODE=3 covers:named,temporary,threw,value
//@ run quick order -DMODE=4 -DN=4 covers:both
//@ run quick pool -DMODE=5 --preempt 2 covers:threw,value
//@ run quick pool-weak -DMODE=5 --weak --preempt 1 covers:threw,value
//@ run quick two-pools -DMODE=6 --preempt 1 covers:done
//@ run quick late -DMODE=7 --preempt 3 covers:done
//@ run quick late-weak -DMODE=7 --weak --preempt 2 covers:done
//@ run quick refuse -DMODE=8 covers:threw,value
//@ run quick chain -DMODE=9 -DDEPTH=3 covers:done
//@ run quick inline -DMODE=10 covers:threw,value
//@ run quick order5 -DMODE=4 -DN=5 covers:both
//@ run quick pool-p4 -DMODE=5 --preempt 4 covers:threw,value
//@ run quick pool-weak3 -DMODE=5 --weak --preempt 3 covers:threw,value
//@ run quick two-pools-p3 -DMODE=6 --preempt 3 covers:done
//@ run quick two-pools-weak -DMODE=6 --weak --preempt 1 covers:done
//@ run quick late-p6 -DMODE=7 --preempt 6 covers:done
//@ run quick late-weak5 -DMODE=7 --weak --preempt 5 covers:done
//@ run quick chain4 -DMODE=9 -DDEPTH=4 covers:done
//@ run quick order5-l -DMODE=4 -DN=6 covers:both
//@ run quick pool-p4-p -DMODE=5 --preempt 5 covers:threw,value
//@ run quick pool-weak3-p -DMODE=5 --weak --preempt 4 covers:threw,value
//@ run quick two-pools-p3-p -DMODE=6 --preempt 4 covers:done
//@ run quick late-p6-p -DMODE=7 --preempt 7 covers:done
//@ run quick late-weak5-p -DMODE=7 --weak --preempt 6 covers:done
//@ run quick chain4-l -DMODE=9 -DDEPTH=5 covers:done
//@ run quick two-pools-weak-p -DMODE=6 --weak --preempt 2 covers:done
#include "hx.h"
#include <deque>
#include <cassert>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
#include <macoro/start_on.h>
#include <macoro/transfer_to.h>
#if MODE >= 5 && MODE <= 6
#include <macoro/thread_pool.h>
#endif
using namespace macoro;
// a scheduler run by hand
struct Man { std::coroutine_handle<> q[8]; int n = 0, asked = 0, hops = 0; bool refuse = false; int rv = 0; Man() = default; Man(const Man&) { vk_fail("the scheduler is copied"); }
    struct Op { Man* m; Tok life{2}; Op(Man* m) : m(m) {} Op(Op&&) = default; bool await_ready() { life.get(); return false; }
        void await_suspend(std::coroutine_handle<> h) { life.get(); m->q[m->n++] = h; } void await_suspend(coroutine_handle<> h) { await_suspend(h.std_cast()); } void await_resume() { life.get(); m->hops++; } };
    Op schedule() { asked++; if (refuse) throw Ex(rv); return Op(this); }
    void run(int i) { CHECK(i < n); auto h = q[i]; for (int k = i + 1; k < n; k++) q[k - 1] = q[k]; n--; h.resume(); } void run() { run(0); } };
// a scheduler that is a value naming another one; its operation refers to it
struct Ref { Man* m; Tok life{9}; int moved = 0; explicit Ref(Man* m) : m(m) {} Ref(const Ref&) = default; Ref(Ref&&) = default;
    struct Op { Ref* r; Man::Op op; bool await_ready() { r->life.get(); return op.await_ready(); } template<class H> void await_suspend(H h) { r->life.get(); op.await_suspend(h); } void await_resume() { r->life.get(); op.await_resume(); } };
    Op schedule() { life.get(); return Op{this, m->schedule()}; } };
static int started, finished; static Tok* anchor;
template<class T> task<T> work(int v, bool thr) { Tok local(v); started++; if (thr) throw Ex(v); finished++; if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *anchor; else co_return T(v); }
template<class T, class A> Fire take(A& a, int v, bool thr, Once& o) { bool caught = false;
    try { if constexpr (std::is_void_v<T>) co_await std::move(a); else if constexpr (std::is_reference_v<T>) { T r = co_await std::move(a); CHECKM(&r == anchor, "the very object"); } else { T r = co_await std::move(a); if constexpr (std::is_same_v<T, int>) CHECK(r == v); else CHECK(r.get() == v); } }
    catch (Ex& e) { caught = true; CHECKM(e.v() == v, "another exception"); }
    o.hit(); CHECKM(caught == thr, "rethrown iff thrown"); CHECK(started == 1 && finished == !thr); }
#if MODE == 1   // every kind of result; x does not start before the scheduler runs it; awaited before or after
template<class T> void kind(const char* tag) { int v = vk_int("value"); bool thr = vk_flag("throws"), late = vk_coin("late"); Man m; Once o; bool pipe = vk_coin("pipe");
    { auto s = [&] { if (pipe) return work<T>(v, thr) | start_on(m); return start_on(m, work<T>(v, thr)); }();
      CHECKM(started == 0 && m.asked == 1 && m.n == 1, "one hop is requested, nothing has started"); if (!late) { take<T>(s, v, thr, o); CHECK(o.n == 0 && m.n == 1 && started == 0); }
      m.run(); CHECKM(started == 1 && m.asked == 1 && m.hops == 1 && m.n == 0, "started by the hop, once"); if (late) { CHECK(s.is_ready()); take<T>(s, v, thr, o); } CHECK(o.n == 1); }
    vk_cover(thr ? "threw" : tag); vk_cover(pipe ? "pipe" : "direct"); }
int main() { { Tok a(7); anchor = &a; switch (vk_choose("kind", 4)) { case 0: kind<int>("int"); break; case 1: kind<Mov>("mov"); break; case 2: kind<Tok&>("ref"); break; case 3: kind<void>("void"); break; } } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 2 // an lvalue is awaited where it is, not moved or copied
int main() { { int v = vk_int("value"); bool thr = vk_flag("throws"), pipe = vk_coin("pipe"), caught = false; Man m; Once o;
    switch (vk_choose("what", WHAT)) {
#if WHAT > 2
    case 2: { auto t = work<Tok>(v, thr); { auto s = [&] { if (pipe) return t | start_on(m); return start_on(m, t); }(); static_assert(std::is_same_v<decltype(s), eager_task<Tok&>>); CHECK(started == 0);
        auto get = [&]() -> Fire { try { Tok& r = co_await s; CHECK(r.get() == v); } catch (Ex& e) { caught = true; CHECK(e.v() == v); } o.hit(); }; get(); CHECK(o.n == 0); m.run(); CHECK(o.n == 1 && caught == thr && started == 1); }
        auto again = [&]() -> Fire { try { Tok& r = co_await t; CHECKM(r.get() == v, "the task still has its result"); } catch (Ex& e) { CHECK(thr && e.v() == v); } o.n = 5; }; again(); CHECK(o.n == 5); break; }
#endif
    case 1: { Here h(v); auto s = [&] { if (pipe) return h | start_on(m); return start_on(m, h); }(); CHECK(h.co == 0); m.run(); CHECKM(h.co == 1 && h.g.waiting(), "awaited after the hop"); h.g.val = v; auto get = [&]() -> Fire { int r = co_await s; CHECK(r == v); o.hit(); }; get(); CHECK(o.n == 0); h.g.fire(); CHECK(o.n == 1); break; }
    case 0: { Gate g; g.val = v; auto s = [&] { if (pipe) return g | start_on(m); return start_on(m, g); }(); CHECK(!g.waiting()); m.run(); CHECK(g.waiting()); g.fire(); CHECK(s.is_ready()); auto get = [&]() -> Fire { int r = co_await s; CHECK(r == v); o.hit(); }; get(); CHECK(o.n == 1); break; } }
    vk_cover(pipe ? "pipe" : "direct"); vk_cover(caught ? "threw" : "value"); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 3 // a scheduler given by value lives as long as its hop; a named start_on can be used again
int main() { { int v = vk_int("value"); bool thr = vk_flag("throws"); Man m; Once o;
    { auto s = [&] { switch (vk_choose("form", 3)) { case 0: vk_cover("temporary"); return work<Mov>(v, thr) | start_on(Ref(&m)); case 1: { vk_cover("named"); auto on = start_on(Ref(&m)); return work<Mov>(v, thr) | on; } default: { auto on = start_on(m); return work<Mov>(v, thr) | on; } } }();
      CHECKM(started == 0 && m.n == 1, "nothing has started"); take<Mov>(s, v, thr, o); m.run(); CHECK(o.n == 1 && started == 1 && m.hops == 1); }
    vk_cover(thr ? "threw" : "value"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 4 // several operations on a scheduler that runs its queue in any order; transfer_to among them
struct J { int hopped = 0, began = 0, ended = 0; bool on = false; }; static J js[8]; static Man* cur;
task<> body(int i) { js[i].began++; CHECKM(cur, "runs on the scheduler"); co_return; }
Fire mover(Man& m, int i) { CHECK(!cur || true); js[i].hopped++; co_await transfer_to(m); js[i].began++; CHECKM(cur == &m, "continues on the scheduler"); js[i].ended++; }
Fire waiter(Man& m, int i) { js[i].hopped++; auto s = start_on(m, body(i)); co_await s; CHECK(js[i].began == 1); CHECKM(cur == &m, "resumed where it finished"); js[i].ended++; }
int main() { { Man m; int k = 0, ran = 0; bool a = false, b = false;
    for (int n = 0; n < N; n++) { switch (vk_choose("op", 3)) { case 0: if (k < 6) { int q = m.n; mover(m, k++); CHECK(m.n == q + 1); a = true; } break; case 1: if (k < 6) { int q = m.n; waiter(m, k++); CHECK(m.n == q + 1); b = true; } break;
        case 2: if (m.n) { cur = &m; m.run((int)vk_choose("which", m.n)); cur = nullptr; ran++; } break; }
        int e = 0; for (int i = 0; i < k; i++) { CHECK(js[i].began == js[i].ended && js[i].began <= 1); e += js[i].ended; } CHECKM(e == ran && m.n == k - ran, "each continues by its own hop"); vk_merge(); }
    cur = &m; while (m.n) m.run(); for (int i = 0; i < k; i++) CHECKM(js[i].began == 1 && js[i].ended == 1 && js[i].hopped == 1, "once"); if (a && b) vk_cover("both"); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 5 // on a pool
static int data;
int main() { { thread_pool::work g; thread_pool p(1, g); int v = vk_int("value"), before = -1, on = -1, after = -1; bool thr = vk_flag("throws"), caught = false; int in = 0;
    auto x = [&](int v) -> task<Mov> { Tok l(v); on = vk_tid(); CHECKM(in == 5, "sees what the submitter wrote"); data = v; if (thr) throw Ex(v); co_return Mov(v); };
    auto all = [&]() -> task<Mov> { before = vk_tid(); in = 5; auto r = [&] { if (vk_coin("pipe")) return x(v) | start_on(p); return start_on(p, x(v)); }(); CHECKM(vk_tid() == 0, "the submitter stays where it is"); Mov m = co_await std::move(r); after = vk_tid(); co_await transfer_to(p); CHECKM(vk_tid() == on, "continues on the pool"); co_return m; };
    try { Mov m = sync_wait(all()); CHECK(m.get() == v); vk_cover("value"); } catch (Ex& e) { caught = true; CHECK(e.v() == v); vk_cover("threw"); }
    CHECK(caught == thr && data == v); CHECKM(before == 0 && on > 0, "ran on the pool"); g.reset(); p.join(); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 6 // between two pools
int main() { { thread_pool::work g, h; thread_pool a(1, g), b(1, h); int ta = -1, tb = -1;
    auto x = [&]() -> task<int> { tb = vk_tid(); co_await transfer_to(a); CHECKM(vk_tid() == ta, "back on the first"); co_return 3; };
    auto all = [&]() -> task<int> { co_await transfer_to(a); ta = vk_tid(); CHECK(ta != 0); int r = co_await (x() | start_on(b)); CHECKM(tb != ta && tb != 0, "ran on the other"); co_await transfer_to(b); CHECK(vk_tid() == tb); co_return r; };
    int r = sync_wait(all()); CHECK(r == 3); h.reset(); b.join(); g.reset(); a.join(); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 7 // the scheduler's thread may run the work before the submitter looks, while it looks, or afterwards
struct Slot { std::atomic<void*> h{nullptr}; struct Op { Slot* s; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> c) { s->h.store(c.address(), std::memory_order_release); } void await_suspend(coroutine_handle<> c) { await_suspend(c.std_cast()); } void await_resume() {} }; Op schedule() { return {this}; }
    void run() { void* p; while (!(p = h.load(std::memory_order_acquire))) vk_yield(); std::coroutine_handle<>::from_address(p).resume(); } };
static int data, wrote;
int main() { { Slot s; VkThread t([&] { s.run(); }); int v = vk_int("value"); Once o; std::atomic<int> fin{0};
    auto x = [&]() -> task<Mov> { Tok l(1); CHECKM(vk_tid() == t.id, "runs on the scheduler"); CHECK(wrote == 4); data = v; co_return Mov(v); };
    wrote = 4; t.start();
    auto all = [&]() -> Fire { auto e = x() | start_on(s); { Mov m = co_await std::move(e); CHECK(m.get() == v); CHECK(data == v); o.hit(); } fin.store(1, std::memory_order_release); }; all();
    t.join(); CHECKM(fin.load() == 1 && o.n == 1, "continued once"); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 8 // a scheduler that refuses: its exception arrives, x never starts and is destroyed
int main() { { int v = vk_int("value"); Man m; m.refuse = vk_flag("refuse"); m.rv = v; Once o; bool caught = false, awaited = vk_coin("awaited");
    { auto s = work<Mov>(v, false) | start_on(m); auto get = [&]() -> Fire { try { Mov r = co_await std::move(s); CHECK(r.get() == v); } catch (Ex& e) { caught = true; CHECK(e.v() == v); } o.hit(); };
      if (!m.refuse) m.run(); CHECK(s.is_ready()); if (awaited) { get(); CHECK(o.n == 1 && caught == m.refuse); } CHECK(started == !m.refuse); }
    bool th = false; try { (void)transfer_to(m); } catch (Ex& e) { th = true; CHECK(e.v() == v); } CHECK(th == m.refuse); vk_cover(m.refuse ? "threw" : "value"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 9 // nested hops over two schedulers in any pattern; each stage runs on its own
static Man* cur; static int stage;
eager_task<int> nest(Man* ms, int d, int v);
task<int> inner(Man* ms, Man* mine, int d, int v) { Tok l(d); CHECKM(cur == mine, "runs on the chosen scheduler"); stage++; if (d == 0) { if (vk_coin("throws")) throw Ex(v); co_return v; } int r; if (vk_coin("transfer")) { int o = (int)vk_choose("to", 2); co_await transfer_to(ms[o]); CHECKM(cur == &ms[o], "continues on the chosen scheduler"); r = co_await inner(ms, &ms[o], d - 1, v); } else { int o = (int)vk_choose("on", 2); r = co_await (inner(ms, &ms[o], d - 1, v) | start_on(ms[o])); CHECK(cur == &ms[o] || d > 1); } co_return r; }
int main() { { Man ms[2]; int v = vk_int("value"); Once o; int k = (int)vk_choose("first", 2); { auto all = [&]() -> Fire { try { int r = co_await (inner(ms, &ms[k], DEPTH, v) | start_on(ms[k])); CHECK(r == v); } catch (Ex& e) { CHECK(e.v() == v); } o.hit(); }; all(); CHECK(stage == 0);
    for (;;) { Man* m = ms[0].n ? &ms[0] : ms[1].n ? &ms[1] : nullptr; if (!m) break; CHECKM(ms[0].n + ms[1].n == 1, "one place at a time"); cur = m; m->run(); cur = nullptr; } CHECK(o.n == 1 && stage == DEPTH + 1); } vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 10 // on the scheduler that runs everything where it is: nothing suspends
#include <macoro/inline_scheduler.h>
#include <macoro/inline_scheduler.h>
int main() { { inline_scheduler s; int v = vk_int("value"); bool th = vk_flag("throws"), named = vk_coin("named"), caught = false; Once o; started = false;
    auto all = [&]() -> Fire { co_await transfer_to(s); try { if (named) { Mov m = co_await start_on(s, work<Mov>(v, th)); CHECK(m.get() == v); } else { Mov m = co_await (work<Mov>(v, th) | start_on(inline_scheduler{})); CHECK(m.get() == v); } } catch (Ex& e) { caught = true; CHECK(e.v() == v); } o.hit(); };
    all(); CHECKM(o.n == 1 && started, "done at once"); CHECK(caught == th); vk_cover(th ? "threw" : "value"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#endif
