//@ run quick kinds -DMODE=1 covers:int,tok,mov,ref,void,threw
//@ run quick awaiters -DMODE=2 covers:threw,value,other,self,stay
//@ run quick wakes -DMODE=3 --wakes 2 covers:value,threw
//@ run quick blocking-wakes -DMODE=5 --wakes 2 covers:value,threw
//@ run quick pool-wakes -DMODE=7 --preempt 1 --wakes 1 covers:done
//@ run quick other -DMODE=3 covers:value,threw
//@ run quick other-weak -DMODE=3 --weak covers:value,threw
//@ run quick raw -DMODE=4 covers:done
//@ run quick raw-weak -DMODE=4 --weak covers:done
//@ run quick blocking -DMODE=5 covers:value,threw
//@ run quick blocking-weak -DMODE=5 --weak --preempt 3 covers:value,threw
//@ run quick two -DMODE=6 --preempt 3 covers:done
//@ run quick pool -DMODE=7 --preempt 2 covers:done
//@ run quick nested -DMODE=8 covers:done
//@ run quick objects -DMODE=9 -DN=5 covers:got,dropped
//@ run quick two-p6 -DMODE=6 --preempt 6 covers:done
//@ run quick two-weak -DMODE=6 --weak --preempt 4 covers:done
//@ run quick pool-weak -DMODE=7 --weak --preempt 3 covers:done
//@ run quick pool-p4 -DMODE=7 --preempt 4 covers:done
//@ run quick nested-weak -DMODE=8 --weak covers:done
//@ run quick objects6 -DMODE=9 -DN=6 covers:got,dropped
//@ run quick pool-wakes-p -DMODE=7 --preempt 2 --wakes 1 covers:done
//@ run quick blocking-weak-p -DMODE=5 --weak --preempt 4 covers:value,threw
//@ run quick two-p6-p -DMODE=6 --preempt 7 covers:done
//@ run quick pool-p4-p -DMODE=7 --preempt 5 covers:done
//@ run thorough objects6-l -DMODE=9 -DN=7 covers:got,dropped
//@ run quick two-weak-p -DMODE=6 --weak --preempt 5 covers:done
//@ run quick pool-weak-p -DMODE=7 --weak --preempt 4 covers:done
#include "hx.h"
#include <macoro/sync_wait.h>   // first: it has to include what it needs
#include <macoro/task.h>
#include <macoro/thread_pool.h>
using namespace macoro;
#if MODE == 1   // every kind of result, completed on the calling thread
static int runs; static Tok* anchor;
template<class T> task<T> lazy(int v, bool thr) { Tok local(v); runs++; if (thr) throw Ex(v);
    if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *anchor; else co_return T(v); }
template<class T> eager_task<T> eager(int v, bool thr) { Tok local(v); runs++; if (thr) throw Ex(v);
    if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *anchor; else co_return T(v); }
template<class T, class F> void get(F f, int v, bool thr, const char* tag) { runs = 0; bool caught = false;
    try { if constexpr (std::is_void_v<T>) f(); else if constexpr (std::is_reference_v<T>) { T r = f(); CHECKM(&r == anchor, "the very object is returned"); } else { T r = f(); if constexpr (std::is_same_v<T, int>) CHECK(r == v); else CHECK(r.get() == v); } }
    catch (Ex& e) { caught = true; CHECKM(e.v() == v, "another exception"); }
    CHECKM(caught == thr, "rethrown iff thrown"); CHECKM(runs == 1, "the awaited coroutine ran once"); vk_cover(thr ? "threw" : tag); }
template<class T> void kind(const char* tag) { int v = vk_int("value"); bool thr = vk_flag("throws");
    switch (vk_choose("how", 6)) {
    case 0: get<T>([&]() -> decltype(auto) { return T(sync_wait(lazy<T>(v, thr))); }, v, thr, tag); break;
    case 1: get<T>([&]() -> decltype(auto) { return T(lazy<T>(v, thr) | sync_wait()); }, v, thr, tag); break;
    case 2: get<T>([&]() -> decltype(auto) { auto b = make_blocking(lazy<T>(v, thr)); return T(b.get()); }, v, thr, tag); break;
    case 3: get<T>([&]() -> decltype(auto) { return T(sync_wait(eager<T>(v, thr))); }, v, thr, tag); break;
    case 4: get<T>([&]() -> decltype(auto) { auto b = lazy<T>(v, thr) | make_blocking(); return T(b.get()); }, v, thr, tag); break;
    case 5: get<T>([&]() -> decltype(auto) { auto t = lazy<T>(v, thr); auto m = std::move(t); return T(sync_wait(std::move(m))); }, v, thr, tag); break; } }
static void lvalues() { int v = vk_int("value"); bool thr = vk_flag("throws"), pipe = vk_coin("pipe"); runs = 0; bool caught = false;
    { auto t = lazy<Tok>(v, thr); try { Tok& r = pipe ? t | sync_wait() : sync_wait(t); CHECKM(r.get() == v, "the task keeps its result"); Tok& r2 = sync_wait(t); CHECKM(&r2 == &r, "asked again, the same object"); } catch (Ex& e) { caught = true; CHECK(e.v() == v); } }
    CHECK(caught == thr && runs == 1); runs = 0; caught = false;
    { auto t = eager<Mov>(v, thr); try { Mov& r = sync_wait(t); CHECK(r.get() == v); Mov m = sync_wait(std::move(t)); CHECK(m.get() == v); } catch (Ex& e) { caught = true; CHECK(e.v() == v); } }
    CHECK(caught == thr && runs == 1); }
int main() { { Tok a(77); anchor = &a;
    switch (vk_choose("kind", 6)) { case 0: kind<int>("int"); break; case 1: kind<Tok>("tok"); break; case 2: kind<Mov>("mov"); break; case 3: kind<Tok&>("ref"); break; case 4: kind<void>("void"); break; case 5: lvalues(); break; } }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 2 // hand-written awaiters: every way to be ready, suspend, throw
struct Script { int v; bool ready; int susp; int thr; int nReady = 0, nSusp = 0, nRes = 0, nCo = 0; std::coroutine_handle<> h; };
template<class R> struct Aw { Script* s; Tok life{1}; Aw(Script* s) : s(s) {} Aw(const Aw& o) : s(o.s) { vk_fail("the awaiter is copied"); }
    bool await_ready() { life.get(); s->nReady++; if (s->thr == 1) throw Ex(s->v); return s->ready; }
    R await_suspend(std::coroutine_handle<> h) { life.get(); s->nSusp++; if (s->thr == 2) throw Ex(s->v);
        if constexpr (std::is_same_v<R, bool>) { if (s->susp == 0) return false; s->h = h; return true; }
        else if constexpr (std::is_void_v<R>) { if (s->susp == 0) h.resume(); else s->h = h; }
        else { if (s->susp == 0) return h; s->h = h; return std::noop_coroutine(); } }
    Mov await_resume() { life.get(); s->nRes++; if (s->thr == 3) throw Ex(s->v); return Mov(s->v); } };
template<class R> struct ByOp { Script* s; Aw<R> operator co_await() && { s->nCo++; if (s->thr == 4) throw Ex(s->v); return Aw<R>(s); } };
template<class R> struct ByFree { Script* s; };
template<class R> Aw<R> operator co_await(ByFree<R>&& b) { b.s->nCo++; if (b.s->thr == 4) throw Ex(b.s->v); return Aw<R>(b.s); }
template<class A> void go(A&& a, Script& s, bool op) { bool caught = false; int got = 0; int thr = s.thr; if (thr == 4 && !op) thr = s.thr = 0; bool suspends = !s.ready && s.susp;
    if (suspends && thr != 1 && thr != 2 && thr != 4) { // somebody must complete it: use the two-step form
        { auto b = make_blocking<A&&>(std::forward<A>(a)); CHECK(s.h && s.nSusp == 1 && s.nRes == 0); s.h.resume();
          try { Mov m = b.get(); got = m.get(); } catch (Ex& e) { caught = true; got = e.v(); } } vk_cover("stay"); }
    else { try { Mov m = sync_wait(std::forward<A>(a)); got = m.get(); } catch (Ex& e) { caught = true; got = e.v(); } vk_cover("self"); }
    CHECKM(got == s.v, "the value or the exception"); CHECKM(caught == (thr == 1 || (thr == 2 && !s.ready) || thr == 3 || thr == 4), "thrown iff thrown");
    if (!op) CHECK(s.nCo == 0); else CHECK(s.nCo == 1);
    CHECKM(s.nReady == (thr == 4 ? 0 : 1), "ready asked once"); CHECKM(s.nSusp == (thr == 4 || thr == 1 || s.ready ? 0 : 1), "suspended once unless ready"); CHECKM(s.nRes == (caught && thr != 3 ? 0 : 1), "resumed once unless something failed before");
    vk_cover(caught ? "threw" : "value"); }
template<class R> void way(Script& s) { switch (vk_choose("form", 4)) { case 0: { Aw<R> a(&s); go(std::move(a), s, false); break; } case 1: go(ByOp<R>{&s}, s, true); break; case 2: go(ByFree<R>{&s}, s, true); break; case 3: { Aw<R> a(&s); go(a, s, false); vk_cover("other"); break; } } }
int main() { { Script s{vk_int("value"), vk_coin("ready"), (int)vk_choose("suspends", 2), (int)vk_choose("throws", 5)};
    switch (vk_choose("returns", 3)) { case 0: way<void>(s); break; case 1: way<bool>(s); break; case 2: way<std::coroutine_handle<>>(s); break; } }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 3 // completed by another thread while the caller blocks
static int data, done_;
task<Mov> body(XGate& g, int v, bool thr) { Tok local(v); co_await g; data = v; done_++; if (thr) throw Ex(v); co_return Mov(v); }
int main() { { int v = vk_int("value"); bool thr = vk_flag("throws"); XGate g; VkThread b([&] { g.fire(); }); b.start(); bool caught = false;
    try { Mov m = sync_wait(body(g, v, thr)); CHECK(m.get() == v); vk_cover("value"); } catch (Ex& e) { caught = true; CHECK(e.v() == v); vk_cover("threw"); }
    CHECKM(done_ == 1 && data == v, "returns only after completion, and sees everything it wrote"); CHECK(caught == thr); b.join(); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 4 // a bare awaiter resumed by another thread: nothing else synchronises; its storage goes away as soon as sync_wait returns
struct Post { std::atomic<void*>* slot; int* out; Tok life{3}; Post(std::atomic<void*>* s, int* o) : slot(s), out(o) {} Post(const Post& o) : slot(o.slot), out(o.out) { vk_fail("the awaiter is copied"); }
    bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { slot->store(h.address(), std::memory_order_release); } int& await_resume() { life.get(); return *out; } };
int main() { std::atomic<void*> slot{nullptr}; { VkThread b([&] { void* p; while (!(p = slot.load(std::memory_order_acquire))) vk_yield(); auto& o = *new int(41); o++; struct K { int* p; }; static K keep; keep.p = &o; extern int* result_; result_ = &o; std::coroutine_handle<>::from_address(p).resume(); }); b.start();
      { extern int* result_; int dummy = 0; int& r = sync_wait(Post(&slot, &dummy)); CHECK(&r == &dummy); CHECKM(result_ && *result_ == 42, "what the completing thread wrote is visible"); delete result_; result_ = nullptr; vk_cover("done"); }
      b.join(); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
int* result_;
#elif MODE == 5 // started first, waited for later, maybe moved in between; both threads may finish first
static int data;
task<Tok> body(XGate& g, int v, bool thr) { Tok local(v); co_await g; data = v; if (thr) throw Ex(v); co_return Tok(v); }
int main() { { int v = vk_int("value"); bool thr = vk_flag("throws"); XGate g; VkThread b([&] { g.fire(); }); b.start();
    auto t = make_blocking(body(g, v, thr)); blocking_task<task<Tok>> m(std::move(t)); blocking_task<task<Tok>> u{coroutine_handle<blocking_task<task<Tok>>::promise_type>(nullptr)}; u = std::move(m); bool caught = false;
    try { Tok r = u.get(); CHECK(r.get() == v); vk_cover("value"); } catch (Ex& e) { caught = true; CHECK(e.v() == v); vk_cover("threw"); }
    CHECK(caught == thr); CHECKM(data == v, "sees everything the completing thread wrote"); b.join(); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 6 // two threads block on two operations, completed by a third and by each other
static int data[2];
task<Mov> body(XGate& g, int i) { Tok local(i); co_await g; data[i] = i + 7; co_return Mov(i); }
int main() { { XGate g[2]; VkThread a([&] { Mov m = sync_wait(body(g[0], 0)); CHECK(m.get() == 0 && data[0] == 7); g[1].fire(); }); VkThread b([&] { g[0].fire(); }); a.start(); b.start();
    Mov m = sync_wait(body(g[1], 1)); CHECK(m.get() == 1 && data[1] == 8); a.join(); b.join(); vk_cover("done"); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 7 // blocking on work of a pool
int main() { { thread_pool::work w; thread_pool p(1, w); int v = vk_int("value"), on = -1; bool thr = vk_flag("throws"), caught = false;
    auto body = [&](int x) -> task<Mov> { Tok local(x); co_await p.schedule(); on = vk_tid(); if (thr) throw Ex(x); co_return Mov(x); };
    sync_wait(p.schedule());
    try { Mov m = sync_wait(body(v)); CHECK(m.get() == v); } catch (Ex& e) { caught = true; CHECK(e.v() == v); }
    CHECK(caught == thr); CHECKM(on > 0, "ran on the pool"); w.reset(); p.join(); vk_cover("done"); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 8 // a coroutine that itself blocks on another one, completed by the third
static int data;
task<int> inner(XGate& g) { Tok l(1); co_await g; data++; co_return 5; }
task<int> outer(XGate& g, XGate& h) { Tok l(2); co_await h; int a = sync_wait(inner(g)); CHECK(a == 5 && data == 1); co_return a + 1; }
int main() { { XGate g, h; VkThread a([&] { h.fire(); }); VkThread b([&] { g.fire(); }); a.start(); b.start(); int r = sync_wait(outer(g, h)); CHECK(r == 6 && data == 1); a.join(); b.join(); vk_cover("done"); }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 9 // any history of starting, moving, overwriting, completing, getting and dropping blocking tasks on one thread
struct Op { Gate g; bool on = false, fin = false, got = false; int v = 0; };
static Op ops[8]; static int nops;
task<Tok> body(int i) { Tok local(i); int x = co_await ops[i].g; co_return Tok(x); }
int main() { { using B = blocking_task<task<Tok>>; std::unique_ptr<B> b[2]; int w[2] = {-1, -1}; bool have[2] = {};
    for (int n = 0; n < N; n++) { int i = (int)vk_choose("i", 2), j = (int)vk_choose("j", 2); switch (vk_choose("op", 5)) {
        case 0: if (!b[i]) { int k = nops++; ops[k].v = ops[k].g.val = vk_int("v"); b[i] = std::make_unique<B>(make_blocking(body(k))); CHECK(ops[k].g.waiting()); w[i] = k; } break;
        case 1: if (b[i] && w[i] >= 0 && !ops[w[i]].fin) { ops[w[i]].g.fire(); ops[w[i]].fin = true; } break;
        case 2: if (b[i] && w[i] >= 0 && ops[w[i]].fin && !ops[w[i]].got) { Tok r = b[i]->get(); CHECK(r.get() == ops[w[i]].v); ops[w[i]].got = true; vk_cover("got"); } break;
        case 3: if (b[i]) { if (w[i] >= 0 && !ops[w[i]].fin) vk_cover("dropped"); b[i].reset(); w[i] = -1; } break;
        case 4: if (b[i] && b[j]) { *b[i] = std::move(*b[j]); if (i != j) { w[i] = w[j]; w[j] = -1; } } else if (b[i] && !b[j]) { b[j] = std::make_unique<B>(std::move(*b[i])); w[j] = w[i]; w[i] = -1; } break; }
        int live = 0; for (int k = 0; k < 2; k++) if (b[k] && w[k] >= 0) live++;
        (void)live; vk_merge(); } }
    CHECKM(Tok::live == 0, "every frame destroyed once"); }
#endif
