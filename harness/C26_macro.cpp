//@ run quick flow-void -DMODE=1 -DSUSP=0 covers:returned,destroyed,threw,branch
//@ run quick flow-bool -DMODE=1 -DSUSP=1 covers:returned,destroyed,threw,branch
//@ run quick flow-handle -DMODE=1 -DSUSP=2 covers:returned,destroyed,threw,branch
//@ run quick flow-native -DMODE=1 -DSUSP=3 covers:returned,destroyed,threw,branch
//@ run quick yield -DMODE=2 covers:returned,destroyed,threw
//@ run quick yield-await -DMODE=3 covers:returned,destroyed,threw
//@ run quick await-await -DMODE=4 covers:returned,destroyed,threw
//@ run quick fn-return -DMODE=5 covers:returned,destroyed,threw
//@ run quick try -DMODE=6 covers:returned,destroyed,caught
//@ run quick categories -DMODE=7 covers:returned,destroyed,threw
//@ run quick ends -DMODE=8 covers:returned,destroyed,threw
//@ run quick tasks -DMODE=9 -DDEPTH=3 covers:value,threw,dropped
//@ run quick kinds -DMODE=10 covers:done
//@ run quick threads -DMODE=11 covers:done
//@ run quick threads-weak -DMODE=11 --weak --preempt 3 covers:done
//@ run quick eager-threads -DMODE=12 --preempt 3 covers:done
//@ run quick results -DMODE=13 covers:ok,err,threw
//@ run quick library -DMODE=14 covers:suspended,ready,threw
//@ run quick tasks4 -DMODE=9 -DDEPTH=4 covers:value,threw,dropped
//@ run quick threads-p6 -DMODE=11 --preempt 6 covers:done
//@ run quick eager-threads-weak -DMODE=12 --weak --preempt 3 covers:done
//@ run quick tasks4-l -DMODE=9 -DDEPTH=5 covers:value,threw,dropped
//@ run quick threads-weak-p -DMODE=11 --weak --preempt 4 covers:done
//@ run quick eager-threads-p -DMODE=12 --preempt 4 covers:done
//@ run quick eager-threads-weak-p -DMODE=12 --weak --preempt 4 covers:done
#include "hx.h"
#include <macoro/task.h>
#include <macoro/result.h>
#include <macoro/sync_wait.h>
#include <macoro/macros.h>
using namespace macoro;
#if MODE <= 8
// Both forms of a coroutine run under the same script of outcomes; the traces of what they did must be equal.
static int lg[2][96], ln[2], cur; static void ev(int c) { CHECKM(ln[cur] < 96, "harness: log too short"); lg[cur][ln[cur]++] = c; }
static int plan_[16]; static bool planned[16]; static int plan(int k, int n) { if (!planned[k]) { planned[k] = true; plan_[k] = (int)vk_choose("outcome", n); } return plan_[k]; }
static std::coroutine_handle<> pend;
struct Trk { int id; explicit Trk(int i) : id(i) { Tok::live++; } Trk(const Trk& o) : id(o.id) { Tok::live++; ev(5000 + id); } ~Trk() { Tok::live--; ev(6000 + id); } };   // logs copies and destruction
// outcomes: 0 ready, 1 suspends, 2 goes on at once, 3 ready throws, 4 suspending throws, 5 resuming throws, 6 suspends and then resuming throws, 7 the awaitable throws
template<int RR> struct Aw { int k, v; Trk t; Aw(int k, int v, int n = 7) : k(k), v(v), t(k) { plan(k, n); ev(100 + k); } Aw(const Aw& o) : k(o.k), v(o.v), t(o.t) { vk_fail("the awaiter is copied"); }
    bool await_ready() { ev(200 + k); if (plan_[k] == 3) throw Ex(k); return plan_[k] == 0 || plan_[k] == 5; }
    template<class H> void sus(H h) { ev(300 + k); if (plan_[k] == 4) throw Ex(k + 30); if (plan_[k] != 2) pend = std::coroutine_handle<>(h); }
    template<class H> auto await_suspend(H h) requires (RR != 3) { sus(h); if constexpr (RR == 0) { if (plan_[k] == 2) h.resume(); } else if constexpr (RR == 1) return plan_[k] != 2; else { using V = std::conditional_t<std::is_convertible_v<H, coroutine_handle<>>, coroutine_handle<>, std::coroutine_handle<>>; if (plan_[k] == 2) return V(h); if constexpr (std::is_same_v<V, coroutine_handle<>>) return V(noop_coroutine()); else return V(std::noop_coroutine()); } }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) requires (RR == 3) { sus(h); if (plan_[k] == 2) return h; return std::noop_coroutine(); }
    int await_resume() { ev(400 + k); if (plan_[k] == 5 || plan_[k] == 6) throw Ex(k + 60); return v; } };
template<int RR> struct Ext { int k, v; Trk t; Ext(int k, int v) : k(k), v(v), t(20 + k) {} Ext(const Ext& o) : k(o.k), v(o.v), t(o.t) { vk_fail("the awaitable is copied"); } Aw<RR> operator co_await() && { ev(500 + k); plan(k, 8); if (plan_[k] == 7) throw Ex(k + 90); return Aw<RR>(k, v); } };
template<int RR> struct Both { int k, v; Aw<RR> operator co_await() & { ev(510 + k); return Aw<RR>(k, v + 1); } Aw<RR> operator co_await() && { ev(520 + k); return Aw<RR>(k, v + 2); } };
struct Tr { int k, v; Trk t; Tr(int k, int v) : k(k), v(v), t(40 + k) {} Tr(const Tr& o) : k(o.k), v(o.v), t(o.t) { vk_fail("the awaited expression is copied"); } };
struct Pr; struct Co { using promise_type = Pr; coroutine_handle<Pr> h; };
#ifndef SUSP
#define SUSP 0
#endif
struct Pr { Tok life{1}; ~Pr() { ev(1); } Co get_return_object() { return {coroutine_handle<Pr>::from_promise(*this, coroutine_handle_type::std)}; } Co macoro_get_return_object() { return {coroutine_handle<Pr>::from_promise(*this, coroutine_handle_type::macoro)}; }
    auto initial_suspend() { ev(2);
#if MODE == 8
        return Aw<1>(14, 0, 3);
#else
        return suspend_never{};
#endif
    }
    struct Fin { Pr* p; bool await_ready() noexcept {
#if MODE == 8
        ev(4); return plan(15, 2);
#else
        return false;
#endif
    } void await_suspend(std::coroutine_handle<>) noexcept { ev(5); } void await_suspend(coroutine_handle<>) noexcept { ev(5); } void await_resume() noexcept { ev(6); } };
    Fin final_suspend() noexcept { ev(3); return {this}; }
#if MODE == 8
    void return_void() { ev(7); }
#else
    void return_value(int v) { ev(8); ev(v); }
#endif
    void unhandled_exception() { try { throw; } catch (Ex& e) { ev(9); ev(e.v()); } vk_cover("threw"); }
    template<class T> decltype(auto) await_transform(T&& t) { if constexpr (std::is_same_v<std::remove_cvref_t<T>, Tr>) { ev(10); return Ext<SUSP>(t.k, t.v); } else return std::forward<T>(t); }
    Aw<SUSP> yield_value(int v) { ev(11); ev(v); static int n; return Aw<SUSP>(8 + (nyield[cur]++), v + 1); } static inline int nyield[2]; };
#if MODE == 7
static std::unique_ptr<Aw<SUSP>> lv;
#endif
static int acts[12]; static bool act(int i) { static bool have[12]; if (i >= 12) return false; if (!have[i]) { have[i] = true; acts[i] = vk_coin("destroy"); } return acts[i]; }
template<class F> void drive(int form, F f) { cur = form; ev(0); pend = nullptr; int live = Tok::live; Co c = f(); int i = 0; bool gone = false;
    while (pend) { if (act(i++)) { ev(12); c.h.destroy(); gone = true; vk_cover("destroyed"); break; } ev(13); auto p = std::exchange(pend, nullptr); p.resume(); }
    if (!gone) {
#if MODE == 8
        if (plan(15, 2)) gone = true; else
#endif
        { CHECKM(c.h.done(), "the coroutine is at its end"); ev(14); c.h.destroy(); } vk_cover("returned"); }
    
#if MODE == 7
    lv.reset();
#endif
    CHECKM(Tok::live == live, "frame, awaiters and captured variables are destroyed"); }
template<class A, class B> void compare(A a, B b) { drive(0, a); drive(1, b); for (int i = 0; i < ln[0] && i < ln[1]; i++) CHECKM(lg[0][i] == lg[1][i], "the macro coroutine does something else than the native one"); CHECKM(ln[0] == ln[1], "the macro coroutine does more or less than the native one"); CHECK(vk_liveheap() == 0); }
#endif
#if MODE == 1   // awaits in branches and loops
static Co nat(int x, Tok t) { int a = co_await Aw<SUSP>(0, x); if (a > 5) { int b = co_await Aw<SUSP>(1, a); a += b; vk_cover("branch"); } for (int i = 0; i < 2; i++) { ev(20); co_await Ext<SUSP>(2 + i, a); } co_return a + t.get(); }
static Co mac(int x, Tok t_) { MC_BEGIN(Co, x, t = std::move(t_), a = 0, b = 0, i = 0); MC_AWAIT_SET(a, Aw<SUSP>(0, x)); if (a > 5) { MC_AWAIT_SET(b, Aw<SUSP>(1, a)); a += b; } for (i = 0; i < 2; i++) { ev(20); MC_AWAIT(Ext<SUSP>(2 + i, a)); } MC_RETURN(a + t.get()); MC_END(); }
int main() { int x = vk_int("x"); vk_assume(x < 1000 && x > -1000); plan_[3] = 0; planned[3] = true; compare([&] { return nat(x, Tok(7)); }, [&] { return mac(x, Tok(7)); }); }
#elif MODE == 2
static Co nat(int x) { co_yield x; ev(20); int y = co_yield x + 5; ev(y); co_return co_yield y; }
static Co mac(int x) { MC_BEGIN(Co, x, y = 0); MC_YIELD(x); ev(20); MC_YIELD_SET(y, x + 5); ev(y); MC_RETURN_YIELD(y); MC_END(); }
int main() { int x = vk_int("x"); vk_assume(x < 1000 && x > -1000); compare([&] { return nat(x); }, [&] { return mac(x); }); }
#elif MODE == 3
static Co nat(int x) { for (int i = 0; i < 2; i++) { co_yield co_await Ext<SUSP>(i, x); ev(20); } co_return x; }
static Co mac(int x) { MC_BEGIN(Co, x, i = 0); for (i = 0; i < 2; i++) { MC_YIELD_AWAIT(Ext<SUSP>(i, x)); ev(20); } MC_RETURN(x); MC_END(); }
int main() { int x = vk_int("x"); plan_[1] = 1; planned[1] = true; compare([&] { return nat(x); }, [&] { return mac(x); }); }
#elif MODE == 4
struct AA { Aw<SUSP> a; AA(int k, int v) : a(k, v) {} bool await_ready() { return a.await_ready(); } template<class H> auto await_suspend(H h) { return a.await_suspend(h); } Ext<SUSP> await_resume() { int v = a.await_resume(); return Ext<SUSP>(a.k + 1, v); } };
static Co nat(int x) { co_await co_await AA(0, x); ev(20); co_await co_await AA(2, x); co_return 1; }
static Co mac(int x) { MC_BEGIN(Co, x); MC_AWAIT_AWAIT(AA(0, x)); ev(20); MC_AWAIT_AWAIT(AA(2, x)); MC_RETURN(1); MC_END(); }
int main() { int x = vk_int("x"); plan_[2] = 1; planned[2] = true; compare([&] { return nat(x); }, [&] { return mac(x); }); }
#elif MODE == 5 // the result handed to a function; returned
static void f(int&& v) { ev(30); ev(v); if (v == 17) throw Ex(1); }
static Co nat(int x) { f(co_await Aw<SUSP>(0, x)); co_return co_await Ext<SUSP>(1, x + 1); }
static Co mac(int x) { MC_BEGIN(Co, x); MC_AWAIT_FN(f, Aw<SUSP>(0, x)); MC_RETURN_AWAIT(Ext<SUSP>(1, x + 1)); MC_END(); }
int main() { int x = vk_int("x"); compare([&] { return nat(x); }, [&] { return mac(x); }); }
#elif MODE == 6 // caught outcomes
static void see(result<int>& r) { if (r.has_value()) { ev(31); ev(r.value()); } else { try { std::rethrow_exception(r.error()); } catch (Ex& e) { ev(32); ev(e.v()); } vk_cover("caught"); } }
static Co nat(int x) { result<int> r; try { r = Ok(co_await Aw<SUSP>(0, x)); } catch (...) { r = Err(std::current_exception()); } see(r); try { r = Ok(co_await Ext<SUSP>(1, x + 1)); } catch (...) { r = Err(std::current_exception()); } see(r); co_return x; }
static Co mac(int x) { MC_BEGIN(Co, x, r = result<int>()); MC_AWAIT_TRY(r, Aw<SUSP>(0, x)); see(r); MC_AWAIT_TRY(r, Ext<SUSP>(1, x + 1)); see(r); MC_RETURN(x); MC_END(); }
int main() { int x = vk_int("x"); compare([&] { return nat(x); }, [&] { return mac(x); }); }
#elif MODE == 7 // awaitables of every value category, through await_transform and operator co_await
static Both<SUSP> g0{0, 10}, g1{1, 20}; static Both<SUSP>&& xval() { return std::move(g1); }
static Co nat(int x) { Both<SUSP> l{2, x}; lv.reset(new Aw<SUSP>(3, x, 2)); int a = co_await g0; a += co_await xval(); a += co_await std::move(l); ev(a); a += co_await *lv; ev(a); a += co_await Tr(4, x); co_return a; }
static Co mac(int x) { MC_BEGIN(Co, x, l = Both<SUSP>{2, x}, a = 0, b = 0); lv.reset(new Aw<SUSP>(3, x, 2)); MC_AWAIT_SET(a, g0); MC_AWAIT_SET(b, xval()); a += b; MC_AWAIT_SET(b, std::move(l)); a += b; ev(a); MC_AWAIT_SET(b, *lv); a += b; ev(a); MC_AWAIT_SET(b, Tr(4, x)); a += b; MC_RETURN(a); MC_END(); }
int main() { int x = vk_int("x"); plan_[1] = 1; planned[1] = true; plan_[0] = 0; planned[0] = true; compare([&] { return nat(x); }, [&] { return mac(x); }); lv.reset(); }
#elif MODE == 8 // beginnings and ends: the initial await suspends or not, the final one too; return, flowing off the end, exceptions
static Co nat(int x) { ev(20); if (x == 0) co_return; if (x == 1) throw Ex(5); co_await Aw<SUSP>(0, x); if (x == 2) co_return; }
static Co mac(int x) { MC_BEGIN(Co, x); ev(20); if (x == 0) { MC_RETURN_VOID(); } if (x == 1) throw Ex(5); MC_AWAIT(Aw<SUSP>(0, x)); if (x == 2) { MC_RETURN_VOID(); } MC_END(); }
int main() { int x = (int)vk_choose("x", 4); compare([&] { return nat(x); }, [&] { return mac(x); }); }
#elif MODE == 9 // chains of library tasks, each link native or macro: values and exceptions come out at the outer end; dropping the outermost destroys all
static int runs, thrAt = -1; static bool macro_[DEPTH], eager_[DEPTH]; static Gate gate;
struct Leave { int k; bool await_ready() { return true; } template<class H> void await_suspend(H) {} Mov await_resume() { if (thrAt == k) throw Ex(k); return Mov(k); } };
template<class T> T nat(int k, int v); template<class T> T mac(int k, int v);
static task<Mov> link(int k, int v) { return macro_[k] ? mac<task<Mov>>(k, v) : nat<task<Mov>>(k, v); }
template<class T> T nat(int k, int v) { Tok local(v); runs++; Mov m = co_await Leave{k}; if (k + 1 == DEPTH) { co_await gate; co_return Mov(v); } Mov r = co_await link(k + 1, v + 1); CHECK(local.get() == v && m.get() == k); if (thrAt == k + 100) throw Ex(k + 100); co_return Mov(r.get() + 1); }
template<class T> T mac(int k, int v) { MC_BEGIN(T, k, v, local = std::make_unique<Tok>(v), m = Mov(0), r = Mov(0)); runs++; MC_AWAIT_SET(m, Leave{k}); if (k + 1 == DEPTH) { MC_AWAIT(gate); MC_RETURN(Mov(v)); } MC_AWAIT_SET(r, link(k + 1, v + 1)); CHECK(local->get() == v && m.get() == k); if (thrAt == k + 100) throw Ex(k + 100); MC_RETURN(Mov(r.get() + 1)); MC_END(); }
int main() { { int v = vk_int("v"); for (int i = 0; i < DEPTH; i++) macro_[i] = vk_coin("macro"); if (vk_coin("throws")) thrAt = (int)vk_choose("at", DEPTH) + (vk_coin("later") ? 100 : 0);
    { int out = -1, got = 0; auto fin = [&](task<Mov> t) -> Fire { try { Mov m = co_await std::move(t); out = 0; got = m.get(); } catch (Ex& e) { out = 1; got = e.v(); } };
      bool drop = vk_coin("drop"); if (drop) { std::unique_ptr<blocking_task<task<Mov>>> b = std::make_unique<blocking_task<task<Mov>>>(make_blocking(link(0, v))); bool w = gate.waiting(); b.reset(); gate.h = nullptr; if (w) vk_cover("dropped"); }
      else { fin(link(0, v)); if (gate.waiting()) gate.fire(); if (thrAt >= 0 && thrAt != 100 + DEPTH - 1) { CHECKM(out == 1 && got == thrAt, "the exception comes out"); vk_cover("threw"); } else { CHECKM(out == 0 && got == v + 2 * (DEPTH - 1), "the value comes out"); vk_cover("value"); } } } }
    CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 10 // library coroutine types in macro form with every kind of result
static int x, runs; static Tok* anchor;
template<template<class> class K> struct All {
    static K<int> i(int v, bool t) { MC_BEGIN(K<int>, v, t); runs++; if (t) throw Ex(v); MC_RETURN(v); MC_END(); } static K<void> u(int v, bool t) { MC_BEGIN(K<void>, v, t); runs++; if (t) throw Ex(v); MC_RETURN_VOID(); MC_END(); }
    static K<Tok&> r(int v, bool t) { MC_BEGIN(K<Tok&>, v, t); runs++; if (t) throw Ex(v); MC_RETURN(*anchor); MC_END(); } static K<Mov> m(int v, bool t) { MC_BEGIN(K<Mov>, v, t, keep = Mov(v)); runs++; if (t) throw Ex(v); MC_RETURN(std::move(keep)); MC_END(); }
    static K<Mov> ra(int v, bool t) { MC_BEGIN(K<Mov>, v, t); MC_RETURN_AWAIT(m(v, t)); MC_END(); } static K<Tok&> rr(int v, bool t) { MC_BEGIN(K<Tok&>, v, t, p = (Tok*)nullptr); MC_AWAIT_FN([&p = p](Tok& q) { p = &q; }, r(v, t)); CHECK(p == anchor); MC_RETURN_AWAIT(r(v, t)); MC_END(); } };
template<class T> using Lazy = task<T>; template<class T> using Eager = eager_task<T>;
template<template<class> class K> void run() { int v = vk_int("v"); bool t = vk_flag("throws"), caught = false; runs = 0; int want = 1; try { switch (vk_choose("kind", 6)) {
    case 0: CHECK(sync_wait(All<K>::i(v, t)) == v); break; case 1: sync_wait(All<K>::u(v, t)); break; case 2: CHECK(&sync_wait(All<K>::r(v, t)) == anchor); break; case 3: CHECK(sync_wait(All<K>::m(v, t)).get() == v); break; case 4: CHECK(sync_wait(All<K>::ra(v, t)).get() == v); break; case 5: CHECK(&sync_wait(All<K>::rr(v, t)) == anchor); want = 2; break; } } catch (Ex& e) { caught = true; CHECK(e.v() == v); want = 1; }
    CHECK(caught == t && runs == want); vk_cover("done"); }
int main() { { Tok a(3); anchor = &a; if (vk_coin("eager")) run<Eager>(); else run<Lazy>(); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 11 // a macro coroutine suspended here and continued on other threads
static int data;
static task<Mov> inner(XGate& g, int v) { MC_BEGIN(task<Mov>, &g, v, l = std::make_unique<Tok>(v)); MC_AWAIT(g); data++; MC_RETURN(Mov(l->get() + 1)); MC_END(); }
static task<Mov> outer(XGate& g, XGate& h, int v) { MC_BEGIN(task<Mov>, &g, &h, v, m = Mov(0)); MC_AWAIT_SET(m, inner(g, v)); data++; MC_AWAIT(h); data++; MC_RETURN(Mov(m.get() + 1)); MC_END(); }
int main() { { int v = vk_int("v"); XGate g, h; VkThread a([&] { g.fire(); }); VkThread b([&] { h.fire(); }); a.start(); b.start(); Mov m = sync_wait(outer(g, h, v)); CHECK(m.get() == v + 2 && data == 3); a.join(); b.join(); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 12 // an eager macro coroutine that another thread finishes while it is awaited or dropped
static int data;
static eager_task<Mov> work(XGate& g, int v) { MC_BEGIN(eager_task<Mov>, &g, v, l = std::make_unique<Tok>(v)); MC_AWAIT(g); data = v; MC_RETURN(Mov(l->get() + 1)); MC_END(); }
static task<Mov> wait(eager_task<Mov> t) { MC_BEGIN(task<Mov>, t = std::move(t), m = Mov(0)); MC_AWAIT_SET(m, std::move(t)); MC_RETURN(std::move(m)); MC_END(); }
int main() { { int v = vk_int("v"); XGate g; VkThread a([&] { g.fire(); }); a.start(); Mov m = sync_wait(wait(work(g, v))); CHECK(m.get() == v + 1 && data == v); a.join(); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 13 // coroutines that return result<T>
static result<Tok> src(int v, bool e) { if (e) return Err(std::make_exception_ptr(Ex(v))); return Ok(Tok(v)); }
static result<Tok> nat(int v, bool e, bool t) { Tok a = co_await src(v, e); if (t) throw Ex(v + 1); co_return Ok(Tok(a.get() + 1)); }
static result<Tok> mac(int v, bool e, bool t) { MC_BEGIN(result<Tok>, v, e, t, a = Tok(0)); MC_AWAIT_SET(a, src(v, e)); if (t) throw Ex(v + 1); MC_RETURN(Ok(Tok(a.get() + 1))); MC_END(); }
static int see(result<Tok> r) { if (r.has_value()) return r.value().get(); try { std::rethrow_exception(r.error()); } catch (Ex& x) { return x.v() + 100; } }
int main() { { int v = vk_int("v"); vk_assume(v > -1000 && v < 1000); bool e = vk_coin("err"), t = vk_coin("throws"); int a = see(nat(v, e, t)), b = see(mac(v, e, t)); CHECK(a == b); CHECK(b == (e ? v + 100 : t ? v + 101 : v + 1)); vk_cover(e ? "err" : t ? "threw" : "ok"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 14 // a macro coroutine awaits what the library offers: suspended or not, and then continued with the outcome
#include <macoro/async_scope.h>
#include <macoro/when_all.h>
#include <macoro/when_all_scope.h>
#include <macoro/channel.h>
#include <macoro/manual_reset_event.h>
#include <macoro/barrier.h>
#include <macoro/stop.h>
#include <macoro/wrap.h>
static int at, got; static bool open_; static Gate gate; static int v; static bool thr;
static task<Mov> leaf() { if (!open_) co_await gate; if (thr) throw Ex(v); co_return Mov(v); }
static task<Mov> now() { co_return Mov(v); }
static eager_task<Mov> eleaf() { if (!open_) co_await gate; if (thr) throw Ex(v); co_return Mov(v); }
using W2 = decltype(when_all_ready(leaf(), leaf())); using Tup = std::remove_reference_t<decltype(std::declval<W2&>().operator co_await().await_resume())>;
using Sc = decltype(std::declval<async_scope&>().add(leaf()));
using Mp = mpsc::channel<Mov>; using MTx = mpsc::channel_sender<Mov>; using MRx = mpsc::channel_receiver<Mov>; using Sp = spsc::channel<Mov>; using STx = spsc::channel_sender<Mov>; using SRx = spsc::channel_receiver<Mov>;
static task<> join(async_scope& s) { MC_BEGIN(task<>, &s); at = 1; MC_AWAIT(s.join()); at = 2; MC_RETURN_VOID(); MC_END(); }
static task<> child(async_scope& s, bool lv) { MC_BEGIN(task<>, &s, lv, t = Sc(s.add(leaf())), r = Mov(0)); at = 1; if (lv) { MC_AWAIT_SET(r, std::move(t)); } else { MC_AWAIT_FN([&r = r](Mov&& m) { r = std::move(m); }, std::move(t)); } at = 2; got = r.get(); MC_RETURN_VOID(); MC_END(); }
static task<> all(W2& w, bool lv) { MC_BEGIN(task<>, &w, lv, p = (Tup*)nullptr, q = std::optional<Tup>()); at = 1; if (lv) MC_AWAIT_FN([&p = p](Tup& t) { p = &t; }, w); else MC_AWAIT_FN([&q = q](auto&& t) { q.emplace(std::move(t)); }, std::move(w)); at = 2; { Tup& t = p ? *p : *q; got = std::get<0>(t).result().get() + std::get<1>(t).result().get() - v; } MC_RETURN_VOID(); MC_END(); }
static task<> every(bool lv, std::vector<task<Mov>> x) { using WV = decltype(when_all_ready(std::move(x))); MC_BEGIN(task<>, lv, w = WV(when_all_ready(std::move(x)))); at = 1; if (lv) MC_AWAIT_FN([](auto& t) { got = t[0].result().get() + t[1].result().get() - v; }, w); else MC_AWAIT_FN([](auto&& t) { got = t[0].result().get() + t[1].result().get() - v; }, std::move(w)); at = 2; MC_RETURN_VOID(); MC_END(); }
template<class Tx, class Rx> task<> send(Tx& tx, int how) { MC_BEGIN(task<>, &tx, how, w = typename Tx::push_wrapper()); at = 1; if (how == 0) { MC_AWAIT_SET(w, tx.push()); w = Mov(v); w.publish(); } else MC_AWAIT(tx.close()); at = 2; MC_RETURN_VOID(); MC_END(); }
template<class Ch> task<> put(Ch& c) { MC_BEGIN(task<>, &c); at = 1; MC_AWAIT(c.push(Mov(v))); at = 2; MC_RETURN_VOID(); MC_END(); }
template<class Ch, class Rx> task<> recv(Rx& rx, int how) { MC_BEGIN(task<>, &rx, how, w = typename Ch::pop_wrapper()); at = 1; if (how == 0) { MC_AWAIT_SET(w, rx.pop()); got = w->get(); } else MC_AWAIT_FN([](Mov& m) { got = m.get(); }, rx.front()); at = 2; MC_RETURN_VOID(); MC_END(); }
template<class A> task<> plain(A& a) { MC_BEGIN(task<>, &a); at = 1; MC_AWAIT(a); at = 2; MC_RETURN_VOID(); MC_END(); }
static task<> wrapped(bool pipe) { MC_BEGIN(task<>, pipe, r = result<Mov>()); at = 1; if (pipe) { MC_AWAIT_SET(r, leaf() | wrap()); } else MC_AWAIT_SET(r, wrap(leaf())); at = 2; got = r.value().get(); MC_RETURN_VOID(); MC_END(); }
static task<> lazy(bool lv) { MC_BEGIN(task<>, lv, t = leaf(), r = Mov(0)); at = 1; if (lv) MC_AWAIT_FN([](Mov& m) { got = m.get(); }, t); else { MC_AWAIT_SET(r, std::move(t)); got = r.get(); } at = 2; MC_RETURN_VOID(); MC_END(); }
static task<> eager(bool lv) { MC_BEGIN(task<>, lv, t = eleaf(), r = Mov(0)); at = 1; if (lv) MC_AWAIT_FN([](Mov& m) { got = m.get(); }, t); else { MC_AWAIT_SET(r, std::move(t)); got = r.get(); } at = 2; MC_RETURN_VOID(); MC_END(); }
static task<> ready(bool lv) { MC_BEGIN(task<>, lv, t = leaf()); at = 1; MC_AWAIT(t.when_ready()); at = 2; CHECK(t.is_ready()); got = v; MC_RETURN_VOID(); MC_END(); }
static task<> scoped(bool lv) { MC_BEGIN(task<>, lv, s = Mov(0)); at = 1; MC_AWAIT([]() -> when_all_scope { auto t = co_await macoro::scoped(leaf()); got = (co_await std::move(t)).get(); }()); at = 2; MC_RETURN_VOID(); MC_END(); }
static bool ended, caught;
static Fire run(task<> t) { try { co_await std::move(t); } catch (Ex& e) { caught = true; CHECK(e.v() == v); } catch (async_scope_exception&) { caught = true; } ended = true; }
static void expect(bool throws) { CHECK(at == 1 || at == 2); if (open_) { CHECKM(ended, "the awaited operation was complete"); vk_cover("ready"); } else { CHECKM(at == 1 && !ended, "continued before the operation was complete"); vk_cover("suspended"); } (void)throws; }
static void done(bool throws) { CHECKM(ended && caught == throws && at == (throws ? 1 : 2), "the coroutine continues with the outcome"); if (throws) vk_cover("threw"); else CHECK(got == v); }
template<class Ch, class Tx, class Rx, class P> void chan(P p) { Tx& tx = p.first; Rx& rx = p.second; auto feed = [&]() -> Fire { auto w = co_await tx.push(); w = Mov(v); }; auto eat = [&]() -> Fire { auto w = co_await rx.pop(); got = w->get(); };
    if (vk_coin("receiver")) { if (open_) feed(); run(recv<Ch>(rx, (int)vk_choose("how", 2))); expect(false); if (!open_) feed(); done(false); }
    else { if (!open_) feed(); run(send<Tx, Rx>(tx, 0)); expect(false); if (!open_) eat(); got = v; done(false); got = 0; eat(); CHECK(got == v); } }
template<class Ch> void direct() { Ch c(1); auto feed = [&]() -> Fire { co_await c.push(Mov(v)); }; auto eat = [&]() -> Fire { auto w = co_await c.pop(); got = w->get(); }; if (!open_) feed(); run(put(c)); expect(false); if (!open_) eat(); got = v; done(false); got = 0; eat(); CHECK(got == v); }
int main() { { v = vk_int("v"); open_ = vk_coin("complete already"); bool lv = vk_coin("lvalue"); unsigned what = vk_choose("what", 17); thr = (what <= 1 || (what >= 7 && what <= 13)) && what != 10 && vk_coin("throws");
    switch (what) {
    case 0: { async_scope s; { auto t = s.add(leaf()); } run(join(s)); expect(thr); if (!open_) gate.fire(); got = v; done(thr); break; }
    case 1: { async_scope s; run(child(s, lv)); expect(thr); if (!open_) gate.fire(); done(thr); thr = false; sync_wait(s.join()); break; }
    case 2: { auto w = when_all_ready(leaf(), now()); run(all(w, lv)); expect(false); if (!open_) gate.fire(); done(false); break; }
    case 3: { std::vector<task<Mov>> x; x.push_back(now()); x.push_back(leaf()); run(every(lv, std::move(x))); expect(false); if (!open_) gate.fire(); done(false); break; }
    case 4: if (lv) chan<Mp, MTx, MRx>(mpsc::make_channel<Mov>(1)); else chan<Sp, STx, SRx>(spsc::make_channel<Mov>(1)); break;
    case 5: if (lv) direct<Mp>(); else direct<Sp>(); break;
    case 6: { async_manual_reset_event e(open_); run(plain(e)); expect(false); if (!open_) e.set(); got = v; done(false); break; }
    case 7: { run(lazy(lv)); expect(thr); if (!open_) gate.fire(); done(thr); break; }
    case 8: { run(eager(lv)); expect(thr); if (!open_) gate.fire(); done(thr); break; }
    case 9: { run(wrapped(lv)); expect(thr); if (!open_) gate.fire(); if (thr) { CHECK(ended && caught && at == 2); vk_cover("threw"); } else done(false); break; }
    case 10: { run(ready(lv)); expect(false); if (!open_) gate.fire(); done(false); break; }
    case 11: { run(scoped(lv)); expect(thr); if (!open_) gate.fire(); if (!thr) done(false); else CHECK(ended); break; }
    case 12: case 13: { barrier b; if (!open_) b.increment(); run(plain(b)); thr = false; expect(false); if (!open_) b.decrement(); got = v; done(false); break; }
    case 14: { stop_source s; if (open_) s.request_stop(); auto t = s.get_token(); run(plain(t)); expect(false); if (!open_) s.request_stop(); got = v; done(false); break; }
    case 15: { auto [tx, rx] = mpsc::make_channel<Mov>(1); open_ = true; run(send<MTx, MRx>(tx, 1)); expect(false); got = v; done(false); break; }
    case 16: { auto [tx, rx] = spsc::make_channel<Mov>(1); open_ = true; run(send<STx, SRx>(tx, 1)); expect(false); got = v; done(false); break; }
    } } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#endif
