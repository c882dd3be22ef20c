//@ run quick lvalues -DMODE=1 covers:value,error,stays,macro
//@ run quick rvalues -DMODE=2 covers:value,error,stays,macro
//@ run quick traits -DMODE=3 covers:done
//@ run quick threads -DMODE=4 covers:value,error
//@ run quick threads-weak -DMODE=4 --weak --preempt 3 covers:value,error
//@ run quick threads-weak-p -DMODE=4 --weak --preempt 4 covers:value,error
#include "hx.h"
#include <vector>
#include <macoro/type_traits.h>
#include <macoro/task.h>
#include <macoro/wrap.h>
#include <macoro/when_all.h>
#include <macoro/start_on.h>
#include <macoro/inline_scheduler.h>
#include <macoro/async_scope.h>
#include <macoro/when_all_scope.h>
#include <macoro/take_until.h>
#include <macoro/sync_wait.h>
#include <macoro/macros.h>
using namespace macoro;
// one await of one object: what happened to it
static int nLook, nReady, nSusp, nResume, val, step, how; static bool wasRv; static const void* where; static std::coroutine_handle<> held;
#if MODE == 4
static XGate xg;
#endif
// the awaiter: ready at once (how 1), continues at once (0) or stays (2); throws at a step
template<int K> struct Aw {
    Tok t; explicit Aw(int v) : t(v) {} Aw(Aw&&) = default; Aw(const Aw& o) : t(o.t) { vk_fail("the awaiter is copied"); }
    bool await_ready() { nReady++; CHECKM(nReady == 1, "asked once whether it is ready"); CHECK(t.get() == val); if (step == 1) throw Ex(val); return how == 1; }
    void enter() { nSusp++; CHECKM(nSusp == 1 && nReady == 1 && how != 1, "suspended once, and only when not ready"); CHECK(t.get() == val); if (step == 2) throw Ex(val); }
    void keep(std::coroutine_handle<> h) {
#if MODE == 4
        xg.await_suspend(h);
#else
        held = h;
#endif
    }
    auto await_suspend(std::coroutine_handle<> h) { enter(); if constexpr (K == 0) keep(h); else if constexpr (K == 1) { bool s = how == 2; if (s) keep(h); return s; } else { if (how == 2) { keep(h); return std::coroutine_handle<>(std::noop_coroutine()); } return h; } }
    auto await_suspend(coroutine_handle<> h) { return await_suspend(h.std_cast()); }
    Tok await_resume() { nResume++; CHECKM(nResume == 1 && nReady == 1 && (how == 1 || nSusp == 1), "resumed once, last"); int v = t.get(); if (step == 3) throw Ex(v); return Tok(v + wasRv); }
};
static void look(const void* o, bool rv) { nLook++; CHECKM(nLook == 1, "looked up once"); wasRv = rv; where = o; }
template<int K> struct Mem { int v; explicit Mem(int x) : v(x) {} Mem(Mem&& o) : v(std::exchange(o.v, -1)) {} Mem(const Mem& o) : v(o.v) { vk_fail("the awaitable is copied"); } auto operator co_await() & { look(this, false); return Aw<K>(v); } auto operator co_await() && { look(this, true); return Aw<K>(v); } };   // its own operator, told apart by category
template<int K> struct Free { int v; explicit Free(int x) : v(x) {} Free(Free&& o) : v(std::exchange(o.v, -1)) {} Free(const Free& o) : v(o.v) { vk_fail("the awaitable is copied"); } };
template<int K> auto operator co_await(Free<K>& f) { look(&f, false); return Aw<K>(f.v); } template<int K> auto operator co_await(Free<K>&& f) { look(&f, true); return Aw<K>(f.v); }
template<int K> struct Inner { Aw<K> a; explicit Inner(int x) : a(x) {} Inner(Inner&&) = default; Aw<K>& operator co_await() & { look(this, false); return a; } Aw<K>&& operator co_await() && { look(this, true); return std::move(a); } };   // a reference to an awaiter inside
struct until { bool stop = false; bool await_ready() { CHECKM(stop, "asked to stop first"); return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} void await_resume() {} void request_stop() { stop = true; } };
static int resumed, got; static bool threw; 
static void out(int v, bool e) { resumed++; got = v; threw = e; }
#define OUT(...) try { Tok out_ = __VA_ARGS__; out(out_.get(), false); } catch (Ex& e) { out(e.v(), true); }
#define GIVE(x) static_cast<X>(x)
template<class X> task<Tok> viaMacro(std::remove_reference_t<X>* p) { MC_BEGIN(task<Tok>, p); MC_RETURN_AWAIT(static_cast<X>(*p)); MC_END(); }
template<class X> task<Tok> viaMacroSet(std::remove_reference_t<X>* p) { MC_BEGIN(task<Tok>, p, r = std::unique_ptr<Tok>(), q = Tok(0)); MC_AWAIT_SET(q, static_cast<X>(*p)); MC_RETURN(std::move(q)); MC_END(); }
template<class X> when_all_scope viaScope(std::remove_reference_t<X>* p) { auto s = co_await scoped(static_cast<X>(*p)); OUT(co_await std::move(s)) }
template<class X> static Tok fromRes(result<Tok>& r) { if (r.has_error()) std::rethrow_exception(r.error()); return std::move(r.value()); }
template<class X> Fire consume(unsigned c, std::remove_reference_t<X>* p) {
    X x = static_cast<X>(*p); inline_scheduler is;
    switch (c) {
    case 0: OUT(co_await GIVE(x)) break;
    case 1: OUT(co_await viaMacro<X>(p)) vk_cover("macro"); break;
    case 2: OUT(co_await viaMacroSet<X>(p)) break;
    case 3: { auto r = co_await wrap(GIVE(x)); OUT(fromRes<X>(r)) } break;
    case 4: { auto r = co_await when_all_ready(GIVE(x)); OUT(std::get<0>(r).result()) } break;
    case 5: { auto f = []() -> task<int> { co_return 3; }; auto r = co_await when_all_ready(f(), GIVE(x)); OUT(std::move(std::get<1>(r)).result()) } break;
    case 6: OUT(co_await start_on(is, GIVE(x))) break;
    case 7: OUT(co_await (GIVE(x) | start_on(is))) break;
    case 8: { async_scope s; auto t = s.add(GIVE(x)); OUT(co_await std::move(t)) co_await s; } break;
    case 9: co_await viaScope<X>(p); break;
    case 10: if constexpr (std::is_rvalue_reference_v<X>) OUT(co_await take_until(GIVE(x), until{})) else OUT(co_await GIVE(x)) break;
    case 11: if constexpr (std::is_rvalue_reference_v<X>) { std::vector<std::remove_reference_t<X>> v; v.push_back(GIVE(x)); auto r = co_await when_all_ready(std::move(v)); OUT(r[0].result()) } else OUT(co_await GIVE(x)) break;
    case 12: if (how == 2) { OUT(co_await GIVE(x)) break; } OUT(sync_wait(GIVE(x))) break;
    case 13: { auto r = co_await (GIVE(x) | wrap()); OUT(fromRes<X>(r)) } break;
    case 14: if (how == 2) { OUT(co_await GIVE(x)) break; } OUT((GIVE(x) | sync_wait())) break;
    }
}
constexpr unsigned CONS = 15;
template<class T> constexpr int looks = 1; template<int K> constexpr int looks<Aw<K>> = 0;
template<class T> void go(unsigned c) { { T t(val);
#if MODE == 1
    consume<T&>(c, &t);
#else
    consume<T&&>(c, &t);
#endif
    bool early = step == 1 || (step == 2 && how != 1), stays = !early && how == 2; CHECKM(resumed == !stays, "the consumer goes on at the end of the await and not before"); if (stays) { vk_cover("stays"); CHECK(held && nResume == 0); held.resume(); } else CHECK(!held);
    CHECK(resumed == 1 && nReady == 1 && nSusp == (step != 1 && how != 1) && nResume == !early); bool e = early || step == 3; CHECKM(threw == e, "an exception iff one was thrown"); CHECKM(got == val + (!e && wasRv), "the exact outcome"); CHECKM(nLook == looks<T>, "its own operator is used");
#if MODE == 1
    CHECKM(!wasRv && (!nLook || where == &t), "an lvalue is awaited in place, as an lvalue");
#else
    CHECKM(!nLook || wasRv, "an rvalue is awaited as one");
#endif
    vk_cover(e ? "error" : "value"); } CHECK(Tok::live == 0); }
template<int K> void shape(unsigned s, unsigned c) { switch (s) { case 0: go<Mem<K>>(c); break; case 1: go<Free<K>>(c); break; case 2: go<Inner<K>>(c); break; case 3: go<Aw<K>>(c); break; } }
#if MODE < 3
int main() {
    val = vk_int("v"); vk_assume(val >= 0 && val < 1000); step = (int)vk_choose("throws", 4); how = (int)vk_choose("how", 3); unsigned s = vk_choose("shape", 4), c = vk_choose("consumer", CONS);
    switch (vk_choose("kind", 3)) { case 0: if (how == 0) how = 2; shape<0>(s, c); break; case 1: shape<1>(s, c); break; case 2: shape<2>(s, c); break; }
}
#elif MODE == 3   // what counts as awaitable, and what it yields
struct No {}; struct Half { bool await_ready(); };
static_assert(is_awaitable_v<Mem<0>> && is_awaitable_v<Mem<0>&> && is_awaitable_v<Free<0>> && is_awaitable_v<Free<1>&> && is_awaitable_v<Aw<2>>);
static_assert(std::is_same_v<awaitable_result_t<Mem<0>>, Tok> && std::is_same_v<awaitable_result_t<Free<0>&>, Tok> && std::is_same_v<awaitable_result_t<Inner<0>>, Tok> && std::is_same_v<awaitable_result_t<Aw<0>&>, Tok>);
static_assert(std::is_same_v<awaitable_traits<Inner<0>&>::awaiter, Aw<0>&> && std::is_same_v<awaitable_traits<Inner<0>>::awaiter, Aw<0>&&> && std::is_same_v<awaitable_traits<Aw<0>&>::awaiter, Aw<0>&>);
static_assert(std::is_same_v<awaitable_result_t<task<int&>>, int&> && std::is_same_v<awaitable_result_t<task<void>>, void> && std::is_same_v<awaitable_result_t<task<int>&>, int&>);
int main() { val = 5; Inner<0> i(5); auto& a = get_awaiter(i); CHECK(&a == &i.a && nLook == 1 && !wasRv); nLook = 0; auto&& b = get_awaiter(std::move(i)); CHECK(&b == &i.a && wasRv); Aw<0> d(5); CHECK(&get_awaiter(d) == &d); vk_cover("done"); }
#else             // resumed by another thread
int main() {
    val = vk_int("v"); vk_assume(val >= 0 && val < 1000); step = vk_coin("throws") ? 3 : 0; how = 2; { unsigned c = vk_choose("consumer", CONS - 1); VkThread t([] { xg.fire(); }); t.start(); bool rv = vk_coin("rv"); Mem<1> m(val);
    if (c == 12 || c == 13) { how = 2; try { Tok r = c == 12 ? sync_wait(std::move(m)) : make_blocking(std::move(m)).get(); out(r.get() - 1, false); } catch (Ex& e) { out(e.v(), true); } }
    else if (rv) consume<Mem<1>&&>(c, &m); else consume<Mem<1>&>(c, &m);
    t.join(); CHECK(resumed == 1 && nLook == 1 && nResume == 1); CHECK(threw == (step == 3) && got == val + (c < 12 && wasRv && !threw)); } CHECK(Tok::live == 0); vk_cover(threw ? "error" : "value");
}
#endif
