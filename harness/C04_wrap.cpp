//@ run quick tasks -DMODE=1 covers:value,error,suspended
//@ run quick awaiters -DMODE=2 covers:value,error
//@ run quick throws -DMODE=6 covers:ready,suspend,resume,none,macro
//@ run quick cross -DMODE=3 covers:value,error
//@ run quick twice -DMODE=4 covers:done
//@ run quick drop -DMODE=5 covers:done
//@ run quick cross-weak -DMODE=3 --weak covers:value,error
#include "hx.h"
#include <macoro/result.h>
#include <macoro/task.h>
#include <macoro/wrap.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static int cell, ran; static Gate gate; static bool susp;
task<Tok> tTok(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); co_return Tok(v); }
task<int> tInt(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); co_return v; }
task<int&> tRef(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); cell = v; co_return cell; }
task<void> tVoid(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); cell = v; }
task<Mov> tMov(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); co_return Mov(v); }
eager_task<int> eInt(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); co_return v; }
task<result<int>> tRes(int v, bool th) { Tok l(v); ran++; if (susp) co_await gate; if (th) throw Ex(v); co_return Ok(v); }
static int errOf(const std::exception_ptr& e) { try { std::rethrow_exception(e); } catch (Ex& x) { return x.v(); } }
static int resumed, gotV; static bool gotE;
template<class R> void take(R&& r, bool) { resumed++; gotE = r.has_error(); if (gotE) gotV = errOf(r.error()); }
template<class R> int asInt(R& r) { if (r.has_error()) { gotE = true; return errOf(r.error()); } gotE = false; using V = typename std::remove_cvref_t<R>::value_type; if constexpr (std::is_void_v<V>) { r.value(); return cell; } else if constexpr (requires { r.value().get(); }) return r.value().get(); else if constexpr (requires { r.value().value(); }) return r.value().value(); else return r.value(); }
#if MODE == 1
template<class F> Fire useRv(F f, int v, bool th, bool pipe) { if (pipe) { auto r = co_await (f(v, th) | wrap()); gotV = asInt(r); } else { auto r = co_await wrap(f(v, th)); gotV = asInt(r); } resumed++; }
template<class F> Fire useLv(F f, int v, bool th, bool pipe) { auto t = f(v, th); if (pipe) { auto r = co_await (t | wrap()); gotV = asInt(r); } else { auto r = co_await wrap(t); gotV = asInt(r); } resumed++; }
template<class F> Fire useMv(F f, int v, bool th, bool pipe) { auto t = f(v, th); auto w = wrap(std::move(t)); auto r = co_await std::move(w); gotV = asInt(r); resumed++; }
int main() {
    int v = vk_int("v"); bool th = vk_flag("throw"), pipe = vk_flag("pipe"); susp = vk_flag("susp"); unsigned how = vk_choose("how", 3);
#define USE(f) if (how == 0) useRv(f, v, th, pipe); else if (how == 1) useLv(f, v, th, pipe); else useMv(f, v, th, pipe);
#define USE2(f) if (how == 0) useRv(f, v, th, pipe); else useMv(f, v, th, pipe);
    switch (vk_choose("kind", 7)) { case 0: USE(tTok); break; case 1: USE(tInt); break; case 2: USE(tRef); break; case 3: USE(tVoid); break; case 4: USE2(tMov); break; case 5: USE(eInt); break; case 6: USE(tRes); break; }
    CHECK(ran == 1); if (susp) { CHECK(resumed == 0); gate.fire(); vk_cover("suspended"); }
    CHECK(resumed == 1 && ran == 1); CHECK(gotE == th); CHECK(gotV == v); CHECK(Tok::live == 0); vk_cover(th ? "error" : "value");
}
#elif MODE == 2   // hand-written awaiters of every shape: each step exactly once and in order
static int nReady, nSusp, nResume; static bool rdy, thr; static int val, sk;
template<int SK> struct A { Tok t; A(int v) : t(v) {} A(const A& o) : t(o.t) { vk_fail("the awaiter is copied"); }
    bool await_ready() { nReady++; CHECK(nReady == 1 && t.get() == val); if (thr && sk == 1) throw Ex(val + 1); return rdy; }
    auto await_suspend(std::coroutine_handle<> h) { nSusp++; CHECK(nSusp == 1 && nReady == 1 && t.get() == val); if constexpr (SK == 0) { gate.h = h; } else if constexpr (SK == 1) return false; else return h; }
    Tok await_resume() { nResume++; CHECK(nResume == 1 && nReady == 1 && nSusp == (rdy ? 0 : 1)); if (thr) throw Ex(t.get()); return Tok(t.get()); } };
template<int SK> struct W { int v; W(int x) : v(x) {} W(W&&) = default; A<SK> operator co_await() && { return A<SK>(v); } };
template<int SK> struct Wl { A<SK> a; Wl(int x) : a(x) {} Wl(const Wl& o) : a(o.a) { vk_fail("an awaited lvalue is copied"); } A<SK>& operator co_await() & { return a; } };
template<int SK> Fire go(bool lv) { if (lv) { Wl<SK> w(val); result<Tok> r = co_await (w | wrap()); gotV = asInt(r); } else { result<Tok> r = co_await wrap(W<SK>(val)); gotV = asInt(r); } resumed++; }
struct Fr { int v; }; struct FrA { int v; bool await_ready() { nReady++; return rdy; } void await_suspend(std::coroutine_handle<> h) { nSusp++; gate.h = h; } int await_resume() { nResume++; if (thr) throw Ex(v); return v; } };
FrA operator co_await(Fr f) { return FrA{f.v}; }
Fire goFr() { result<int> r = co_await wrap(Fr{val}); gotV = asInt(r); resumed++; }
Fire goDirect() { result<int> r = co_await wrap(FrA{val}); gotV = asInt(r); resumed++; }
int main() {
    val = vk_int("v"); rdy = vk_flag("ready"); thr = vk_flag("throw"); bool lv = vk_flag("lv"); unsigned k = vk_choose("kind", 5);
    switch (k) { case 0: go<0>(lv); break; case 1: go<1>(lv); break; case 2: go<2>(lv); break; case 3: goFr(); break; case 4: goDirect(); break; }
    bool stays = !rdy && (k == 0 || k >= 3); CHECK(resumed == !stays); if (stays) gate.fire();
    CHECK(resumed == 1 && nReady == 1 && nSusp == !rdy && nResume == 1); CHECK(gotE == thr && gotV == val); CHECK(Tok::live == 0); vk_cover(thr ? "error" : "value");
}
#elif MODE == 3   // the wrapped task ends on another thread
static XGate xg; static int written;
task<Tok> xt(int v, bool th) { Tok l(v); co_await xg; written = v; if (th) throw Ex(v); co_return Tok(v); }
int main() {
    int v = vk_int("v"); bool th = vk_flag("throw"); VkThread t([] { xg.fire(); }); t.start();
    { auto r = sync_wait(wrap(xt(v, th))); gotV = asInt(r); CHECK(written == v); } CHECK(gotE == th && gotV == v); t.join(); CHECK(Tok::live == 0); vk_cover(th ? "error" : "value");
}
#elif MODE == 4   // awaiting an lvalue leaves its own result as it is; wrapping may be nested
Fire twice(int v, bool th) { auto t = tTok(v, th); { auto r = co_await wrap(t); CHECK(asInt(r) == v && gotE == th); } auto r2 = co_await wrap(t); CHECK(asInt(r2) == v && gotE == th); 
    bool e = false; int g; try { g = (co_await t).get(); } catch (Ex& x) { e = true; g = x.v(); } CHECK(e == th && g == v); resumed++; }
Fire nested(int v, bool th) { auto rr = co_await wrap(wrap(tInt(v, th))); CHECK(rr.has_value()); auto& r = rr.value(); CHECK(asInt(r) == v && gotE == th); resumed++; }
Fire ofres(int v, bool th) { result<int> q; if (th) q = macoro::Err(std::make_exception_ptr(Ex(v))); else q = Ok(v); auto r = co_await wrap(q); CHECK(asInt(r) == v && gotE == th); 
    auto r2 = co_await (std::move(q) | wrap()); CHECK(asInt(r2) == v && gotE == th); resumed++; }
int main() { int v = vk_int("v"); bool th = vk_flag("throw"); unsigned k = vk_choose("k", 3); if (k == 0) { twice(v, th); CHECK(ran == 1); } else if (k == 1) { nested(v, th); CHECK(ran == 1); } else ofres(v, th); CHECK(resumed == 1); CHECK(Tok::live == 0); vk_cover("done"); }
#elif MODE == 6   // whichever step of the await throws, the exception is in the result; no step after it runs
#include <macoro/macros.h>
static int step, val, nReady, nSusp, nResume, how; static std::coroutine_handle<> held;
template<int K> struct Aw { Tok t; Aw(int v) : t(v) {} Aw(Aw&&) = default;
    bool await_ready() { nReady++; if (step == 1) throw Ex(t.get()); return how == 1; }
    void sus() { nSusp++; CHECK(nReady == 1 && how != 1); if (step == 2) throw Ex(t.get()); }
    auto await_suspend(std::coroutine_handle<> h) requires (K < 3) { sus(); if constexpr (K == 0) { held = h; return; } else if constexpr (K == 1) { if (how == 2) held = h; return how == 2; } else { if (how == 2) { held = h; return (std::coroutine_handle<>)std::noop_coroutine(); } return h; } }
    auto await_suspend(coroutine_handle<> h) requires (K < 3) { return await_suspend(h.std_cast()); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) requires (K == 3) { return await_suspend(coroutine_handle<>(h)).std_cast(); }
    coroutine_handle<> await_suspend(coroutine_handle<> h) requires (K == 3) { sus(); if (how == 2) { held = h.std_cast(); return noop_coroutine(); } return h; }
    Tok await_resume() { nResume++; CHECK(nReady == 1 && (how == 1 || nSusp == 1)); if (step == 3) throw Ex(t.get()); return Tok(t.get()); } };
template<int K> Fire native(bool lv) { if (lv) { Aw<K> a(val); result<Tok> r = co_await wrap(a); gotV = asInt(r); } else { result<Tok> r = co_await (Aw<K>(val) | wrap()); gotV = asInt(r); } resumed++; }
template<int K> task<void> macrot(bool) { MC_BEGIN(task<void>, r = result<Tok>(), w = wrap(Aw<K>(val))); MC_AWAIT_SET(r, std::move(w)); gotV = asInt(r); resumed++; MC_END(); }
template<int K> Fire viaMacro() { co_await macrot<K>(false); }
template<int K> void go(unsigned form) { if (form < 2) native<K>(form); else { viaMacro<K>(); vk_cover("macro"); } }
int main() {
    val = vk_int("v"); step = (int)vk_choose("throws", 4); how = (int)vk_choose("how", 3); unsigned form = vk_choose("form", 3), k = vk_choose("kind", 4);
    switch (k) { case 0: if (how == 0) how = 2; go<0>(form); break; case 1: go<1>(form); break; case 2: go<2>(form); break; case 3: go<3>(form); break; }
    bool early = step == 1 || (step == 2 && how != 1), stays = !early && how == 2; CHECK(resumed == !stays); if (stays) { CHECK((bool)held); held.resume(); } else CHECK(!held);
    CHECK(resumed == 1 && nReady == 1 && nSusp == (step != 1 && how != 1) && nResume == !early); bool e = early || step == 3; CHECK(gotE == e && gotV == val); CHECK(Tok::live == 0); vk_cover(early ? (step == 1 ? "ready" : "suspend") : e ? "resume" : "none");
}
#else             // never awaited: nothing runs, everything is released
int main() { int v = vk_int("v"); bool th = vk_flag("throw"); { auto w = wrap(tTok(v, th)); auto w2 = std::move(w); if (vk_flag("await")) { auto r = sync_wait(std::move(w2)); CHECK(asInt(r) == v && gotE == th && ran == 1); } else CHECK(ran == 0); } CHECK(Tok::live == 0); vk_cover("done"); }
#endif
