//@ run quick native -DMODE=1 -DMACRO=0 -DN=5 covers:done,destroyed,steps
//@ run quick macro -DMODE=1 -DMACRO=1 -DN=5 covers:done,destroyed,steps
//@ run quick noop -DMODE=2 -DN=3 covers:typed,untyped,native
//@ run quick null -DMODE=3 covers:done
//@ run quick promise -DMODE=4 -DN=4 covers:native,macro
//@ run quick order -DMODE=5 covers:done
//@ run quick selfdestroy -DMODE=6 covers:native,macro
//@ run quick own-promise -DMODE=7 covers:native,macro
//@ run quick native8 -DMODE=1 -DMACRO=0 -DN=8 covers:done,destroyed,steps
//@ run quick macro8 -DMODE=1 -DMACRO=1 -DN=8 covers:done,destroyed,steps
//@ run quick noop5 -DMODE=2 -DN=5 covers:typed,untyped,native
//@ run quick promise6 -DMODE=4 -DN=6 covers:native,macro
//@ run thorough native8-l -DMODE=1 -DMACRO=0 -DN=9 covers:done,destroyed,steps
//@ run thorough macro8-l -DMODE=1 -DMACRO=1 -DN=9 covers:done,destroyed,steps
//@ run quick promise6-l -DMODE=4 -DN=7 covers:native,macro
#include "hx.h"
#include <macoro/task.h>
#include <macoro/macros.h>
using namespace macoro;
// a coroutine in native or macro form whose frame only its handles own
template<size_t AL, size_t SZ> struct Co { struct alignas(AL) promise_type { unsigned char pad[SZ]; uint32_t magic = 0x7A11; int n = 0; Tok life{5};
        promise_type() { for (auto& c : pad) c = 0x5A; } ~promise_type() { CHECK(magic == 0x7A11); magic = 0; }
        void intact() { CHECKM(magic == 0x7A11 && pad[0] == 0x5A && pad[SZ - 1] == 0x5A, "the promise the coroutine was made with"); CHECKM((uintptr_t)this % (AL < 16 ? AL : 16) == 0, "and aligned"); }
        Co get_return_object() { return {coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std), this}; } Co macoro_get_return_object() { return {coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro), this}; }
        std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vk_fail("exception"); } };
    coroutine_handle<promise_type> h; promise_type* p; };
struct Note { int* at; int v; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<>) { *at = v; } void await_resume() {} };
struct HereM { int* at; int v; bool await_ready() { return false; } void await_suspend(coroutine_handle<>) { *at = v; } void await_suspend(std::coroutine_handle<>) { *at = v; } void await_resume() {} };
template<class C> C nat(int& at) { Tok local(1); co_await Note{&at, 1}; CHECK(local.get() == 1); co_await HereM{&at, 2}; at = 3; }
template<class C> C mac(int& at) { MC_BEGIN(C, &at, local = Tok(1)); MC_AWAIT((Note{&at, 1})); CHECK(local.get() == 1); MC_AWAIT((HereM{&at, 2})); at = 3; MC_RETURN_VOID(); MC_END(); }
template<class C> C make(bool macro, int& at) { if (macro) return mac<C>(at); return nat<C>(at); }
#if MODE == 1   // any conversions between any operations: it stays the same coroutine
#ifndef MACRO
#define MACRO 0
#endif
template<class C> void run() { using P = typename C::promise_type; int at = 0; C c = make<C>(MACRO, at); int step = 0; c.p->intact();
    coroutine_handle<P> typed = c.h; coroutine_handle<> un = typed; std::coroutine_handle<> st = typed.std_cast(); bool viaStd = false;   // forms at hand
    for (int i = 0; i < N; i++) { int op = (int)vk_choose("op", 9);
        switch (op) {
        case 0: un = typed; break;
        case 1: typed = coroutine_handle<P>::from_address(viaStd ? c.h.address() : un.address()); break;
        case 2: un = coroutine_handle<>::from_address(typed.address()); viaStd = false; break;
        case 3: st = (vk_coin("of-typed") ? typed.std_cast() : un.std_cast()); break;
        case 4: un = coroutine_handle<>(st); viaStd = MACRO; break;
        case 5: typed = coroutine_handle<P>::from_promise(typed.promise(), MACRO ? coroutine_handle_type::macoro : coroutine_handle_type::std); break;
        case 6: st = static_cast<std::coroutine_handle<>>(typed); if (!MACRO) { typed = coroutine_handle<P>(std::coroutine_handle<P>::from_address(st.address())); un = coroutine_handle<>(std::coroutine_handle<P>::from_address(st.address())); } break;
        case 7: if (step < 3) { switch (vk_choose("via", 5)) { case 0: typed.resume(); break; case 1: un.resume(); break; case 2: st.resume(); break; case 3: un(); break; case 4: typed(); break; } step++; vk_cover("steps"); } break;
        case 8: switch (vk_choose("via", 3)) { case 0: typed.destroy(); break; case 1: un.destroy(); break; case 2: st.destroy(); break; } CHECKM(Tok::live == 0, "destroying destroys it"); vk_cover(step == 3 ? "done" : "destroyed"); return; }
        if (op == 0) viaStd = false;
        CHECKM(at == step, "resume continues it, and nothing else does"); CHECKM(typed.done() == (step == 3) && un.done() == (step == 3) && st.done() == (step == 3), "every form agrees whether it is done");
        CHECKM(&typed.promise() == c.p, "the same promise"); c.p->intact(); CHECK(typed && un && st); CHECKM(typed == c.h && !(typed != c.h), "the same handle"); if (!viaStd) CHECKM(un == c.h, "the same handle"); CHECKM(un.is_std() == (!MACRO || viaStd), "native or macro"); vk_merge(); }
    switch (vk_choose("via", 3)) { case 0: typed.destroy(); break; case 1: un.destroy(); break; case 2: st.destroy(); break; } }
int main() { { switch (vk_choose("promise", 3)) { case 0: run<Co<8, 1>>(); break; case 1: run<Co<64, 3>>(); break; case 2: run<Co<16, 500>>(); break; } } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed once"); }
#elif MODE == 2 // the no-op coroutine through any conversions
int main() { { noop_coroutine_handle n = noop_coroutine(); coroutine_handle<> un = n; coroutine_handle<int> ty = coroutine_handle<int>::from_address(n.address()); std::coroutine_handle<> st = n.std_cast();
    for (int i = 0; i < N; i++) switch (vk_choose("op", 7)) {
        case 0: un = noop_coroutine(); vk_cover("untyped"); break;
        case 1: un = coroutine_handle<>::from_address(ty.address()); break;
        case 2: ty = coroutine_handle<int>::from_address(n.address()); vk_cover("typed"); break;
        case 3: st = un.std_cast(); vk_cover("native"); break;
        case 4: st = (std::coroutine_handle<>)ty; break;
        case 5: st = static_cast<std::coroutine_handle<>>(n); break;
        case 6: { std::noop_coroutine_handle s = static_cast<std::noop_coroutine_handle>(n); st = s; } break; }
    CHECKM(un == n && n == un && ty == n && un == ty, "no-op handles are equal"); CHECKM(un && ty && st && n, "and not null"); CHECK(!(un != n) && un.address() == n.address());
    CHECKM(!un.done() && !ty.done() && !st.done() && !n.done(), "never done");
    switch (vk_choose("last", 9)) { case 0: un.resume(); un(); break; case 1: ty.resume(); ty(); break; case 2: st.resume(); break; case 3: n.resume(); n(); break; case 4: un.destroy(); break; case 5: ty.destroy(); break; case 6: n.destroy(); (void)n.promise(); break; case 7: coroutine_handle<>(st).resume(); CHECK(!coroutine_handle<>(st).done()); break; case 8: coroutine_handle<>(st).destroy(); break; }
    CHECK(!un.done() && un == noop_coroutine()); } CHECK(vk_liveheap() == 0); }
#elif MODE == 3 // null handles
template<class H> void nul(H h) { CHECKM(!h && h.address() == nullptr, "null"); CHECK(h == H() && h == H(nullptr) && h == coroutine_handle<>() && !(h != nullptr)); CHECKM(!h.std_cast(), "null in native form"); CHECK(!(coroutine_handle<>(h) == noop_coroutine())); }
int main() { { nul(coroutine_handle<>()); nul(coroutine_handle<int>(nullptr)); int at = 0; auto c = make<Co<8, 1>>(vk_coin("macro"), at); auto h = c.h; coroutine_handle<> u = h; CHECK(h != nullptr && h); CHECK(u != coroutine_handle<>()); u = nullptr; nul(u); coroutine_handle<> w(std::coroutine_handle<>{}); nul(w); h.destroy(); h = nullptr; nul(h); nul(coroutine_handle<int>::from_address(nullptr)); vk_cover("done"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 4 // several coroutines side by side: each handle acts on its own
int main() { { using C = Co<32, 7>; int at[2] = {}, step[2] = {}; bool macro[2] = {vk_coin("macro0"), vk_coin("macro1")}, dead[2] = {}; C c[2] = {make<C>(macro[0], at[0]), make<C>(macro[1], at[1])}; coroutine_handle<> u[2] = {c[0].h, c[1].h}; std::coroutine_handle<> s[2] = {c[0].h.std_cast(), c[1].h.std_cast()};
    for (int i = 0; i < N; i++) { int k = (int)vk_choose("which", 2); if (dead[k]) continue; switch (vk_choose("op", 4)) { case 0: if (step[k] < 3) u[k].resume(), step[k]++; break; case 1: if (step[k] < 3) s[k].resume(), step[k]++; break; case 2: u[k].destroy(); dead[k] = true; break; case 3: s[k].destroy(); dead[k] = true; break; }
        for (int j = 0; j < 2; j++) { CHECK(at[j] == step[j]); if (!dead[j]) { CHECK(u[j].done() == (step[j] == 3)); CHECK(&coroutine_handle<C::promise_type>::from_address(u[j].address()).promise() == c[j].p); c[j].p->intact(); } } CHECK(u[0] != u[1]); vk_cover(macro[k] ? "macro" : "native"); vk_merge(); }
    for (int j = 0; j < 2; j++) if (!dead[j]) u[j].destroy(); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 5 // comparison is a total order on coroutines
int main() { { using C = Co<8, 1>; int at[3] = {}; C c[3] = {make<C>(vk_coin("m"), at[0]), make<C>(vk_coin("m"), at[1]), make<C>(vk_coin("m"), at[2])}; coroutine_handle<> h[5] = {c[0].h, c[1].h, c[2].h, nullptr, noop_coroutine()};
    int i = (int)vk_choose("i", 5), j = (int)vk_choose("j", 5), k = (int)vk_choose("k", 5); CHECK((h[i] == h[j]) == (i == j)); CHECK((h[i] != h[j]) == (i != j)); CHECK((h[i] < h[j]) == (h[j] > h[i]) && (h[i] <= h[j]) == !(h[j] < h[i]) && (h[i] >= h[j]) == !(h[i] < h[j])); CHECK(i == j ? !(h[i] < h[j]) : (h[i] < h[j]) != (h[j] < h[i])); if (h[i] < h[j] && h[j] < h[k]) CHECK(h[i] < h[k]); for (auto& x : c) x.h.destroy(); vk_cover("done"); } CHECK(Tok::live == 0 && vk_liveheap() == 0); }
#elif MODE == 6 // coroutines that do not suspend at their end destroy themselves, resumed in any form
struct Self { struct promise_type { Tok life{2}; Self get_return_object() { return {coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std)}; } Self macoro_get_return_object() { return {coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro)}; }
        std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vk_fail("exception"); } }; coroutine_handle<> h; };
int main() { { int at = 0; bool macro = vk_coin("macro"); auto c = make<Self>(macro, at); coroutine_handle<> m = c.h; std::coroutine_handle<> s = m.std_cast(); for (int i = 1; i <= 3; i++) { CHECK(!m.done()); switch (vk_choose("via", 3)) { case 0: m.resume(); break; case 1: s.resume(); break; case 2: coroutine_handle<>(s).resume(); break; } CHECK(at == i); } CHECKM(Tok::live == 0, "gone when it ran to its end"); vk_cover(macro ? "macro" : "native"); } CHECK(vk_liveheap() == 0); }
#elif MODE == 7 // a task that asks for its promise gets its own: the handle made of it is the one that suspends
#include <macoro/task.h>
#include <macoro/macros.h>
static Gate gate; static void* mine; static int ran; static int v;
template<class K> K nat() { auto& p = co_await getPromise{}; mine = coroutine_handle<std::remove_cvref_t<decltype(p)>>::from_promise(p, coroutine_handle_type::std).address(); co_await gate; ran++; if constexpr (std::is_same_v<K, task<int>> || std::is_same_v<K, eager_task<int>>) co_return v; }
template<class K> K mac() { using P = typename K::promise_type; MC_BEGIN(K, p = (P*)nullptr); MC_AWAIT_FN([&p = p](P& q) { p = &q; }, getPromise{}); mine = coroutine_handle<P>::from_promise(*p, coroutine_handle_type::macoro).address(); MC_AWAIT(gate); ran++; if constexpr (std::is_same_v<K, task<int>> || std::is_same_v<K, eager_task<int>>) { MC_RETURN(v); } else { MC_RETURN_VOID(); } MC_END(); }
template<class K> Fire drive(K k, int& end) { if constexpr (std::is_same_v<K, task<int>> || std::is_same_v<K, eager_task<int>>) { int r = co_await std::move(k); CHECK(r == v); } else co_await std::move(k); end++; }
template<class K> void go() { bool m = vk_coin("macro"); v = vk_int("v"); int end = 0; drive(m ? mac<K>() : nat<K>(), end); CHECK(gate.waiting() && mine && end == 0 && ran == 0); CHECKM(coroutine_handle<>(gate.h).address() == mine || coroutine_handle<>::from_address(mine).std_cast() == gate.h, "the promise of another coroutine"); gate.fire(); CHECK(end == 1 && ran == 1); vk_cover(m ? "macro" : "native"); }
int main() { { switch (vk_choose("kind", 4)) { case 0: go<task<int>>(); break; case 1: go<task<>>(); break; case 2: go<eager_task<int>>(); break; case 3: go<eager_task<>>(); break; } } CHECK(vk_liveheap() == 0); }
#endif
