//@ run quick chain -DMODE=1 -DDEPTH=2 -DROOTS=1 covers:done,native,macro,wrapped,group
//@ run quick tops -DMODE=1 -DDEPTH=1 -DROOTS=5 covers:done,native,macro,wrapped,group
//@ run quick siblings -DMODE=2 covers:done
//@ run quick threads -DMODE=3 --preempt 3 covers:done
//@ run quick promises -DMODE=4 covers:derived,member,function,pointer,none
//@ run quick scopes -DMODE=5 covers:scope,group
//@ run quick roots -DMODE=6 covers:eager,nested,moved
//@ run quick again -DMODE=7 -DN=4 covers:done
//@ run thorough chain3 -DMODE=1 -DDEPTH=3 -DROOTS=1 covers:done,native,macro,wrapped,group
//@ run quick threads-p6 -DMODE=3 --preempt 6 covers:done
//@ run quick threads-weak -DMODE=3 --weak --preempt 3 covers:done
//@ run thorough again6 -DMODE=7 -DN=6 covers:done
//@ run quick tops-l -DMODE=1 -DDEPTH=2 -DROOTS=5 covers:done,native,macro,wrapped,group
//@ run quick threads-p6-p -DMODE=3 --preempt 7 covers:done
//@ run thorough again6-l -DMODE=7 -DN=7 covers:done
//@ run quick threads-weak-p -DMODE=3 --weak --preempt 4 covers:done
#include "hx.h"
#include <optional>
#include <vector>
#include <cassert>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
#include <macoro/when_all.h>
#include <macoro/wrap.h>
#include <macoro/macros.h>
#include <macoro/trace.h>
#include <macoro/async_scope.h>
#include <macoro/when_all_scope.h>
using namespace macoro;
#ifndef ROOTS
#define ROOTS 1
#endif
// where the coroutines awaiting this one await, outermost first
struct Ch { int l[10]; int n = 0; Ch at(int line) const { Ch r = *this; r.l[r.n++] = line; return r; } };
static bool here(const char* f) { const char* m = __FILE__; while (*f && *f == *m) f++, m++; return *f == *m; }
// the library's own coroutines may appear in between, with places of the library
static void same(const trace& t, const Ch& c, int line) { int k = c.n, i = 0; for (auto& s : t.stack) if (here(s.file_name())) { int want = i++ == 0 ? line : k ? c.l[--k] : -1; CHECKM(want != -1, "lists a coroutine that is not awaiting"); CHECKM((int)s.line() == want, "another place"); }
    CHECKM(i == c.n + 1 && k == 0, "an awaiting coroutine is missing"); CHECKM(here(t.stack[0].file_name()), "starts where the trace was asked for"); }
static int leaves; static Tok* anchor;
template<class T> task<T> leaf(Ch c, Gate* g = nullptr) { Tok l(1);
    { auto t = co_await get_trace{}; same(t, c, __LINE__); }
    if (g) { co_await *g; auto t = co_await get_trace(); same(t, c, __LINE__); }
    leaves++; if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *anchor; else co_return T(c.n); }
task<int> mleaf(Ch c, Gate* g) { MC_BEGIN(task<int>, c, g, t = std::optional<trace>{}, l = Tok(2));
    MC_AWAIT_SET(t, get_trace{}); same(*t, c, __LINE__);
    if (g) {
        MC_AWAIT(*g);
        MC_AWAIT_SET(t, get_trace{}); same(*t, c, __LINE__);
    }
    leaves++; MC_RETURN(c.n);
    MC_END(); }
task<int> level(Ch c, int d);
task<int> mlevel(Ch c, int d) { MC_BEGIN(task<int>, c, d, r = 0, k = 0, o = result<int>(Ok(0)), l = Tok(3), t = std::optional<trace>{});
    k = (int)vk_choose("macro", 5);
    if (k == 0)
        MC_AWAIT_SET(r, level(c.at(__LINE__), d - 1));
    else if (k == 1) {
        MC_AWAIT_TRY(o, level(c.at(__LINE__), d - 1));
        r = o.value(); }
    else if (k == 2) {
        MC_AWAIT_SET(o, level(c.at(__LINE__), d - 1) | wrap());
        r = o.value(); }
    else if (k == 3)
        MC_AWAIT(when_all_ready(level(c.at(__LINE__), d - 1), leaf<void>(c.at(__LINE__))));
    else
        MC_RETURN_AWAIT(level(c.at(__LINE__), d - 1));
    MC_AWAIT_SET(t, get_trace{}); same(*t, c, __LINE__);
    vk_cover("macro"); MC_RETURN(r);
    MC_END(); }
task<> vlevel(Ch c, int d) { Tok l(4); int r = co_await level(c.at(__LINE__), d); (void)r; }
task<int&> rlevel(Ch c, int d) { Tok l(5); static int x; x =
    co_await level(c.at(__LINE__), d); co_return x; }
task<int> level(Ch c, int d) { Tok l(d); int r = 0;
    if (d == 0) { switch (vk_choose("leaf", 4)) {
        case 0: r = co_await leaf<int>(c.at(__LINE__)); break;
        case 1: co_await leaf<void>(c.at(__LINE__)); break;
        case 2: (co_await leaf<Tok&>(c.at(__LINE__))).get(); break;
        case 3: r = co_await mleaf(c.at(__LINE__), nullptr); break; } }
    else switch (vk_choose("shape", 9)) {
        case 0: r = co_await level(c.at(__LINE__), d - 1); vk_cover("native"); break;
        case 1: r = co_await mlevel(c.at(__LINE__), d); break;
        case 2: r = (co_await (level(c.at(__LINE__), d - 1) | wrap())).value(); vk_cover("wrapped"); break;
        case 3: { auto t = level(c.at(__LINE__ + 1), d - 1);
                  r = co_await t; break; }
        case 4: co_await when_all_ready(level(c.at(__LINE__), d - 1), leaf<Tok>(c.at(__LINE__)), leaf<void>(c.at(__LINE__))); vk_cover("group"); break;
        case 5: r = co_await rlevel(c.at(__LINE__), d - 1); break;
        case 8: co_await vlevel(c.at(__LINE__), d - 1); break;
        case 6: { std::vector<task<>> v; for (int i = 0; i < 2; i++) v.push_back(i ? vlevel(c.at(__LINE__ + 1), d - 1) : leaf<void>(c.at(__LINE__ + 1)));
                  co_await when_all_ready(std::move(v)); break; }
        case 7: { std::vector<task<int>> v; v.push_back(level(c.at(__LINE__ + 1), d - 1));
                  co_await (when_all_ready(std::move(v)) | wrap()); break; } }
    auto t = co_await get_trace{}; same(t, c, __LINE__); co_return r; }
template<class F> void root(F f) { Ch c;
    switch (vk_choose("root", ROOTS)) {
    case 0: sync_wait(f(c.at(__LINE__))); break;
    case 1: f(c.at(__LINE__)) | sync_wait(); break;
    case 2: { auto t = f(c.at(__LINE__ + 1));
              sync_wait(t); break; }
    case 3: { auto b = make_blocking(f(c.at(__LINE__))); b.get(); break; }
    case 4: { bool done = false; [](auto& f, Ch c, bool& done) -> Fire { co_await f(c.at(__LINE__)); done = true; }(f, c, done); CHECK(done); break; } } }
#if MODE == 1
int main() { { Tok a(1); anchor = &a; root([](Ch c) { return level(c, DEPTH); }); CHECK(leaves > 0); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 2 // suspended below two groups, resumed in any order
int main() { { Gate g[4]; bool fin = false; bool mac = vk_coin("macro");
    auto mid = [&](Ch c) -> task<> {
        co_await when_all_ready(leaf<int>(c.at(__LINE__), &g[0]), leaf<void>(c.at(__LINE__), &g[1]));
        auto t = co_await get_trace{}; same(t, c, __LINE__); };
    auto top = [&](Ch c) -> task<> {
        co_await when_all_ready(mid(c.at(__LINE__)), mac ? mleaf(c.at(__LINE__), &g[2]) : leaf<int>(c.at(__LINE__), &g[2]));
        auto t = co_await get_trace{}; same(t, c, __LINE__);
        co_await leaf<int>(c.at(__LINE__), &g[3]); fin = true; };
    auto all = [&]() -> Fire { co_await top(Ch().at(__LINE__)); }; all();
    for (int k = 0; k < 3; k++) { int i = (int)vk_choose("next", 3); vk_assume(g[i].waiting()); g[i].fire(); } CHECK(!fin); g[3].fire(); CHECK(fin && leaves == 4); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 3 // resumed by different threads
int main() { { XGate a, b;
    auto on = [&](Ch c, XGate& g) -> task<int> { Tok l(1); co_await g; auto t = co_await get_trace{}; same(t, c, __LINE__); co_return 1; };
    auto mid = [&](Ch c) -> task<> { co_await on(c.at(__LINE__), b); auto t = co_await get_trace{}; same(t, c, __LINE__); };
    auto top = [&](Ch c) -> task<> { co_await when_all_ready(on(c.at(__LINE__), a), mid(c.at(__LINE__)));
        auto t = co_await get_trace{}; same(t, c, __LINE__); };
    VkThread x([&] { a.fire(); }); VkThread y([&] { b.fire(); }); x.start(); y.start(); sync_wait(top(Ch().at(__LINE__))); x.join(); y.join(); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 4 // other coroutine types, that offer their trace in different ways
template<int K> struct Pr;
template<int K> struct Cor { using promise_type = Pr<K>; };
struct BaseP { std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vk_fail("exception"); } };
static basic_traceable shared;
template<> struct Pr<0> : BaseP, basic_traceable { Cor<0> get_return_object() { return {}; } void mark(std::source_location l) { set_parent(nullptr, l); } };
template<> struct Pr<1> : BaseP { basic_traceable m_trace; Cor<1> get_return_object() { return {}; } void mark(std::source_location l) { m_trace.set_parent(nullptr, l); } };
template<> struct Pr<2> : BaseP { basic_traceable x; traceable* get_traceable() { return &x; } Cor<2> get_return_object() { return {}; } void mark(std::source_location l) { x.set_parent(nullptr, l); } };
template<> struct Pr<3> : BaseP { traceable* m_trace = &shared; Cor<3> get_return_object() { return {}; } void mark(std::source_location l) { m_trace->set_parent(nullptr, l); } };
template<> struct Pr<4> : BaseP { Cor<4> get_return_object() { return {}; } void mark(std::source_location) {} };
template<class P> struct Mark { std::source_location l; Mark(std::source_location l = std::source_location::current()) : l(l) {} bool await_ready() { return false; } bool await_suspend(std::coroutine_handle<P> h) { h.promise().mark(l); return false; } void await_resume() {} };
template<int K> Cor<K> run(const char* tag) { Ch c; int mark = __LINE__; if (K != 4) c = c.at(mark); co_await Mark<Pr<K>>{};
    switch (vk_choose("how", 3)) { case 0: co_await leaf<int>(c.at(__LINE__)); break; case 1: co_await when_all_ready(leaf<int>(c.at(__LINE__)), leaf<void>(c.at(__LINE__))); break; case 2: co_await (mleaf(c.at(__LINE__), nullptr) | wrap()); break; } vk_cover(tag); }
int main() { { switch (vk_choose("kind", 5)) { case 0: run<0>("derived"); break; case 1: run<1>("member"); break; case 2: run<2>("function"); break; case 3: run<3>("pointer"); break; case 4: run<4>("none"); break; } CHECK(leaves >= 1); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 5 // scopes: a task of a scope is listed below the place where it was added
int main() { { Gate g, h; bool fin = false;
    if (vk_coin("group")) {
        auto body = [&](Ch c) -> when_all_scope {
            auto s = co_await (leaf<int>(c.at(__LINE__), &g) | scoped());
            co_await leaf<int>(c.at(__LINE__), &h); co_await std::move(s); co_await leaf<void>(c.at(__LINE__)); };
        auto top = [&](Ch c) -> task<> {
            co_await body(c.at(__LINE__));
            auto t = co_await get_trace{}; same(t, c, __LINE__); fin = true; };
        auto all = [&]() -> Fire { co_await top(Ch().at(__LINE__)); }; all(); CHECK(g.waiting() && h.waiting()); if (vk_coin("order")) { g.fire(); h.fire(); } else { h.fire(); g.fire(); } CHECK(fin && leaves == 3); vk_cover("group");
    } else {
        auto top = [&]() -> task<> { async_scope s; auto t = s.add(leaf<int>(Ch().at(__LINE__), &g)); auto u = leaf<void>(Ch().at(__LINE__ + 1), &h);
            auto v = s.add(u); co_await s; CHECK(leaves == 2); int r = co_await std::move(t); CHECK(r == 1); co_await std::move(v); fin = true; };
        auto all = [&]() -> Fire { co_await top(); }; all(); if (vk_coin("order")) { g.fire(); h.fire(); } else { h.fire(); g.fire(); } CHECK(fin); vk_cover("scope"); }
    } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 6 // what runs on its own starts a chain: an eager task, a blocking wait
eager_task<int> eag(Gate& g) { co_await leaf<int>(Ch().at(__LINE__), &g); auto t = co_await get_trace{}; same(t, Ch(), __LINE__); co_return 4; }
int main() { { Gate g; bool fin = false; switch (vk_choose("what", 3)) {
    case 0: { auto top = [&](Ch c) -> task<> { auto e = eag(g); CHECK(g.waiting()); int r = co_await e; CHECK(r == 4); auto t = co_await get_trace{}; same(t, c, __LINE__); fin = true; }; auto all = [&]() -> Fire { co_await top(Ch().at(__LINE__)); }; all(); g.fire(); CHECK(fin); vk_cover("eager"); break; }
    case 1: { auto top = [&](Ch c) -> task<> { sync_wait(leaf<int>(Ch().at(__LINE__))); auto t = co_await get_trace{}; same(t, c, __LINE__); fin = true; }; sync_wait(top(Ch().at(__LINE__))); CHECK(fin); vk_cover("nested"); break; }
    case 2: { auto t = leaf<int>(Ch().at(__LINE__ + 1), &g); auto u = std::move(t); task<int> w; w = std::move(u);
              auto b = make_blocking(std::move(w)); g.fire(); int r = b.get(); CHECK(r == 1); vk_cover("moved"); break; } } } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#elif MODE == 7 // one coroutine awaits many, from different places; each trace has the current place only, and traces stay as they were taken
int main() { { Tok a(1); anchor = &a; auto top = [&](Ch c) -> task<> { std::optional<trace> kept; int at = 0;
        for (int i = 0; i < N; i++) { switch (vk_choose("op", 5)) {
            case 0: co_await leaf<int>(c.at(__LINE__)); break;
            case 1: co_await leaf<Tok&>(c.at(__LINE__)); break;
            case 2: co_await when_all_ready(leaf<void>(c.at(__LINE__)), leaf<void>(c.at(__LINE__))); break;
            case 3: { auto t = leaf<void>(c.at(__LINE__)); (void)t; break; }
            case 4: kept = co_await get_trace{}; at = __LINE__; break; }
            auto t = co_await get_trace{}; same(t, c, __LINE__); if (kept) same(*kept, c, at); vk_merge(); } };
    sync_wait(top(Ch().at(__LINE__))); vk_cover("done"); } CHECKM(Tok::live == 0 && vk_liveheap() == 0, "everything destroyed"); }
#endif
