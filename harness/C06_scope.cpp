//@ run quick hist -DMODE=1 -DN=4 covers:joined,lost,waited
//@ run quick threads -DMODE=2 covers:done
//@ run quick threads-weak -DMODE=2 --weak --preempt 2 covers:done
//@ run quick nested -DMODE=3 covers:done
//@ run quick reuse -DMODE=4 covers:done
//@ run quick lvalue -DMODE=5 covers:done
//@ run quick latedrop -DMODE=6 covers:done
//@ run quick drops -DMODE=8 --preempt 3 covers:done
//@ run quick drops-weak -DMODE=8 --weak --preempt 2 covers:done
//@ run quick hist6 -DMODE=1 -DN=6 covers:joined,lost,waited
//@ run quick threads-weak-all -DMODE=2 --weak covers:done
//@ run quick nested-weak -DMODE=3 --weak --preempt 2 covers:done
//@ run quick three -DMODE=7 --preempt 2 covers:done
//@ run thorough hist6-l -DMODE=1 -DN=7 covers:joined,lost,waited
//@ run quick drops-p -DMODE=8 --preempt 4 covers:done
//@ run quick drops-weak-p -DMODE=8 --weak --preempt 3 covers:done
//@ run quick nested-weak-p -DMODE=3 --weak --preempt 3 covers:done
//@ run quick three-p -DMODE=7 --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <vector>
#include <macoro/async_scope.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
#include <algorithm>
using namespace macoro;
static int thrown(std::exception_ptr& e) { try { std::rethrow_exception(e); } catch (Ex& x) { return x.v(); } catch (...) { return -1; } }
static std::vector<int> list(async_scope_exception& e) { std::vector<int> r; for (auto& x : e.m_exceptions) r.push_back(thrown(x)); std::sort(r.begin(), r.end()); return r; }
#if MODE == 1   // any history of adding, finishing, dropping, awaiting, joining
static Gate g[2]; static Tok* alive; static int got[2], gotx[2], joins, lost[2], other; static bool lived[2];
struct Live { int k; Live(int k) : k(k) { CHECKM(!lived[k], "task started twice"); lived[k] = true; } ~Live() { CHECKM(lived[k], "task frame destroyed twice"); lived[k] = false; } };
task<Tok> job(int k, bool su, bool th) { Live l(k); Tok t(k + 10); if (su) co_await g[k]; if (th) throw Ex(k); co_return std::move(t); }
Fire joiner(async_scope& s) { try { co_await s.join(); } catch (async_scope_exception& e) { for (auto& x : e.m_exceptions) { int v = thrown(x); if (v == 0 || v == 1) lost[v]++; else other++; } if (!e.m_exceptions.size()) other++; } joins++; }
Fire waiter(scoped_task<Tok> t, int k) { try { Tok v = co_await std::move(t); CHECK(v.get() == k + 10); got[k]++; } catch (Ex& e) { CHECK(e.v() == k); gotx[k]++; } }
int main() {
    {
        async_scope s; scoped_task<Tok> h[2]; bool added[2] = {}, done[2] = {}, thr[2] = {}, awaited[2] = {}, drop[2] = {}; bool joining = false; int el[2] = {};
        auto update = [&] { for (int k = 0; k < 2; k++) { bool fin = added[k] && done[k]; CHECK(got[k] == (fin && awaited[k] && !thr[k])); CHECK(gotx[k] == (fin && awaited[k] && thr[k])); if (fin && (awaited[k] || drop[k])) CHECKM(!lived[k], "a finished task whose result is delivered or unwanted must be freed"); if (added[k] && !done[k]) CHECK(lived[k]); if (h[k].is_ready()) CHECK(fin); if (fin && !awaited[k] && !drop[k]) CHECK(h[k].is_ready()); }
            bool all = (!added[0] || done[0]) && (!added[1] || done[1]); if (joining) CHECK(joins == all); else CHECK(joins == 0);
            if (joins) { for (int k = 0; k < 2; k++) { CHECKM(lost[k] == (el[k] ? 1 : 0), "the join reports each lost exception once"); if (lost[k]) vk_cover("lost"); } CHECK(other == 0); vk_cover("joined"); } };
        auto refresh = [&] { for (int k = 0; k < 2; k++) if (joins == 0) el[k] = added[k] && done[k] && drop[k] && thr[k]; };
        for (int i = 0; i < N; i++) {
            unsigned op = vk_choose("op", 5), k = vk_choose("task", 2); if (joins) break;
            switch (op) {
            case 0: if (added[k]) break; { bool su = vk_coin("su"); thr[k] = vk_coin("th"); added[k] = true; done[k] = !su; if (!joining || true) h[k] = s.add(job(k, su, thr[k])); } break;
            case 1: if (!g[k].waiting()) break; done[k] = true; refresh(); g[k].fire(); break;
            case 2: if (!added[k] || awaited[k] || drop[k]) break; drop[k] = true; refresh(); h[k] = scoped_task<Tok>(); break;
            case 3: if (!added[k] || awaited[k] || drop[k]) break; awaited[k] = true; waiter(std::move(h[k]), k); if (!done[k]) vk_cover("waited"); break;
            case 4: if (joining) break; joining = true; refresh(); joiner(s); break;
            }
            refresh(); update(); vk_merge();
        }
        for (int k = 0; k < 2; k++) { if (added[k] && !awaited[k] && !drop[k]) { drop[k] = true; refresh(); h[k] = {}; } if (g[k].waiting()) { done[k] = true; refresh(); g[k].fire(); } update(); }
        if (!joining) { joining = true; refresh(); joiner(s); update(); } CHECK(joins == 1);
    }
    CHECK(Tok::live == 0);
}
#elif MODE == 2 || MODE == 7  // tasks finish on other threads, their handles are gone; the scope is destroyed right after the join
static XGate g[3]; static int w[3];
task<> job(int k, bool th) { Tok t(k); co_await g[k]; w[k] = 1; if (th) throw Ex(k); }
int main() {
    bool th[3] = { vk_flag("t0"), vk_flag("t1"), vk_flag("t2") }; VkThread a([] { g[0].fire(); }); VkThread b([] { g[1].fire(); });
    const int n = MODE == 7 ? 3 : 2;
    auto* s = new async_scope; for (int k = 0; k < n; k++) s->add(job(k, th[k]));
    a.start(); b.start();
#if MODE == 7
    VkThread c([] { g[2].fire(); }); c.start();
#endif
    std::vector<int> r; try { sync_wait(s->join()); } catch (async_scope_exception& e) { r = list(e); CHECK(r.size() > 0); }
    int i = 0; for (int k = 0; k < n; k++) { CHECK(w[k] == 1); if (th[k]) { CHECKM(i < (int)r.size() && r[i] == k, "every lost exception is reported"); i++; } } CHECK(i == (int)r.size());
    CHECKM(Tok::live == 0, "the join completes after the frames of dropped tasks are gone"); delete s; a.join(); b.join();
#if MODE == 7
    c.join();
#endif
    vk_cover("done");
}
#elif MODE == 3  // running work adds more work while the scope is being joined
static XGate g[2]; static int w[2];
task<> inner() { co_await g[1]; w[1] = 1; }
template<class F> task<> outer(async_scope& s, F& start) { co_await g[0]; s.add(inner()); start(); w[0] = 1; }
int main() {
    auto* s = new async_scope; VkThread b([] { g[1].fire(); }); auto st = [&] { b.start(); }; VkThread a([] { g[0].fire(); }); s->add(outer(*s, st)); a.start(); sync_wait(s->join()); CHECK(w[0] == 1 && w[1] == 1); delete s; a.join(); b.join(); vk_cover("done");
}
#elif MODE == 4  // the scope is used again after a join
static XGate g; static Gate h;
task<> job(bool th) { co_await g; if (th) throw Ex(1); }
task<> job2(bool th) { co_await h; if (th) throw Ex(2); }
Fire joiner(async_scope& s, int& r) { r = 0; try { co_await s; r = 1; } catch (async_scope_exception& e) { auto l = list(e); CHECK(l.size() == 1); r = l[0] == 2 ? 2 : 3; } }
int main() {
    bool t1 = vk_flag("t1"), t2 = vk_flag("t2"); auto* s = new async_scope; sync_wait(s->join()); s->add(job(t1)); VkThread a([] { g.fire(); }); a.start();
    bool e = false; try { sync_wait(s->join()); } catch (async_scope_exception& x) { auto l = list(x); CHECK(l.size() == 1 && l[0] == 1); e = true; } CHECK(e == t1);
    s->add(job2(t2)); int r = 0; joiner(*s, r); CHECK(r == 0); h.fire(); CHECK(r == (t2 ? 2 : 1)); bool ok = false; try { sync_wait(s->join()); ok = true; } catch (...) {} CHECK(ok); delete s; a.join(); vk_cover("done");
}
#elif MODE == 5  // an lvalue awaitable is awaited in place
static Gate g; static int ran;
task<int&> ref(int& x, bool su) { if (su) co_await g; ran++; co_return x; }
Fire use(scoped_task<int&> t, int* p, int& r) { int& y = co_await std::move(t); r = (&y == p) ? 1 : 2; }
int main() {
    int x = vk_int("x"); bool su = vk_flag("su"); async_scope s; auto t = ref(x, su); int r = 0; use(s.add(t), &x, r); CHECK(r == !su); if (su) g.fire(); CHECK(r == 1 && ran == 1); 
    Gate h; h.val = x; bool ok = false; auto u = s.add(h); CHECK(!u.is_ready()); h.fire(); CHECK(u.is_ready()); CHECK(sync_wait(std::move(u)) == x); sync_wait(s.join()); vk_cover("done");
}
#elif MODE == 8  // handles of failing tasks are dropped on several threads while tasks end on others
static XGate g; static Gate h;
task<> job(int k, bool late) { Tok t(k); if (late) co_await g; throw Ex(k); }
Fire joiner(async_scope& s, int& r) { try { co_await s.join(); r = 1; } catch (async_scope_exception& e) { auto l = list(e); CHECKM(l.size() == 3 && l[0] == 0 && l[1] == 1 && l[2] == 2, "every lost exception is reported once"); r = 2; } }
int main() { async_scope s; int r = 0; bool late = vk_coin("late"); { auto x = std::make_unique<scoped_task<>>(s.add(job(0, false))); auto y = std::make_unique<scoped_task<>>(s.add(job(1, late))); s.add(job(2, false)); VkThread a([&] { x.reset(); }); VkThread b([&] { y.reset(); }); VkThread c([&] { if (late) g.fire(); }); a.start(); b.start(); c.start(); a.join(); b.join(); c.join(); } joiner(s, r); CHECK(r == 2); CHECK(Tok::live == 0); vk_cover("done"); }
#else   // MODE 6: the handle is dropped while the join is waiting for another task
static XGate g; static Gate h;
task<> job(bool th) { co_await g; if (th) throw Ex(7); }
task<> last() { co_await h; }
Fire joiner(async_scope& s, int& r) { try { co_await s.join(); r = 1; } catch (async_scope_exception& e) { auto l = list(e); CHECK(l.size() == 1); CHECK(l[0] == 7); r = 2; } }
int main() {
    bool th = vk_flag("th"); async_scope s; int r = 0; { auto k = s.add(job(th)); VkThread a([] { g.fire(); }); s.add(last()); a.start(); joiner(s, r); CHECK(r == 0); { auto d = std::move(k); } a.join(); } CHECK(r == 0); h.fire(); CHECK(r == (th ? 2 : 1)); vk_cover("done");
}
#endif
