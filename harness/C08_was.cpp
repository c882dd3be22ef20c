//@ run quick hist -DMODE=1 covers:body,task,none,value
//@ run quick reports -DMODE=1 -DREPORTS covers:body,task,none
//@ run quick threads -DMODE=2 --preempt 2 covers:done
//@ run quick threads-all -DMODE=2 covers:done
//@ run quick threads-weak -DMODE=2 --weak --preempt 2 covers:done
//@ run quick nested -DMODE=3 covers:done
//@ run quick unused -DMODE=4 covers:done
//@ run quick lvalue -DMODE=5 covers:done
//@ run quick lvalue-plain -DMODE=7 covers:done
//@ run quick bodythread -DMODE=6 covers:done
//@ run thorough threads-weak-all -DMODE=2 --weak --preempt 4 covers:done
//@ run quick bodythread-weak -DMODE=6 --weak covers:done
#include "hx.h"
#include <cassert>
#include <vector>
#include <algorithm>
#include <macoro/when_all_scope.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static int thrown(std::exception_ptr& e) { try { std::rethrow_exception(e); } catch (Ex& x) { return x.v(); } catch (...) { return -1; } }
static std::vector<int> list(async_scope_exception& e) { std::vector<int> r; for (auto& x : e.m_exceptions) r.push_back(thrown(x)); std::sort(r.begin(), r.end()); return r; }
static int w[4];
// the exceptions reported are those thrown. Known finding: none is ever reported; the jobs without REPORTS check that a report is never wrong
static void rule(const std::vector<int>& exp, const std::vector<int>& rep) {
#ifndef REPORTS
    if (rep.empty()) return;
#endif
    CHECKM(exp.empty() || !rep.empty(), "an exception of the body or of a task is reported to the awaiter");
    CHECKM(exp == rep, "every exception of the body and of the tasks is reported once"); }
#if MODE == 1   // the body adds three tasks, awaits one, drops two; each suspends, throws or returns; finished in any order
static Gate g[4];
task<Mov> job(int k, bool su, bool th) { Tok t(k); if (su) co_await g[k]; w[k] = 1; if (th) throw Ex(k); co_return Mov(k + 5); }
struct Cfg { bool su[4], th[4], aw; };
when_all_scope body(const Cfg& c) {
    Tok t(9); scoped_task<Mov> a = co_await scoped(job(0, c.su[0], c.th[0])); co_await (job(1, c.su[1], c.th[1]) | scoped());
    if (c.su[3]) co_await g[3];
    if (c.aw) { try { Mov m = co_await std::move(a); CHECK(m.get() == 5); CHECK(!c.th[0]); vk_cover("value"); } catch (Ex& e) { CHECK(e.v() == 0 && c.th[0]); } CHECK(w[0] == 1); }
    w[3] = 1; if (c.th[3]) throw Ex(3);
}
static int resumed; static std::vector<int> rep;
Fire top(const Cfg& c) { try { co_await body(c); } catch (async_scope_exception& e) { rep = list(e); CHECK(rep.size()); } resumed++; }
int main() {
    {
    Cfg c; for (int k : {0, 1, 3}) { c.su[k] = vk_coin("su"); c.th[k] = vk_coin("th"); } c.aw = vk_coin("await"); 
    top(c);
    auto all = [&] { return w[0] && w[1] && w[3]; };
    unsigned o = vk_choose("order", 6); static const int P[6][3] = {{0,1,3},{0,3,1},{1,0,3},{1,3,0},{3,0,1},{3,1,0}};
    for (int i = 0; i < 3; i++) { CHECK(resumed == (int)all()); int k = P[o][i]; if (g[k].waiting()) g[k].fire(); }
    for (int k : {0, 1, 3}) if (g[k].waiting()) { CHECK(!resumed); g[k].fire(); }
    CHECK(all() && resumed == 1); std::vector<int> exp; if (c.th[0] && !c.aw) exp.push_back(0); if (c.th[1]) exp.push_back(1); if (c.th[3]) exp.push_back(3); rule(exp, rep);
    if (exp.empty()) vk_cover("none"); else if (exp.back() == 3) vk_cover("body"); else vk_cover("task"); std::vector<int>().swap(rep);
    }
    CHECK(Tok::live == 0);
}
#elif MODE == 2 // tasks finish on other threads
static XGate g[2];
task<> job(int k, bool th) { Tok t(k); co_await g[k]; w[k] = 1; if (th) throw Ex(k); }
when_all_scope body(bool t0, bool t1, bool t3) { Tok t(9); co_await scoped(job(0, t0)); auto h = co_await scoped(job(1, t1)); w[3] = 1; if (t3) throw Ex(3); }
int main() {
    bool t0 = vk_flag("t0"), t1 = vk_flag("t1"), t3 = vk_flag("t3"); VkThread a([] { g[0].fire(); }); VkThread b([] { g[1].fire(); }); a.start(); b.start(); std::vector<int> r;
    try { sync_wait(body(t0, t1, t3)); } catch (async_scope_exception& e) { r = list(e); CHECK(r.size()); } CHECK(w[0] && w[1] && w[3]); CHECK(Tok::live == 0);
    std::vector<int> e; if (t0) e.push_back(0); if (t1) e.push_back(1); if (t3) e.push_back(3); rule(e, r); a.join(); b.join(); vk_cover("done"); }
#elif MODE == 3 // a scope inside a scope, awaited from plain tasks and as an added task
static Gate g[2];
task<> job(int k, bool th) { co_await g[k]; w[k] = 1; if (th) throw Ex(k); }
when_all_scope inner(bool th) { co_await scoped(job(0, th)); w[2] = 1; }
task<> mid(bool th) { co_await inner(th); w[1]++; }
when_all_scope outer(bool th, bool direct, int& ex) { if (direct) { try { co_await inner(th); } catch (async_scope_exception& e) { ex = e.m_exceptions.size(); } CHECK(w[0] && w[2]); } else { co_await scoped(mid(th)); } w[3] = 1; }
static int resumed, rep; Fire top(bool th, bool d, int& ex) { try { co_await outer(th, d, ex); } catch (async_scope_exception& e) { rep = e.m_exceptions.size(); } resumed++; }
int main() { bool th = vk_flag("th"), d = vk_flag("direct"); int ex = 0; top(th, d, ex); CHECK(!resumed && w[2] && w[3] == !d); g[0].fire(); CHECK(resumed == 1 && w[3] && w[0]); if (d) CHECK((ex == th || !ex) && rep == 0); else CHECK(rep == th || !rep); vk_cover("done"); }
#elif MODE == 4 // never awaited, moved
when_all_scope body(Tok) { Tok t(1); w[0]++; co_return; }
int main() { { auto a = body(Tok(3)); auto b = std::move(a); a = body(Tok(4)); if (vk_flag("swap")) b = std::move(a); else a = std::move(b); auto& aa = a; a = std::move(aa); } CHECK(Tok::live == 0 && w[0] == 0); { auto a = body(Tok(5)); auto b = std::move(a); sync_wait(b); CHECK(w[0] == 1); } CHECK(Tok::live == 0);
    { auto a = body(Tok(6)); auto b = body(Tok(7)); sync_wait(b); CHECK(w[0] == 2); b = std::move(a); CHECKM(Tok::live == 1, "the scope assigned over is destroyed"); sync_wait(b); CHECKM(w[0] == 3, "the moved body is run"); } CHECK(Tok::live == 0); vk_cover("done"); }
#elif MODE == 5 // scoped() of an lvalue
static Gate g;
task<int&> job(int& x) { co_await g; co_return x; }
when_all_scope body(int& x) { auto t = job(x); { auto h = co_await scoped(t); int& r = co_await std::move(h); CHECK(&r == &x); } w[0] = 1; auto u = job(x); auto h = co_await (u | scoped()); int& r = co_await std::move(h); CHECK(&r == &x); w[1] = 1; }
static int resumed; Fire top(int& x) { co_await body(x); resumed++; }
int main() { int x = vk_int("x"); top(x); CHECK(!w[0]); g.fire(); CHECK(w[0] && !w[1] && !resumed); g.fire(); CHECK(w[1] && resumed == 1); vk_cover("done"); }
#elif MODE == 7 // scoped() of an lvalue that could be copied
when_all_scope body(Here& x, Here& y) { { auto h = co_await scoped(x); int r = co_await std::move(h); CHECK(r == x.v); } w[0] = 1; auto h = co_await (y | scoped()); int r = co_await std::move(h); CHECK(r == y.v); w[1] = 1; }
static int resumed; Fire top(Here& x, Here& y) { co_await body(x, y); resumed++; }
int main() { Here x(vk_int("x")), y(vk_int("y")); top(x, y); CHECK(x.co == 1 && y.co == 0 && !w[0]); x.g.fire(); CHECK(w[0] && y.co == 1 && !w[1] && !resumed); y.g.fire(); CHECK(w[1] && resumed == 1 && x.co == 1 && y.co == 1); vk_cover("done"); }
#else           // the body itself continues, and ends, on another thread while a task is finishing on a third
static XGate g[2];
task<int> job(int v, bool th) { co_await g[0]; w[0] = 1; if (th) throw Ex(v); co_return v; }
when_all_scope body(int v, bool th, bool aw) { Tok t(1); auto h = co_await scoped(job(v, th)); co_await g[1]; if (aw) { int r = co_await std::move(h); CHECK(r == v && w[0] == 1); } w[3] = 1; }
int main() {
    int v = vk_int("v"); bool th = vk_flag("th"), aw = vk_flag("aw"); VkThread a([] { g[0].fire(); }); VkThread b([] { g[1].fire(); }); a.start(); b.start(); int n = 0; try { sync_wait(body(v, th, aw)); } catch (async_scope_exception& e) { n = e.m_exceptions.size(); CHECK(n == 1 && thrown(e.m_exceptions[0]) == v); CHECK(th); }
    CHECK( w[0] == 1); CHECK(w[3] == !(th && aw)); CHECK(Tok::live == 0); a.join(); b.join(); vk_cover("done"); }
#endif
