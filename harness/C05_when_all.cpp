//@ run quick threads -DMODE=1 covers:value,error
//@ run quick threads-weak -DMODE=1 --weak covers:value,error
//@ run quick orders -DMODE=2 covers:done
//@ run quick vec -DMODE=3 covers:empty,three
//@ run quick drop -DMODE=4 covers:dropped,awaited
//@ run quick lvalue -DMODE=8 covers:done
//@ run quick kinds -DMODE=5 covers:done
//@ run quick vec-threads -DMODE=6 covers:done
//@ run quick three -DMODE=7 covers:done
//@ run thorough three-weak -DMODE=7 --weak --preempt 2 covers:done
//@ run thorough three-weak-p -DMODE=7 --weak --preempt 3 covers:done
#include "hx.h"
#include <vector>
#include <macoro/when_all.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static int ended, resumed, written[3];
template<class F> int outcome(F f, bool& e) { try { e = false; return f(); } catch (Ex& x) { e = true; return x.v(); } }
static XGate xg[3]; static Gate gate[3];
task<Tok> xt(int i, int v, bool th) { Tok l(v); co_await xg[i]; written[i] = v; if (th) throw Ex(v); co_return Tok(v); }
task<Tok> gt(int i, int v, bool th, bool su) { Tok l(v); if (su) co_await gate[i]; ended++; if (th) throw Ex(v); co_return Tok(v); }
#if MODE == 1    // two children end on two threads; the awaiter takes the results and destroys everything at once
task<void> par(int a, int b, bool ta, bool tb) {
    { auto r = co_await when_all_ready(xt(0, a, ta), xt(1, b, tb)); resumed++; CHECK(resumed == 1); CHECK(written[0] == a && written[1] == b);
      bool e; CHECK(outcome([&] { return std::get<0>(r).result().get(); }, e) == a && e == ta); CHECK(outcome([&] { return std::get<1>(r).result().get(); }, e) == b && e == tb); vk_cover(ta ? "error" : "value"); }
    CHECK(Tok::live == 0);
}
int main() {
    int a = vk_int("a"), b = vk_int("b"); bool ta = vk_flag("ta"), tb = false; VkThread t([] { xg[0].fire(); }); VkThread u([] { xg[1].fire(); });
    t.start(); u.start(); sync_wait(par(a, b, ta, tb)); CHECK(resumed == 1); t.join(); u.join(); CHECK(Tok::live == 0);
}
#elif MODE == 2  // any order of ends on one thread, any mix of values and exceptions; awaited as rvalue or lvalue
Fire par(int* v, bool* th, bool* su, bool lv) {
    bool e;
    if (lv) { auto w = when_all_ready(gt(0, v[0], th[0], su[0]), gt(1, v[1], th[1], su[1]), gt(2, v[2], th[2], su[2])); auto& r = co_await w; resumed++; CHECK(ended == 3);
        CHECK(outcome([&] { return std::get<0>(r).result().get(); }, e) == v[0] && e == th[0]); CHECK(outcome([&] { return std::get<1>(r).result().get(); }, e) == v[1] && e == th[1]); CHECK(outcome([&] { return std::get<2>(r).result().get(); }, e) == v[2] && e == th[2]);
        CHECK(outcome([&] { return std::get<1>(r).result().get(); }, e) == v[1] && e == th[1]); { auto& again = co_await w; CHECK(&again == &r && ended == 3 && resumed == 1); } CHECK(outcome([&] { Tok x = std::move(std::get<2>(r)).result(); return x.get(); }, e) == v[2] && e == th[2]); co_return; }
    auto r = co_await when_all_ready(gt(0, v[0], th[0], su[0]), gt(1, v[1], th[1], su[1]), gt(2, v[2], th[2], su[2])); resumed++; CHECK(ended == 3);
    CHECK(outcome([&] { return std::get<0>(r).result().get(); }, e) == v[0] && e == th[0]); CHECK(outcome([&] { return std::get<1>(r).result().get(); }, e) == v[1] && e == th[1]); CHECK(outcome([&] { return std::get<2>(r).result().get(); }, e) == v[2] && e == th[2]);
}
int main() {
    int v[3] = {vk_int("a"), vk_int("b"), vk_int("c")}; bool th[3] = {vk_flag("ta"), vk_flag("tb"), vk_flag("tc")}, su[3] = {vk_flag("sa"), vk_flag("sb"), vk_flag("sc")}; bool lv = vk_flag("lvalue");
    par(v, th, su, lv); int left = su[0] + su[1] + su[2]; CHECK(resumed == !left); unsigned rot = vk_choose("order", 6); static const char P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int k = 0; k < 3; k++) { int i = P[rot][k]; if (!su[i]) continue; CHECK(resumed == 0); gate[i].fire(); left--; CHECK(resumed == (left == 0)); }
    CHECK(resumed == 1); CHECK(Tok::live == 0); vk_cover("done");
}
#elif MODE == 3  // vectors of 0..3
Fire par(unsigned n, int* v, bool* th, bool* su) {
    std::vector<task<Tok>> q; for (unsigned i = 0; i < n; i++) q.push_back(gt(i, v[i], th[i], su[i])); auto r = co_await when_all_ready(std::move(q)); resumed++; CHECK(ended == (int)n); CHECK(r.size() == n); bool e;
    for (unsigned i = 0; i < n; i++) CHECK(outcome([&] { return r[i].result().get(); }, e) == v[i] && e == th[i]); }
int main() {
    unsigned n = vk_choose("n", 4); int v[3]; bool th[3] = {}, su[3] = {}; int left = 0; for (unsigned i = 0; i < n; i++) { v[i] = vk_int("v"); th[i] = vk_flag("th"); su[i] = vk_flag("su"); left += su[i]; }
    par(n, v, th, su); bool rev = vk_flag("reverse"); CHECK(resumed == !left);
    for (unsigned k = 0; k < n; k++) { int i = rev ? n - 1 - k : k; if (!su[i]) continue; CHECK(resumed == 0); gate[i].fire(); left--; }
    CHECK(resumed == 1); CHECK(Tok::live == 0); if (n == 0) vk_cover("empty"); if (n == 3) vk_cover("three");
}
#elif MODE == 4  // dropped unawaited; moved before it is awaited; lvalue children; empty
Fire aw(auto w, int a, int b) { auto r = co_await std::move(w); bool e; CHECK(outcome([&] { return std::get<0>(r).result().get(); }, e) == a && !e); CHECK(outcome([&] { return std::get<1>(r).result().get(); }, e) == b && !e); resumed++; vk_cover("awaited"); }
Fire lvc(int a, int b) { auto t = gt(0, a, false, false); auto r = co_await when_all_ready(t, gt(1, b, false, false)); CHECK(std::get<0>(r).result().get() == a && std::get<1>(r).result().get() == b); CHECK((co_await t).get() == a); auto x = co_await when_all_ready(); (void)x; resumed++; }
int main() {
    int a = vk_int("a"), b = vk_int("b"); bool drop = vk_flag("drop"), dv = vk_flag("vector");
    if (drop) { if (dv) { std::vector<task<Tok>> q; q.push_back(gt(0, a, false, false)); q.push_back(gt(1, b, false, false)); auto w = when_all_ready(std::move(q)); (void)w; } else { auto w = when_all_ready(gt(0, a, false, false), gt(1, b, false, true)); auto w2 = std::move(w); } CHECK(ended == 0); vk_cover("dropped"); }
    else if (dv) { lvc(a, b); CHECK(resumed == 1); } else { aw(when_all_ready(gt(0, a, false, false), gt(1, b, false, false)), a, b); CHECK(resumed == 1 && ended == 2); }
    CHECK(Tok::live == 0);
}
#elif MODE == 5  // result kinds side by side
static int cell;
task<int> kInt(int v, bool th) { co_await gate[0]; if (th) throw Ex(v); co_return v; }
task<int&> kRef(int v, bool th) { co_await gate[1]; if (th) throw Ex(v); cell = v; co_return cell; }
task<void> kVoid(int v, bool th) { co_await gate[2]; if (th) throw Ex(v); ended++; }
task<Mov> kMov(int v, bool th) { if (th) throw Ex(v); co_return Mov(v); }
eager_task<int> kEag(int v, bool th) { if (th) throw Ex(v); co_return v; }
Fire par(int v, bool t0, bool t1, bool t2) {
    auto r = co_await when_all_ready(kInt(v, t0), kRef(v, t1), kVoid(v, t2), kMov(v, t0), kEag(v, t1)); bool e; resumed++;
    CHECK(outcome([&] { return std::get<0>(r).result(); }, e) == v && e == t0); CHECK(outcome([&] { int& x = std::get<1>(r).result(); CHECK(&x == &cell); return x; }, e) == v && e == t1);
    CHECK(outcome([&] { std::get<2>(r).result(); return v; }, e) == v && e == t2); CHECK(outcome([&] { Mov m = std::move(std::get<3>(r)).result(); return m.get(); }, e) == v && e == t0); CHECK(outcome([&] { return std::get<4>(r).result(); }, e) == v && e == t1);
}
int main() { int v = vk_int("v"); bool t0 = vk_flag("t0"), t1 = vk_flag("t1"), t2 = vk_flag("t2"); par(v, t0, t1, t2); unsigned o = vk_choose("o", 3); for (int k = 0; k < 3; k++) { CHECK(resumed == 0); gate[(o + k) % 3].fire(); } CHECK(resumed == 1 && Tok::live == 0); vk_cover("done"); }
#elif MODE == 6  // a vector whose children end on other threads
task<void> par(int a, int b) { std::vector<task<Tok>> q; q.push_back(xt(0, a, false)); q.push_back(xt(1, b, true)); auto r = co_await when_all_ready(std::move(q)); resumed++; CHECK(written[0] == a && written[1] == b); bool e; CHECK(outcome([&] { return r[0].result().get(); }, e) == a && !e); CHECK(outcome([&] { return r[1].result().get(); }, e) == b && e); }
int main() { int a = vk_int("a"), b = vk_int("b"); VkThread t([] { xg[0].fire(); }); VkThread u([&] { sync_wait(par(a, b)); }); t.start(); u.start(); xg[1].fire(); u.join(); t.join(); CHECK(resumed == 1 && Tok::live == 0); vk_cover("done"); }
#elif MODE == 8  // lvalues that could be copied are awaited where they are
Fire par(Here& x, Here& y, int a, int b) { auto r = co_await when_all_ready(x, gt(0, a, false, false), y); CHECK(std::get<0>(r).result() == x.v && std::get<2>(r).result() == y.v && std::get<1>(r).result().get() == a); resumed++; }
int main() { { Here x(vk_int("x")), y(vk_int("y")); int a = vk_int("a"), b = 0; par(x, y, a, b); CHECKM(x.co == 1 && y.co == 1 && x.g.waiting() && y.g.waiting() && !resumed, "each is awaited in place"); bool f = vk_coin("first"); (f ? x : y).g.fire(); CHECK(!resumed); (f ? y : x).g.fire(); CHECK(resumed == 1 && x.co == 1 && y.co == 1); } CHECK(Tok::live == 0); vk_cover("done"); }
#else            // three children on three threads
task<void> par(int a) { { auto r = co_await when_all_ready(xt(0, a, false), xt(1, a + 1, true), xt(2, a + 2, false)); resumed++; for (int i = 0; i < 3; i++) CHECK(written[i] == a + i); bool e;
    CHECK(outcome([&] { return std::get<0>(r).result().get(); }, e) == a && !e); CHECK(outcome([&] { return std::get<1>(r).result().get(); }, e) == a + 1 && e); CHECK(outcome([&] { return std::get<2>(r).result().get(); }, e) == a + 2 && !e); } CHECK(Tok::live == 0); }
int main() { int a = vk_int("a"); VkThread t([] { xg[0].fire(); }); VkThread u([] { xg[1].fire(); }); VkThread w([&] { sync_wait(par(a)); }); t.start(); u.start(); w.start(); xg[2].fire(); t.join(); u.join(); w.join(); CHECK(resumed == 1 && Tok::live == 0); vk_cover("done"); }
#endif
