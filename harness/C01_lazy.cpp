//@ run quick histories -DMODE=1 -DN=4 covers:value,error,nested-suspend,dropped,broken
//@ run quick kinds -DMODE=2 covers:int,tok,mov,ref,void,threw
//@ run quick chain -DMODE=3 -DDEPTH=3 covers:value,caught-inside,caught-outside
//@ run quick abandon -DMODE=4 covers:abandoned-before,abandoned-suspended
//@ run quick threads -DMODE=5 covers:done
//@ run quick threads-weak -DMODE=5 --weak covers:done
//@ run quick histories5 -DMODE=1 -DN=5 covers:value,error
//@ run quick chain6 -DMODE=3 -DDEPTH=6 covers:value
//@ run thorough histories5-l -DMODE=1 -DN=6 covers:value,error
//@ run quick chain6-l -DMODE=3 -DDEPTH=7 covers:value
#include "hx.h"
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static int started, finished;
task<Tok> body(Tok param, bool susp, bool thr, Gate& g) {
    started++; Tok local(param.get());
    if (susp) { int got = co_await g; CHECK(got == g.val); }
    CHECK(local.get() == param.get());
    finished++;
    if (thr) throw Ex(local.get() + 7);
    co_return Tok(local.get() + 1);
}
struct Slot { task<Tok> t; bool has = false, ran = false, susp = false, thr = false; int v = 0; };
static Gate gate; static int resumed; static bool sawErr, sawBroken; static int sawVal;
Fire awaitL(task<Tok>& t) { sawErr = sawBroken = false; try { Tok& r = co_await t; sawVal = r.get(); } catch (Ex& e) { sawErr = true; sawVal = e.v(); } catch (broken_promise&) { sawBroken = true; } resumed++; }
Fire awaitR(task<Tok>& t) { sawErr = sawBroken = false; try { Tok r = co_await std::move(t); sawVal = r.get(); } catch (Ex& e) { sawErr = true; sawVal = e.v(); } catch (broken_promise&) { sawBroken = true; } resumed++; }
Fire awaitReady(task<Tok>& t) { co_await t.when_ready(); resumed++; }
static void doAwait(Slot& s, int how) {
    if (how == 2 && !s.has) return;
    int st0 = started, fi0 = finished; resumed = 0;
    if (how == 0) awaitL(s.t); else if (how == 1) awaitR(s.t); else awaitReady(s.t);
    if (!s.has) { CHECK(resumed == 1); CHECK(sawBroken); vk_cover("broken"); return; }
    if (s.ran) { CHECK(resumed == 1); CHECK(started == st0); }
    else {
        CHECK(started == st0 + 1);
        if (s.susp) { vk_cover("nested-suspend"); CHECK(resumed == 0); CHECK(finished == fi0); CHECK(gate.waiting()); CHECK(!s.t.is_ready()); gate.val = s.v; gate.fire(); }
        CHECK(resumed == 1); CHECK(finished == fi0 + 1); s.ran = true;
    }
    CHECK(s.t.is_ready());
    if (how != 2) { CHECK(sawErr == s.thr); CHECK(!sawBroken); CHECK(sawVal == (s.thr ? s.v + 7 : s.v + 1)); vk_cover(s.thr ? "error" : "value"); }
    if (how == 1 && !s.thr) { s.t = task<Tok>{}; s.has = false; s.ran = false; }  // the value was moved out
}
static void out_reset() { sawVal = 0; sawErr = sawBroken = false; started = finished = resumed = 0; gate = Gate(); }
static void modeHistories() {
    {
        Slot s[2]; 
        for (int i = 0; i < N; i++) {
            unsigned op = vk_choose("op", 7); unsigned k = vk_choose("slot", 2); bool su = vk_flag("susp"), th = vk_flag("thr"); int v = vk_int("v"); Slot& a = s[k]; Slot& b = s[1 - k];
            switch (op) {
            case 0: { int st0 = started; a.t = body(Tok(v), su, th, gate); CHECK(started == st0); if (a.has && !a.ran) vk_cover("dropped"); a.has = true; a.ran = false; a.susp = su; a.thr = th; a.v = v; CHECK(!a.t.is_ready()); break; }
            case 1: a.t = std::move(b.t); { bool h = b.has, r = b.ran, su = b.susp, th = b.thr; int v = b.v; b.has = b.ran = false; a.has = h; a.ran = r; a.susp = su; a.thr = th; a.v = v; } break;
            case 2: { task<Tok> tmp(std::move(a.t)); CHECK(!a.t.handle()); if (a.has && !a.ran) vk_cover("dropped"); a.has = a.ran = false; break; }
            case 3: { auto& self = a.t; a.t = std::move(self); break; }
            case 4: doAwait(a, 0); break;
            case 5: doAwait(a, 1); break;
            case 6: doAwait(a, 2); break;
            }
            CHECK(a.t.is_ready() == (a.has && a.ran)); out_reset(); vk_merge();
        }
    }
    CHECK(Tok::live == 0);
}
// every kind of result
static int cell;
task<int> kInt(int v, bool th, Gate& g) { co_await g; if (th) throw Ex(v); co_return v; }
task<Mov> kMov(int v, bool th, Gate& g) { co_await g; if (th) throw Ex(v); co_return Mov(v); }
task<int&> kRef(int v, bool th, Gate& g) { co_await g; if (th) throw Ex(v); cell = v; co_return cell; }
task<void> kVoid(int v, bool th, Gate& g) { co_await g; if (th) throw Ex(v); cell = v; }
task<std::unique_ptr<int>> kPtr(int v, bool th, Gate& g) { co_await g; if (th) throw Ex(v); co_return std::make_unique<int>(v); }
static int out; static bool threw; static int done_;
Fire rInt(int v, bool th, bool l) { try { if (l) { auto t = kInt(v, th, gate); int& r = co_await t; r++; out = (co_await t) - 1; } else out = co_await kInt(v, th, gate); } catch (Ex& e) { threw = true; out = e.v(); } done_++; }
Fire rMov(int v, bool th, bool l) { try { if (l) { auto t = kMov(v, th, gate); Mov& r = co_await t; out = r.get(); } else { Mov m = co_await kMov(v, th, gate); out = m.get(); } } catch (Ex& e) { threw = true; out = e.v(); } done_++; }
Fire rRef(int v, bool th, bool l) { try { if (l) { auto t = kRef(v, th, gate); int& r = co_await t; CHECK(&r == &cell); out = r; } else { int& r = co_await kRef(v, th, gate); CHECK(&r == &cell); out = r; } } catch (Ex& e) { threw = true; out = e.v(); } done_++; }
Fire rVoid(int v, bool th, bool l) { try { if (l) { auto t = kVoid(v, th, gate); co_await t; co_await t; } else co_await kVoid(v, th, gate); out = cell; } catch (Ex& e) { threw = true; out = e.v(); } done_++; }
Fire rPtr(int v, bool th, bool l) { try { if (l) { auto t = make_task(kPtr(v, th, gate)); auto& p = co_await t; out = *p; } else { auto p = co_await kPtr(v, th, gate); out = *p; } } catch (Ex& e) { threw = true; out = e.v(); } done_++; }
static void modeKinds() {
    unsigned k = vk_choose("kind", 5); int v = vk_int("v"); bool th = vk_flag("thr"), l = vk_flag("lvalue");
    switch (k) { case 0: rInt(v, th, l); vk_cover("int"); break; case 1: rMov(v, th, l); vk_cover("mov"); break; case 2: rRef(v, th, l); vk_cover("ref"); break; case 3: rVoid(v, th, l); vk_cover("void"); break; case 4: rPtr(v, th, l); vk_cover("tok"); break; }
    CHECK(done_ == 0); CHECK(gate.waiting()); gate.fire(); CHECK(done_ == 1); CHECK(threw == th); CHECK(out == v); if (th) vk_cover("threw"); CHECK(Tok::live == 0);
}
// a chain of awaiting tasks; one level throws, one level catches
task<Tok> chain(int d, int thrAt, int catchAt, int suspAt, int v) {
    Tok l(v + d);
    if (suspAt == d) co_await gate;
    if (thrAt == d) throw Ex(v * 2);
    if (d == 0) co_return Tok(v);
    int r;
    try { Tok x = co_await chain(d - 1, thrAt, catchAt, suspAt, v); r = x.get() + 1; }
    catch (Ex& e) { CHECK(thrAt < d); CHECK(e.v() == v * 2); if (catchAt != d) throw; r = -d; vk_cover("caught-inside"); }
    CHECK(l.get() == v + d); co_return Tok(r);
}
Fire rChain(int a, int b, int c, int v) { try { Tok t = co_await chain(DEPTH, a, b, c, v); out = t.get(); } catch (Ex& e) { threw = true; out = e.v(); } done_++; }
static void modeChain() {
    int a = (int)vk_choose("throwAt", DEPTH + 2), b = (int)vk_choose("catchAt", DEPTH + 1), c = (int)vk_choose("suspAt", DEPTH + 2); int v = vk_int("v");
    rChain(a, b, c, v); bool reaches = true; if (a <= DEPTH && c <= DEPTH && a > c) reaches = false; // the throw happens above the suspension point: lower levels never run
    if (gate.waiting()) { CHECK(done_ == 0); gate.fire(); } (void)reaches;
    CHECK(done_ == 1); bool caught = b > a; 
    if (a > DEPTH) { CHECK(!threw); CHECK(out == v + DEPTH); vk_cover("value"); }
    else if (caught) { CHECK(!threw); CHECK(out == -b + (DEPTH - b)); }
    else { CHECK(threw); CHECK(out == v * 2); vk_cover("caught-outside"); }
    CHECK(Tok::live == 0);
}
// the outer coroutine is destroyed while suspended inside a task
struct Held { struct promise_type { Held get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vk_fail("exception"); } }; std::coroutine_handle<promise_type> h; };
Held hold(int v, bool aw) { auto t = body(Tok(v), true, false, gate); Tok l(v); if (aw) co_await t; else co_await gate; vk_fail("resumed after destruction"); }
static void modeAbandon() {
    int v = vk_int("v"); bool aw = vk_flag("await"); Held h = hold(v, aw); CHECK(started == (aw ? 1 : 0)); CHECK(gate.waiting()); CHECK(!h.h.done());
    h.h.destroy(); CHECK(finished == 0); CHECK(Tok::live == 0); vk_cover(aw ? "abandoned-suspended" : "abandoned-before");
}
// the task hops to another thread while its awaiter is blocked
static XGate xg; static int shared;
task<int> hopping(int v, bool th) { shared = v; co_await xg; int r = shared; shared = v + 5; if (th) throw Ex(r); co_return r; }
task<int> outer(int v, bool th) { int r = co_await hopping(v, th); CHECK(shared == v + 5); co_return r; }
static void modeThreads() {
    int v = vk_int("v"); bool th = vk_flag("thr"); VkThread t([] { xg.fire(); }); t.start(); bool e = false; int r = 0;
    try { r = sync_wait(outer(v, th)); } catch (Ex& x) { e = true; r = x.v(); }
    CHECK(e == th); CHECK(r == v); CHECK(shared == v + 5); t.join(); CHECK(Tok::live == 0); vk_cover("done");
}
int main() {
#if MODE == 1
    modeHistories();
#elif MODE == 2
    modeKinds();
#elif MODE == 3
    modeChain();
#elif MODE == 4
    modeAbandon();
#else
    modeThreads();
#endif
}
