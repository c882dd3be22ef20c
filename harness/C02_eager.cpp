//@ run quick await -DMODE=1 covers:value,error
//@ run quick await-weak -DMODE=1 --weak covers:value,error
//@ run quick poll -DMODE=2 covers:polled-ready,value,error
//@ run quick poll-weak -DMODE=2 --weak covers:polled-ready,value
//@ run quick three -DMODE=3 covers:value
//@ run quick kinds -DMODE=4 covers:done
//@ run quick histories -DMODE=5 -DN=4 covers:ready-first,awaited-suspended
//@ run quick three-weak -DMODE=3 --weak covers:value
//@ run quick histories5 -DMODE=5 -DN=6 covers:ready-first
//@ run thorough histories5-l -DMODE=5 -DN=7 covers:ready-first
#include "hx.h"
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static XGate xg; static int written; static Gate gate;
eager_task<Tok> body(int v, bool thr) { Tok l(v); co_await xg; written = v + 1; if (thr) throw Ex(v); co_return Tok(v + 2); }
struct Fin { std::atomic<int> n{0}; };
static int resumed;
template<class T> task<int> waiter(T& t, int v) { int r; try { Tok& x = co_await t; r = x.get(); } catch (Ex& e) { r = -e.v(); } resumed++; CHECK(written == v + 1); co_return r; }
static void fin(int r, int v, bool thr) { CHECK(resumed == 1); CHECK(r == (thr ? -v : v + 2)); vk_cover(thr ? "error" : "value"); }
#if MODE == 1   // one thread finishes, the other awaits and then destroys
int main() {
    int v = vk_int("v"); bool thr = vk_flag("thr"); VkThread t([] { xg.fire(); });
    { eager_task<Tok> e = body(v, thr); t.start(); int r = sync_wait(waiter(e, v)); fin(r, v, thr); CHECK(e.is_ready()); }
    t.join(); CHECK(Tok::live == 0);
}
#elif MODE == 2 // is_ready polled while it finishes; once true the result is there and the frame may go
int main() {
    int v = vk_int("v"); bool thr = vk_flag("thr"); VkThread t([] { xg.fire(); });
    { eager_task<Tok> e = body(v, thr); CHECK(!e.is_ready()); t.start();
      for (int i = 0; i < 2; i++) if (e.is_ready()) { vk_cover("polled-ready"); CHECK(written == v + 1); auto aw = static_cast<const eager_task<Tok>&>(e).operator co_await(); CHECK(aw.await_ready()); break; }
      int r = sync_wait(waiter(e, v)); fin(r, v, thr); }
    t.join(); CHECK(Tok::live == 0);
}
#elif MODE == 3 // created here, finished on one thread, awaited on another
int main() {
    int v = vk_int("v"); bool thr = false; VkThread t([] { xg.fire(); }); eager_task<Tok> e = body(v, thr); int r = 0;
    VkThread w([&] { r = sync_wait(waiter(e, v)); e = eager_task<Tok>{}; });
    w.start(); t.start(); w.join(); fin(r, v, thr); t.join(); CHECK(Tok::live == 0);
}
#elif MODE == 4
static int cell;
eager_task<int> kInt(int v, bool th) { co_await xg; if (th) throw Ex(v); co_return v; }
eager_task<int&> kRef(int v, bool th) { co_await xg; if (th) throw Ex(v); cell = v; co_return cell; }
eager_task<void> kVoid(int v, bool th) { co_await xg; if (th) throw Ex(v); cell = v; }
eager_task<Mov> kMov(int v, bool th) { co_await xg; if (th) throw Ex(v); co_return Mov(v); }
int main() {
    int v = vk_int("v"); bool th = vk_flag("thr"); unsigned k = vk_choose("kind", 5); VkThread t([] { xg.fire(); }); bool e = false; int r = 0; t.start();
    try { switch (k) { case 0: r = sync_wait(kInt(v, th)); break; case 1: { int& x = sync_wait(kRef(v, th)); CHECK(&x == &cell); r = x; break; } case 2: sync_wait(kVoid(v, th)); r = cell; break; case 3: { auto m = kMov(v, th); r = sync_wait(std::move(m)).get(); break; } case 4: { r = sync_wait(kInt(v, th) | make_eager()); break; } } } catch (Ex& x) { e = true; r = x.v(); }
    CHECK(e == th); CHECK(r == v); t.join(); CHECK(Tok::live == 0); vk_cover("done");
}
#else           // one thread: order of start, finish, await, poll, move, drop
static int started, finished; static int got; 
eager_task<Tok> sbody(int v, bool susp, bool thr, Gate& g) { started++; if (susp) co_await g; finished++; if (thr) throw Ex(v); co_return Tok(v); }
Fire aw(eager_task<Tok>& t) { try { Tok& x = co_await t; got = x.get(); } catch (Ex& e) { got = ~e.v(); } catch (broken_promise&) { got = 77; } resumed++; }
int main() {
    {
        eager_task<Tok> t, u; bool has = false, pend = false, waiting = false, thr = false; int v = 0; Gate g;
        for (int i = 0; i < N; i++) {
            unsigned op = vk_choose("op", 5); bool su = vk_flag("susp"), th = vk_flag("thr"); int x = vk_int("v"); got = 0; resumed = 0; started = finished = 0;
            switch (op) {
            case 0: if (pend) break; t = sbody(x, su, th, g); CHECK(started == 1); has = true; pend = su; thr = th; v = x; CHECK(finished == !su); break;
            case 1: if (!pend) break; g.fire(); CHECK(finished == 1); pend = false; if (waiting) { CHECK(resumed == 1); CHECK(got == (thr ? ~v : v)); waiting = false; } else CHECK(resumed == 0); break;
            case 2: if (waiting) break; aw(t); if (!has) { CHECK(resumed == 1 && got == 77); } else if (pend) { CHECK(resumed == 0); waiting = true; vk_cover("awaited-suspended"); } else { CHECK(resumed == 1); CHECK(got == (thr ? ~v : v)); vk_cover("ready-first"); } break;
            case 3: u = std::move(t); CHECK(!t.is_ready()); t = std::move(u); break;
            case 4: if (waiting || pend) break; t = eager_task<Tok>{}; has = false; break;
            }
            CHECK(t.is_ready() == (has && !pend)); vk_merge();
        }
        if (pend) { g.fire(); }
    }
    CHECK(Tok::live == 0);
}
#endif
