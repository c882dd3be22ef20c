//@ run quick loops -DMODE=1 covers:done
//@ run quick nest -DMODE=2 covers:value,error,gated
//@ run quick waiters -DMODE=3 covers:done
//@ run quick passing -DMODE=4 -DIT=20 covers:done
//@ run quick pool -DMODE=5 --lazytime --preempt 1 covers:done
//@ run thorough loops40 -DMODE=1 -DIT=40 covers:done
//@ run thorough nest24 -DMODE=2 -DIT=24 covers:value,error,gated
//@ run thorough waiters40 -DMODE=3 -DIT=40 covers:done
//@ run thorough passing60 -DMODE=4 -DIT=60 covers:done
//@ run quick pool-p -DMODE=5 --lazytime --preempt 2 covers:done
#include "hx.h"
#include <vector>
#include <macoro/task.h>
#include <macoro/wrap.h>
#include <macoro/when_all.h>
#include <macoro/start_on.h>
#include <macoro/inline_scheduler.h>
#include <macoro/async_scope.h>
#include <macoro/when_all_scope.h>
#include <macoro/take_until.h>
#include <macoro/sync_wait.h>
#include <macoro/manual_reset_event.h>
#include <macoro/barrier.h>
#include <macoro/stop.h>
#include <macoro/macros.h>
#include <macoro/thread_pool.h>
#include <macoro/sequence_barrier.h>
#include <macoro/sequence_spsc.h>
#include <macoro/sequence_mpsc.h>
#include <macoro/channel.h>
#include <macoro/transfer_to.h>
using namespace macoro;
#ifndef IT
#define IT 10
#endif
// how deep the stack is at the turns of the first half bounds how deep it is later
static void shallow(uint64_t* a, int n, const char* m) { a[n] = vk_depth(); uint64_t most = 0; for (int i = 0; i < IT / 2 && i < n; i++) most = a[i] > most ? a[i] : most; CHECKM(n < IT / 2 || a[n] <= most, m); }
#if MODE == 1
static uint64_t at[IT]; static int turns;
static void turn(int i) { shallow(at, i, "the stack grows with the number of awaits"); turns++; }
task<int> one(int v) { co_return v; }
task<int> bad(int v) { throw Ex(v); co_return v; }
eager_task<int> eag(int v) { co_return v; }
task<int> mone(int v) { MC_BEGIN(task<int>, v); MC_RETURN(v); MC_END(); }
task<int> two(int v) { co_return co_await one(v); }
task<int> mtwo(int v) { MC_BEGIN(task<int>, v, r = int()); MC_AWAIT_SET(r, mone(v)); MC_RETURN(r); MC_END(); }
task<int> mthree(int v) { MC_BEGIN(task<int>, v, r = int()); MC_AWAIT_SET(r, mtwo(v)); MC_RETURN(r); MC_END(); }
struct until { bool stop = false; bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} void await_resume() {} void request_stop() { stop = true; } };
template<class F> Fire nat(F f) { for (int i = 0; i < IT; i++) { int r = co_await f(i); CHECK(r == i); turn(i); } }
template<class F> task<int> natT(F f) { for (int i = 0; i < IT; i++) { int r = co_await f(i); CHECK(r == i); turn(i); } co_return 7; }
template<class F> task<int> mac(F f) { MC_BEGIN(task<int>, f, i = int(0), r = int()); for (i = 0; i < IT; i++) { MC_AWAIT_SET(r, f(i)); CHECK(r == i); turn(i); } MC_RETURN(7); MC_END(); }
Fire readyLoop() { for (int i = 0; i < IT; i++) { auto r = co_await when_all_ready(one(i), two(i)); CHECK(std::get<1>(r).result() == i); turn(i); } }
Fire wrapLoop() { for (int i = 0; i < IT; i++) { auto r = co_await wrap(bad(i)); CHECK(r.has_error()); turn(i); } }
Fire badLoop() { for (int i = 0; i < IT; i++) { try { co_await bad(i); CHECK(false); } catch (Ex& e) { CHECK(e.v() == i); } turn(i); } }
Fire scopeLoop() { async_scope s; for (int i = 0; i < IT; i++) { int r = co_await s.add(two(i)); CHECK(r == i); turn(i); } co_await s; }
Fire joinLoop() { for (int i = 0; i < IT; i++) { async_scope s; { auto t = s.add(two(i)); } co_await s; turn(i); } }
Fire wasLoop() { for (int i = 0; i < IT; i++) { co_await [](int i) -> when_all_scope { auto t = co_await scoped(one(i)); int r = co_await std::move(t); CHECK(r == i); }(i); turn(i); } }
Fire eventLoop() { async_manual_reset_event e(true); for (int i = 0; i < IT; i++) { co_await e; turn(i); } }
Fire vecLoop() { for (int i = 0; i < IT; i++) { std::vector<task<int>> v; v.push_back(one(i)); v.push_back(two(i)); auto r = co_await when_all_ready(std::move(v)); CHECK(r[1].result() == i); turn(i); } }
Fire stopLoop() { stop_source s; s.request_stop(); for (int i = 0; i < IT; i++) { co_await s.get_token(); turn(i); } }
Fire claimLoop() { sequence_barrier<> c; sequence_spsc<> s(c, 8); for (int i = 0; i < IT; i++) { auto k = co_await s.claim_one(); CHECK(k == i); s.publish(k); co_await s.wait_until_published(k, k - 1); c.publish(k); turn(i); } }
Fire claimManyLoop() { sequence_barrier<> c; sequence_mpsc<> s(c, 8); for (int i = 0; i < IT; i++) { auto k = co_await s.claim_one(); CHECK(k == i); s.publish(k); co_await s.wait_until_published(k, k - 1); c.publish(k); turn(i); } }
template<class F> void inN(F f) { if (vk_coin("blocking")) { int r = sync_wait(natT(f)); CHECK(r == 7); } else nat(f); }
template<class F> void inM(F f) { int r = sync_wait(mac(f)); CHECK(r == 7); }
#define CASE(n, IN, ...) case n: IN([&](int i) { return __VA_ARGS__; }); break;
int main() {
    inline_scheduler is;
    switch (vk_choose("what", 20)) {
    CASE(0, inN, one(i)) CASE(1, inN, two(i)) CASE(2, inM, mone(i)) CASE(3, inM, mtwo(i)) CASE(4, inM, mthree(i)) CASE(5, inN, eag(i)) CASE(6, inN, start_on(is, two(i))) CASE(7, inN, one(i) | start_on(is)) CASE(8, inN, take_until(two(i), until{})) CASE(9, inN, [](int i) -> task<int> { auto r = co_await wrap(one(i)); co_return r.value(); }(i))
    case 10: readyLoop(); break; case 11: wrapLoop(); break; case 12: badLoop(); break; case 13: scopeLoop(); break; case 14: joinLoop(); break;
    case 15: wasLoop(); break; case 16: eventLoop(); break; case 17: vecLoop(); break; case 18: stopLoop(); break; case 19: if (vk_coin("one producer")) claimLoop(); else claimManyLoop(); break;
    }
    CHECK(turns == IT); vk_cover("done");
}
#elif MODE == 2   // a chain of tasks that await each other: going down, and coming back up
static uint64_t down[IT], up[IT]; static Gate g; static bool gated, thr;
static void level(uint64_t* a, int d, int from) { shallow(a, from ? from - d : d, "the stack grows with the length of the chain"); }
static int leaf(int v) { if (thr) throw Ex(v); return v; }
template<int K> task<int> rec(int d, int v) { if constexpr (K < 2) level(down, d, 0); if (d == IT - 1) { if (gated) co_await g; co_return leaf(v); }
    int r; std::exception_ptr e; try { if constexpr (K == 0) r = co_await rec<K>(d + 1, v); else { auto w = co_await wrap(rec<K>(d + 1, v)); if (w.has_error()) std::rethrow_exception(w.error()); r = w.value(); } } catch (Ex&) { e = std::current_exception(); }
    level(up, d, IT - 2); if (e) std::rethrow_exception(e); co_return r; }
task<int> mrec(int d, int v) { MC_BEGIN(task<int>, d, v, r = int()); level(down, d, 0); if (d == IT - 1) { if (gated) MC_AWAIT(g); MC_RETURN(leaf(v)); } MC_AWAIT_SET(r, mrec(d + 1, v)); level(up, d, IT - 2); MC_RETURN(r); MC_END(); }
eager_task<int> erec(int d, int v) { if (d == IT - 1) { co_await g; co_return leaf(v); } int r = co_await erec(d + 1, v); level(up, d, IT - 2); co_return r; }
static int ends, got; static bool threw;
template<class F> Fire top(F f, int v) { try { got = co_await f(0, v); } catch (Ex& e) { threw = true; got = e.v(); } ends++; }
int main() { int v = vk_int("v"), k = (int)vk_choose("kind", 4); thr = vk_flag("throws"); gated = k == 3 || vk_coin("gated"); switch (k) { case 0: top(rec<0>, v); break; case 1: top(rec<1>, v); break; case 2: if (thr) return 0; top(mrec, v); break; case 3: if (thr) return 0; top(erec, v); break; }
    if (gated) { CHECK(ends == 0); g.fire(); vk_cover("gated"); } CHECK(ends == 1 && threw == thr && got == v); vk_cover(thr ? "error" : "value"); }
#elif MODE == 3   // many waiters released at once
static uint64_t d[IT]; static int n; static void woken() { shallow(d, n, "the stack grows with the number of waiters"); n++; }
template<class F> Fire wait(F f) { co_await f(); woken(); }
int main() { switch (vk_choose("what", 5)) {
    case 0: { async_manual_reset_event e; for (int i = 0; i < IT; i++) wait([&] { return e.operator co_await(); }); CHECK(n == 0); e.set(); break; }
    case 1: { sequence_barrier<> b; for (int i = 0; i < IT; i++) wait([&] { return b.wait_until_published(i); }); CHECK(n == 0); b.publish(IT); break; }
    case 2: { sequence_barrier<> c; sequence_mpsc<> s(c, 64); auto claim = [](auto& s) -> Fire { for (int i = 0; i < IT; i++) co_await s.claim_one(); }; claim(s); for (int i = 0; i < IT; i++) wait([&] { return s.wait_until_published(i, -1); }); CHECK(n == 0); for (int i = IT - 1; i >= 0; i--) s.publish(i); break; }
    case 3: { stop_source s; for (int i = 0; i < IT; i++) wait([t = s.get_token()] { return t; }); CHECK(n == 0); s.request_stop(); break; }
    case 4: { barrier b(1); auto f = [](barrier& b) -> Fire { for (int i = 0; i < IT; i++) { co_await b; woken(); b.increment(); } }; f(b); for (int i = 0; i < IT; i++) { CHECK(n == i); b.decrement(); } break; }
    } CHECK(n == IT); vk_cover("done"); }
#elif MODE == 4   // two coroutines on one thread pass items, capacity 1 to 4
static uint64_t a[IT], b[IT]; static int na, nb; static void turn(uint64_t* x, int& n) { shallow(x, n, "the stack grows with the number of items"); n++; }
template<class T> Fire send(T tx) { for (int i = 0; i < IT; i++) { { auto w = co_await tx.push(); w = i; } turn(a, na); } co_await tx.close(); }
template<class R> Fire recv(R rx) { for (int i = 0; i < IT; i++) { int v; { auto w = co_await rx.pop(); v = *w; } CHECK(v == i); turn(b, nb); } }
template<class T, class R> void go(T tx, R rx) { if (vk_coin("receiver first")) { recv(std::move(rx)); send(std::move(tx)); } else { send(std::move(tx)); recv(std::move(rx)); } CHECK(na == IT && nb == IT); }
int main() { unsigned cap = 1u << vk_choose("capacity", 3); if (vk_coin("mpsc")) { auto [tx, rx] = mpsc::make_channel<int>(cap); go(std::move(tx), std::move(rx)); } else { auto [tx, rx] = spsc::make_channel<int>(cap); go(std::move(tx), std::move(rx)); } vk_cover("done"); }
#elif MODE == 5   // a pool's worker
static uint64_t d[IT]; static int n; static void turn() { shallow(d, n, "the stack grows with the number of jobs"); n++; }
Fire job(thread_pool& p, unsigned k, thread_pool::work w) { for (int i = 0; i < IT; i++) { if (i == 0 || k == 0) co_await p.post(); else if (k == 1) co_await p.dispatch(); else if (k == 2) co_await p.schedule_after(std::chrono::milliseconds(1)); else co_await transfer_to(p); turn(); } }
int main() { { thread_pool::work g; thread_pool p(1, g); job(p, vk_choose("how", 4), std::move(g)); p.join(); CHECK(n == IT); } vk_cover("done"); }
#endif
