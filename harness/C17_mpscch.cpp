//@ run quick hist1 -DMODE=1 -DB=1 -DN=6 covers:full,empty,closed
//@ run quick hist2 -DMODE=1 -DB=2 -DN=5 covers:empty,closed
//@ run quick two1 -DMODE=2 -DB=1 -DITEMS=1 --preempt 2 covers:done
//@ run quick two2 -DMODE=2 -DB=2 -DITEMS=2 --preempt 1 covers:done
//@ run quick two2-weak -DMODE=2 -DB=2 -DITEMS=1 --weak --preempt 1 covers:done
//@ run quick late -DMODE=3 -DB=2 covers:done
//@ run quick hist2-7 -DMODE=1 -DB=2 -DN=7 covers:full,empty,closed
//@ run quick hist4-7 -DMODE=1 -DB=4 -DN=7 covers:empty,closed
//@ run quick two1-p4 -DMODE=2 -DB=1 -DITEMS=1 --preempt 4 covers:done
//@ run thorough two2-p3 -DMODE=2 -DB=2 -DITEMS=2 --preempt 3 covers:done
//@ run thorough two4-p2 -DMODE=2 -DB=4 -DITEMS=3 --preempt 2 covers:done
//@ run thorough two2-weak2 -DMODE=2 -DB=2 -DITEMS=2 --weak --preempt 2 covers:done
//@ run quick hist1-l -DMODE=1 -DB=1 -DN=7 covers:full,empty,closed
//@ run thorough hist2-7-l -DMODE=1 -DB=2 -DN=8 covers:full,empty,closed
//@ run thorough two1-p4-l -DMODE=2 -DB=1 -DITEMS=2 --preempt 4 covers:done
//@ run thorough two1-p4-p -DMODE=2 -DB=1 -DITEMS=1 --preempt 5 covers:done
//@ run thorough two2-p3-l -DMODE=2 -DB=2 -DITEMS=3 --preempt 3 covers:done
//@ run thorough two2-p3-p -DMODE=2 -DB=2 -DITEMS=2 --preempt 4 covers:done
//@ run thorough two2-weak2-l -DMODE=2 -DB=2 -DITEMS=3 --weak --preempt 2 covers:done
//@ run thorough hist4-7-l -DMODE=1 -DB=4 -DN=8 covers:empty,closed
//@ run thorough two4-p2-l -DMODE=2 -DB=4 -DITEMS=4 --preempt 2 covers:done
//@ run thorough two4-p2-p -DMODE=2 -DB=4 -DITEMS=3 --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/optional.h>
#include <macoro/channel.h>
using namespace macoro;
using Ch = mpsc::channel<Mov>; using Tx = mpsc::channel_sender<Mov>; using Rx = mpsc::channel_receiver<Mov>;
#if MODE == 1   // any history of two senders and one receiver on one thread
static int order[24], claimed, got; static bool pub[24], sbusy[2], rbusy, eof, closing; static int at[2] = {-1, -1}, nth[2]; static Tx::push_wrapper hold[2];
Fire push(Tx& t, int p) { sbusy[p] = true; int i = at[p] = claimed++; order[i] = 100 * (p + 1) + nth[p]++; hold[p] = co_await t.push(); CHECKM(i < got + B, "pushed beyond the capacity"); sbusy[p] = false; }
Fire close(Tx& t, int p) { sbusy[p] = closing = true; int i = at[p] = claimed++; order[i] = -1; co_await t.close(); pub[i] = true; at[p] = -1; sbusy[p] = false; }
static void finish(int p, int how) { if (how) hold[p] = Mov(order[at[p]]); else { Mov m(order[at[p]]); hold[p] = std::move(m); } pub[at[p]] = true; int i = at[p]; at[p] = -1; (void)i; auto w = std::move(hold[p]); }
Fire take(Rx& r, int how) { rbusy = true; int i = got; try { if (how) { auto& m = co_await r.front(); CHECKM(pub[i] && m.get() == order[i], "items are received in the order of their places"); } auto w = co_await r.pop(); CHECKM(pub[i] && w->get() == order[i], "every item is received once, in its place"); got = i + 1; } catch (channel_closed_exception&) { CHECKM(i < claimed && order[i] == -1, "closed is reported only at a close"); eof = true; vk_cover("closed"); } rbusy = false; }
int main() {
    { auto [t, r] = mpsc::make_channel<Mov>(B); Tx t1 = t; Tx* tx[2] = {&t, &t1};
    for (int i = 0; i < N; i++) { int p = (int)vk_choose("sender", 2); switch (vk_choose("op", 4)) {
        case 0: if (sbusy[p] || at[p] >= 0 || closing) break; push(*tx[p], p); break;
        case 1: if (sbusy[p] || at[p] < 0) break; finish(p, vk_coin("how")); break;
        case 2: if (sbusy[p] || at[p] >= 0 || closing) break; close(*tx[p], p); break;
        case 3: if (rbusy || eof) break; take(r, vk_coin("look")); break; }
        if (rbusy) { CHECKM(!pub[got], "a receiver is suspended only while its next item is missing"); vk_cover("empty"); } for (int p = 0; p < 2; p++) if (sbusy[p]) { CHECKM(at[p] >= got + B, "a sender is suspended only while the channel is full"); vk_cover("full"); } vk_merge(); }
    for (int i = 0; i < 30 && !eof; i++) { for (int p = 0; p < 2; p++) if (!sbusy[p] && at[p] >= 0) finish(p, 0); for (int p = 0; p < 2; p++) if (!closing && !sbusy[p] && at[p] < 0) close(*tx[p], p); if (!rbusy && !eof) take(r, 0); } CHECKM(eof && !rbusy, "nobody stays suspended"); 
    bool again = false; auto f = [&]() -> Fire { try { Mov m = co_await r.pop(); } catch (channel_closed_exception&) { again = true; } }; f(); CHECKM(again, "a closed channel stays closed"); if (sbusy[0] || sbusy[1] || at[0] >= 0 || at[1] >= 0) { vk_noleak(); return 0; } }
    CHECKM(Tok::live == 0, "every item is destroyed once");
}
#elif MODE == 2 // two senders and a receiver on three threads; the last sender to finish closes
static std::atomic<int> left{2}; static int fin[3];
Fire sender(Tx& t, int p, int x0) { for (int i = 0; i < ITEMS; i++) { auto w = co_await t.push(); w = Mov(x0 + 100 * p + i); } if (left.fetch_sub(1, std::memory_order_acq_rel) == 1) co_await t.close(); fin[p]++; }
Fire receiver(Rx& r, int x0) { int next[2] = {}; try { for (;;) { auto w = co_await r.pop(); int v = w->get() - x0; int p = v >= 100; CHECKM(v - 100 * p == next[p], "each sender's items arrive once, unmodified, in order"); next[p]++; } } catch (channel_closed_exception&) { CHECKM(next[0] == ITEMS && next[1] == ITEMS, "closed is observed after everything"); fin[2]++; } }
int main() {
    { auto [t, r] = mpsc::make_channel<Mov>(B); int x0 = vk_int("item"); vk_assume(x0 > -1000000 && x0 < 1000000); Tx t1 = t; VkThread a([&] { sender(t, 0, x0); }); VkThread b([&] { sender(t1, 1, x0); }); VkThread c([&] { receiver(r, x0); }); a.start(); b.start(); c.start(); a.join(); b.join(); c.join(); CHECKM(fin[0] == 1 && fin[1] == 1 && fin[2] == 1, "nobody stays suspended"); }
    CHECKM(Tok::live == 0, "every item is destroyed once"); vk_cover("done"); }
#else           // an operation that is not awaited is not performed; copies of a sender share one channel
int main() {
    CHECKM(!std::is_copy_constructible_v<Rx> && !std::is_copy_assignable_v<Rx>, "there is one receiver"); CHECKM(std::is_copy_constructible_v<Tx>, "senders are copied");
    { auto [t, r] = mpsc::make_channel<Mov>(B); bool sec = false; Tx e; { Tx c = t; e = std::move(c); } int got = 0; { auto unused = t.push(); auto unused2 = e.close(); (void)unused; (void)unused2; }
      auto g = [&]() -> Fire { auto pa = r.pop(); auto pb = r.pop(); { auto w = co_await pa; CHECKM(w->get() == 1, "an operation that is not awaited is not performed"); got = 1; } { auto w = co_await pb; CHECKM(sec && w->get() == 2, "a receiver waits for the item that is next when it awaits"); got = 2; } try { auto w = co_await r.pop(); } catch (channel_closed_exception&) { got = 3; } }; g();
      auto f = [&]() -> Fire { auto a = t.push(); auto b = e.push(); { auto w = co_await b; w = Mov(1); } CHECKM(got == 1, "received when sent"); { auto w = co_await a; sec = true; w = Mov(2); } co_await e.close(); }; f(); CHECK(got == 3); }
    CHECK(Tok::live == 0); vk_cover("done"); }
#endif
