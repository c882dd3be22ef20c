//@ run quick hist1 -DMODE=1 -DB=1 -DN=5 covers:full,empty,closed,two
//@ run quick hist2 -DMODE=1 -DB=2 -DN=5 covers:full,empty,closed,two
//@ run quick hist4 -DMODE=1 -DB=4 -DN=5 covers:empty,closed,two
//@ run quick two1 -DMODE=2 -DB=1 -DITEMS=2 covers:done
//@ run quick two2 -DMODE=2 -DB=2 -DITEMS=2 covers:done
//@ run quick two1-weak -DMODE=2 -DB=1 -DITEMS=1 --weak covers:done
//@ run quick two2-weak -DMODE=2 -DB=2 -DITEMS=2 --weak --preempt 2 covers:done
//@ run quick late -DMODE=3 -DB=2 covers:done
//@ run quick hist1-8 -DMODE=1 -DB=1 -DN=8 covers:full,empty,closed,two
//@ run quick hist2-8 -DMODE=1 -DB=2 -DN=8 covers:full,empty,closed,two
//@ run quick hist4-8 -DMODE=1 -DB=4 -DN=8 covers:empty,closed,two
//@ run thorough two1-3 -DMODE=2 -DB=1 -DITEMS=3 covers:done
//@ run thorough two2-4 -DMODE=2 -DB=2 -DITEMS=4 --preempt 5 covers:done
//@ run thorough two1-weak2 -DMODE=2 -DB=1 -DITEMS=2 --weak covers:done
//@ run thorough two2-weak3 -DMODE=2 -DB=2 -DITEMS=3 --weak --preempt 3 covers:done
//@ run quick hist1-8-l -DMODE=1 -DB=1 -DN=9 covers:full,empty,closed,two
//@ run quick hist2-8-l -DMODE=1 -DB=2 -DN=9 covers:full,empty,closed,two
//@ run quick hist4-8-l -DMODE=1 -DB=4 -DN=9 covers:empty,closed,two
//@ run thorough two1-3-l -DMODE=2 -DB=1 -DITEMS=4 covers:done
//@ run thorough two2-4-l -DMODE=2 -DB=2 -DITEMS=5 --preempt 5 covers:done
//@ run thorough two2-4-p -DMODE=2 -DB=2 -DITEMS=4 --preempt 6 covers:done
//@ run thorough two2-weak3-l -DMODE=2 -DB=2 -DITEMS=4 --weak --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/optional.h>
#include <macoro/channel_spsc.h>
using namespace macoro;
using Ch = spsc::channel<Mov>; using Tx = spsc::channel_sender<Mov>; using Rx = spsc::channel_receiver<Mov>;
static int sent, published, got; static bool closing, closedp, sbusy, rbusy, eof; static int vals[16];
Fire push(Tx& t, int v, int how) { sbusy = true; int i = sent++; vals[i] = v; { Tx::push_wrapper w = co_await t.push(); CHECKM(i < got + B, "pushed beyond the capacity"); w = Mov(v); if (how == 1) { Tx::push_wrapper x; x = std::move(w); published = i + 1; x.publish(); } else if (how == 2) { published = i + 1; w.publish(); w.publish(); } else published = i + 1; } sbusy = false; }
Fire close(Tx& t) { sbusy = closing = true; co_await t.close(); CHECKM(sent < got + B, "a close takes a slot"); closedp = true; sbusy = false; }
Fire take(Rx& r, int how) { rbusy = true; try { int i = got;
        if (how == 0) { auto& m = co_await r.front(); CHECKM(m.get() == vals[i], "the front is the next item sent"); auto w = co_await r.pop(); Mov x = std::move(w); CHECKM(i < published && x.get() == vals[i], "items are received in the order sent"); got = i + 1; }
        else if (how == 1) { auto w = co_await r.pop(); CHECKM(i < published && w->get() == vals[i], "items are received in the order sent"); auto w2 = std::move(w); Mov x(std::move(*w2)); CHECK(x.get() == vals[i]); got = i + 1; w2.publish(); w2.publish(); }
        else { auto& a = co_await r.front(); auto& b = co_await r.front(); CHECKM(&a == &b && b.get() == vals[i], "looking does not take"); got = i + 1; { auto w = co_await r.pop(); CHECK(w->get() == vals[i]); } vk_cover("two"); }
    } catch (channel_closed_exception&) { CHECKM(closing && got == sent, "closed is reported only after everything has been received"); eof = true; vk_cover("closed"); } rbusy = false; }
#if MODE == 1   // any history of one sender and one receiver on one thread
int main() {
    { auto [t, r] = spsc::make_channel<Mov>(B); Tx t2 = std::move(t);
    for (int i = 0; i < N; i++) { switch (vk_choose("op", 3)) {
        case 0: if (sbusy || closing) break; push(t2, 5 + sent, vk_choose("how", 3)); break;
        case 1: if (sbusy || closing) break; close(t2); break;
        case 2: if (rbusy) break; take(r, vk_choose("how", 3)); break; }
        if (rbusy) { CHECKM(got == published && !closedp, "a receiver is suspended only while nothing is there"); vk_cover("empty"); } if (sbusy) { CHECKM(sent - got >= B + !closing, "a sender is suspended only while the channel is full"); vk_cover("full"); } CHECK(published - got >= 0 && published - got <= B); vk_merge(); }
    for (int i = 0; i < 20 && !eof; i++) { if (!sbusy && !closing) close(t2); if (!rbusy && !eof) take(r, 1); } CHECK(eof && !sbusy && !rbusy && got == sent);
    bool again = false; auto f = [&]() -> Fire { try { co_await r.front(); } catch (channel_closed_exception& e) { again = e.what() != nullptr; } }; f(); CHECKM(again, "a closed channel stays closed"); bool p = false; auto g = [&]() -> Fire { try { Mov m = co_await r.pop(); } catch (channel_closed_exception&) { p = true; } }; g(); CHECKM(p, "taking from a closed channel reports it"); }
    CHECKM(Tok::live == 0, "every item is destroyed once");
}
#elif MODE == 2 // sender and receiver on two threads
static std::atomic<int> fin[2];
Fire sender(Tx t, int kind, int x0) { for (int i = 0; i < ITEMS; i++) { auto w = co_await t.push(); if (kind) { w = Mov(i + x0); w.publish(); } else { Mov& m = (w = Mov(i)); m = Mov(i + x0); } } co_await t.close(); fin[0].fetch_add(1, std::memory_order_relaxed); }
Fire receiver(Rx r, int kind, int x0) { int i = 0; try { for (;; i++) { if (kind) { auto& m = co_await r.front(); CHECKM(m.get() == x0 + i, "items arrive unmodified, in order"); } auto w = co_await r.pop(); CHECKM(w->get() == x0 + i, "items arrive unmodified, in order"); } } catch (channel_closed_exception&) { CHECKM(i == ITEMS, "every item is received once before closed"); fin[1].fetch_add(1, std::memory_order_relaxed); } }
int main() {
    { auto [t, r] = spsc::make_channel<Mov>(B); int x0 = vk_int("item"); vk_assume(x0 > -1000000 && x0 < 1000000); int ks = vk_choose("ks", 2), kr = vk_choose("kr", 2); VkThread a([&] { sender(std::move(t), ks, x0); }); VkThread b([&] { receiver(std::move(r), kr, x0); }); a.start(); b.start(); a.join(); b.join(); CHECKM(fin[0] == 1 && fin[1] == 1, "nobody stays suspended"); }
    CHECKM(Tok::live == 0, "every item is destroyed once"); vk_cover("done"); }
#else           // operations are performed when awaited, not when requested
int main() {
    CHECKM(!std::is_copy_constructible_v<Tx> && !std::is_copy_assignable_v<Tx> && !std::is_copy_constructible_v<Rx> && !std::is_copy_assignable_v<Rx>, "there is one sender and one receiver"); CHECK(std::is_nothrow_move_constructible_v<Tx> && std::is_move_assignable_v<Rx>);
    { Ch c(B); int n = 0; auto f = [&]() -> Fire { auto a = c.push(); auto b = c.push(Mov(2)); auto e = c.push(Mov(3)); { auto w = co_await a; w = Mov(1); } n++; co_await b; n++; co_await e; n++; };
      f(); CHECKM(n == 2, "a push beyond the capacity waits"); int got = 0; auto g = [&]() -> Fire { auto p = c.pop(); auto q = c.pop(); { auto w = co_await p; CHECK(w->get() == 1); got = 1; } CHECKM(n == 3, "the receiver's release lets the sender continue"); { Mov m = co_await q; CHECK(m.get() == 2); } { Mov m = co_await c.pop(); CHECK(m.get() == 3); } got = 3; }; g(); CHECK(got == 3); 
      { auto unused = c.push(); auto unused2 = c.push(Mov(9)); auto unused3 = c.close(); } bool r4 = false; auto h = [&]() -> Fire { co_await c.push(Mov(4)); Mov m = co_await c.pop(); CHECKM(m.get() == 4, "an operation that is not awaited is not performed"); r4 = true; }; h(); CHECK(r4); }
    { Ch c(1); int sent = 0, got = 0; auto g = [&]() -> Fire { auto p = c.pop(); auto q = c.pop(); { auto w = co_await p; CHECK(w->get() == 1); got = 1; } { auto w = co_await q; CHECKM(sent == 2 && w->get() == 2, "a receiver waits for the item that is next when it awaits"); got = 2; } }; g();
      auto f = [&]() -> Fire { auto a = c.push(); auto b = c.push(); sent++; { auto w = co_await a; w = Mov(1); } CHECKM(got == 1, "received when sent"); sent++; { auto w = co_await b; w = Mov(2); } }; f(); CHECK(got == 2); }
    { Ch c(1); int got = 0; auto f = [&]() -> Fire { auto a = c.push(); auto b = c.push(); { auto w = co_await a; w = Mov(1); } { auto w = co_await b; CHECKM(got == 1, "a push waits for the slot that is next when it awaits"); w = Mov(2); } }; f(); auto g = [&]() -> Fire { auto p = c.front(); auto q = c.front(); { auto& m = co_await p; CHECK(m.get() == 1); } got = 1; { Mov m = co_await c.pop(); CHECK(m.get() == 1); } { auto& m = co_await q; CHECKM(m.get() == 2, "the front is the next item sent"); } Mov m = co_await c.pop(); got = 2; }; g(); CHECK(got == 2); }
    CHECK(Tok::live == 0); vk_cover("done"); }
#endif
