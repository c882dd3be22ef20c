//@ run quick spsc1 -DMODE=1 -DCH=spsc -DB=1 -DN=5 covers:full,left
//@ run quick spsc2 -DMODE=1 -DCH=spsc -DB=2 -DN=5 covers:full,left
//@ run quick mpsc2 -DMODE=1 -DCH=mpsc -DB=2 -DN=5 covers:full,left
//@ run quick mpsc4 -DMODE=1 -DCH=mpsc -DB=4 -DN=5 covers:left
//@ run quick held-spsc -DMODE=2 -DCH=spsc covers:done
//@ run quick held-mpsc -DMODE=2 -DCH=mpsc --preempt 2 covers:done
//@ run quick held-weak -DMODE=2 -DCH=mpsc --weak --preempt 1 covers:done
//@ run quick held-spsc-weak -DMODE=2 -DCH=spsc --weak covers:done
//@ run quick capacity -DMODE=3 covers:bad,good
//@ run quick order -DMODE=4 covers:done
//@ run quick value-spsc -DMODE=5 -DCH=spsc -DB=2 --preempt 4 covers:done
//@ run quick value-mpsc -DMODE=5 -DCH=mpsc -DB=2 --preempt 4 covers:done
//@ run quick value-spsc1 -DMODE=5 -DCH=spsc -DB=1 --weak --preempt 3 covers:done
//@ run quick value-mpsc1 -DMODE=5 -DCH=mpsc -DB=1 --weak --preempt 3 covers:done
//@ run quick value-wait -DMODE=6 covers:done
//@ run quick mpsc1-7 -DMODE=1 -DCH=mpsc -DB=1 -DN=7 covers:full,left
//@ run quick spsc4-8 -DMODE=1 -DCH=spsc -DB=4 -DN=8 covers:full,left
//@ run quick mpsc4-8 -DMODE=1 -DCH=mpsc -DB=4 -DN=8 covers:full,left
//@ run quick held-mpsc4 -DMODE=2 -DCH=mpsc --preempt 4 covers:done
//@ run quick held-weak3 -DMODE=2 -DCH=mpsc --weak --preempt 3 covers:done
//@ run quick spsc1-l -DMODE=1 -DCH=spsc -DB=1 -DN=6 covers:full,left
//@ run quick spsc2-l -DMODE=1 -DCH=spsc -DB=2 -DN=6 covers:full,left
//@ run quick mpsc2-l -DMODE=1 -DCH=mpsc -DB=2 -DN=6 covers:full,left
//@ run quick mpsc4-8-l -DMODE=1 -DCH=mpsc -DB=4 -DN=9 covers:full,left
//@ run quick held-mpsc4-p -DMODE=2 -DCH=mpsc --preempt 5 covers:done
//@ run quick held-weak3-p -DMODE=2 -DCH=mpsc --weak --preempt 4 covers:done
//@ run thorough value-spsc-p -DMODE=5 -DCH=spsc -DB=2 --preempt 5 covers:done
//@ run quick value-mpsc-p -DMODE=5 -DCH=mpsc -DB=2 --preempt 5 covers:done
//@ run thorough value-spsc1-p -DMODE=5 -DCH=spsc -DB=1 --weak --preempt 4 covers:done
//@ run thorough value-mpsc1-p -DMODE=5 -DCH=mpsc -DB=1 --weak --preempt 4 covers:done
//@ run quick mpsc1-7-l -DMODE=1 -DCH=mpsc -DB=1 -DN=8 covers:full,left
//@ run quick spsc4-8-l -DMODE=1 -DCH=spsc -DB=4 -DN=9 covers:full,left
#include "hx.h"
#include <cassert>
#include <macoro/optional.h>
#include <macoro/channel.h>
using namespace macoro;
#if MODE == 1   // how many items exist at each moment of any history; the channel is torn down with whatever is in it
using Ch = CH::channel<Mov>;
static int in, out, pend; static Ch::push_wrapper pw[2]; static bool pu[2]; static Ch::pop_wrapper qw; static bool qu, rbusy;
Fire push(Ch& c, int how) { pend++; if (how) { co_await c.push(Mov(in + 1 + 0)); in++; pend--; } else { auto w = co_await c.push(); pend--; w = Mov(++in); CHECKM(in <= out + B, "more items than the capacity"); } CHECKM(in <= out + B, "more items than the capacity"); }
Fire take(Ch& c) { rbusy = true; qw = co_await c.pop(); rbusy = false; qu = true; }
int main() {
    bool open = true; { Ch c(B);
    for (int i = 0; i < N; i++) { switch (vk_choose("op", 4)) {
        case 0: if (pend) break; push(c, 0); break;
        case 1: if (qu || rbusy || in == out) break; take(c); break;
        case 2: if (!qu) break; { CHECKM(qw->get() == out + 1, "an item stays valid until it is released"); qu = false; out++; auto w = std::move(qw); } break;
        case 3: if (!qu) break; { Mov& m = *qw.operator->(); CHECK(m.get() == out + 1); } break; }
        int live = Tok::live; CHECKM(live <= B, "never more items than the capacity"); CHECKM(live == in - out, "an item lives from its push to its release"); if (pend) { CHECKM(in - out == B, "a push suspends only while the channel is full"); vk_cover("full"); } vk_merge(); }
    if (qu) { qu = false; out++; auto w = std::move(qw); } if (pend) { take(c); out++; qu = false; auto w = std::move(qw); } if (in != out) vk_cover("left"); }
    CHECKM(Tok::live == 0, "items left in the channel are destroyed once");
}
#elif MODE == 2 // a receiver holds on to the front while the sender wants the slot
using Tx = CH::channel_sender<Mov>; using Rx = CH::channel_receiver<Mov>; static int fin; static std::atomic<int> point; // (a place to be preempted)
Fire send(Tx& t) { for (int i = 0; i < 3; i++) { auto w = co_await t.push(); w = Mov(i); } fin++; }
Fire recv(Rx& r, int& f) { for (int i = 0; i < 3; i++) { Mov& m = co_await r.front(); CHECK(m.get() == i); auto w = co_await r.pop(); Mov& n = *w.operator->(); CHECKM(&m == &n && n.get() == i, "the item is not replaced while it is in use"); (void)point.load(std::memory_order_relaxed); CHECKM(n.get() == i, "the item is not replaced while it is in use"); n.v += 7; CHECK(m.get() == i + 7); Mov x = std::move(w); CHECK(x.get() == i + 7); } f++; }
int main() { { auto [t, r] = CH::make_channel<Mov>(1); int f = 0; VkThread a([&] { send(t); }); a.start(); recv(r, f); a.join(); CHECK(f == 1 && fin == 1); } CHECK(Tok::live == 0); vk_cover("done"); }
#elif MODE == 3 // every capacity from 0 to 16
template<class C> static void cap(unsigned n) { bool ok = true; try { C c(n); int k = 0; auto f = [&]() -> Fire { for (unsigned i = 0; i < n; i++) { co_await c.push(Mov(1)); k++; } }; f(); CHECKM((unsigned)k == n, "a channel holds as many items as its capacity says"); } catch (std::runtime_error&) { ok = false; } bool pow2 = n == 1 || n == 2 || n == 4 || n == 8 || n == 16; CHECKM(ok == pow2, "exactly the powers of two are capacities"); if (ok) vk_cover("good"); else vk_cover("bad"); CHECK(Tok::live == 0); }
int main() { unsigned n = vk_choose("capacity", 17); if (vk_coin("mpsc")) cap<mpsc::channel<Mov>>(n); else cap<spsc::channel<Mov>>(n); }
#elif MODE == 5 // items pushed by value, on two threads
using Ch = CH::channel<Mov>; static int fin;
Fire send(Ch& c) { for (int i = 0; i < 3; i++) co_await c.push(Mov(i)); fin++; }
Fire recv(Ch& c, int& f) { for (int i = 0; i < 3; i++) { auto w = co_await c.pop(); CHECKM(w->get() == i, "items arrive in order"); } f++; }
int main() { { Ch c(B); int f = 0; VkThread a([&] { send(c); }); VkThread b([&] { recv(c, f); }); a.start(); b.start(); a.join(); b.join(); CHECK(f == 1 && fin == 1); } CHECK(Tok::live == 0); vk_cover("done"); }
#elif MODE == 6 // a receiver that waits finds the item pushed by value; a push by value that waits stores it once there is room
template<class Ch> void go() { { Ch c(1); int v = vk_int("v"); int got = 0, put = 0; bool front = vk_coin("front");
    auto r = [&](int n) -> Fire { for (int i = 0; i < n; i++) { if (front) { Mov& m = co_await c.front(); CHECKM(m.get() == v + got, "an item arrives complete"); } auto w = co_await c.pop(); CHECKM(w->get() == v + got, "an item arrives complete"); got++; } };
    auto s = [&](int n) -> Fire { for (int i = 0; i < n; i++) { co_await c.push(Mov(v + put)); put++; } };
    if (vk_coin("receiver first")) { r(2); CHECK(got == 0); s(2); CHECK(got == 2 && put == 2); } else { s(2); CHECK(put == 1); r(1); CHECK(put == 2 && got == 1); r(1); CHECK(got == 2); } } CHECK(Tok::live == 0); vk_cover("done"); }
int main() { if (vk_coin("mpsc")) go<mpsc::channel<Mov>>(); else go<spsc::channel<Mov>>(); }
#else           // two pushed places filled in the other order; wrappers moved, assigned over and published twice
int main() {
    { mpsc::channel<Mov> c(2); int ok = 0; using W = mpsc::channel<Mov>::push_wrapper; auto g = [&]() -> Fire { for (int i = 1; i <= 2; i++) { auto w = co_await c.pop(); CHECKM(w->get() == i, "items keep their places"); ok++; } }; g();
      auto f = [&]() -> Fire { W a = co_await c.push(); W b = co_await c.push(); b = Mov(2); b.publish(); CHECKM(ok == 0, "a place not yet published is waited for"); a = Mov(9); a = Mov(1); W d; d = std::move(a); a.publish(); CHECK(ok == 0); d = W(); }; f(); CHECKM(ok == 2, "assigning over a wrapper publishes its place"); 
      auto h = [&]() -> Fire { co_await c.push(Mov(3)); co_await c.push(Mov(4)); auto p = co_await c.pop(); CHECK(p->get() == 3); p = std::move(p); p.publish(); p.publish(); p = co_await c.pop(); CHECKM(p->get() == 4, "an item is released once"); ok++; }; h(); CHECK(ok == 3);
      auto k = [&](bool first) -> Fire { { auto w = co_await c.push(); if (first) w = Mov(5); Mov& m = w; CHECKM(m.get() == (first ? 5 : 0), "the place's item is reached through the wrapper"); Mov& m2 = w; CHECKM(&m == &m2, "and not replaced"); m.v += 2; Mov& m3 = (w = Mov(m.get() + 1)); CHECKM(&m3 == &m && m.get() == (first ? 8 : 3), "assigning replaces the item"); CHECK(Tok::live == 1); } auto p = co_await c.pop(); CHECK(p->get() == (first ? 8 : 3)); ok++; }; k(false); k(true); CHECK(ok == 5); }
    CHECK(Tok::live == 0); vk_cover("done"); }
#endif
