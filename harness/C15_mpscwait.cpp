//@ run quick hist -DMODE=1 -DT=size_t -DN=4 covers:early,suspended
//@ run quick hist8 -DMODE=1 -DT=uint8_t -DN=4 covers:early,suspended
//@ run quick two -DMODE=2 -DT=size_t --preempt 2 covers:done
//@ run quick two-weak -DMODE=2 -DT=size_t --weak --preempt 1 covers:done
//@ run quick arrive -DMODE=3 -DT=uint8_t --preempt 3 covers:done
//@ run quick arrive-weak -DMODE=3 -DT=size_t --weak --preempt 2 covers:done
//@ run quick producers -DMODE=4 -DT=size_t --preempt 2 covers:done
//@ run quick producers-weak -DMODE=4 -DT=size_t --weak --preempt 1 covers:done
//@ run quick requeue -DMODE=5 -DT=size_t --preempt 2 covers:done
//@ run quick requeue-weak -DMODE=5 -DT=uint16_t --weak --preempt 1 covers:done
//@ run quick requeue-all -DMODE=5 -DT=size_t covers:done
//@ run thorough requeue-weak2 -DMODE=5 -DT=size_t --weak --preempt 3 covers:done
//@ run thorough hist6 -DMODE=1 -DT=size_t -DN=6 covers:early,suspended
//@ run thorough two3 -DMODE=2 -DT=uint8_t --preempt 3 covers:done
//@ run thorough two-weak2 -DMODE=2 -DT=size_t --weak --preempt 2 covers:done
//@ run quick arrive-all -DMODE=3 -DT=size_t covers:done
//@ run thorough arrive-weak4 -DMODE=3 -DT=size_t --weak --preempt 4 covers:done
//@ run quick producers3 -DMODE=4 -DT=size_t --preempt 4 covers:done
//@ run thorough producers-weak3 -DMODE=4 -DT=size_t --weak --preempt 3 covers:done
//@ run thorough hist6-l -DMODE=1 -DT=size_t -DN=7 covers:early,suspended
//@ run thorough hist8-l -DMODE=1 -DT=uint8_t -DN=5 covers:early,suspended
//@ run thorough two-p -DMODE=2 -DT=size_t --preempt 3 covers:done
//@ run thorough arrive-p -DMODE=3 -DT=uint8_t --preempt 4 covers:done
//@ run thorough arrive-weak4-p -DMODE=3 -DT=size_t --weak --preempt 5 covers:done
//@ run quick producers3-p -DMODE=4 -DT=size_t --preempt 5 covers:done
//@ run quick producers-weak3-p -DMODE=4 -DT=size_t --weak --preempt 4 covers:done
//@ run quick requeue-weak-p -DMODE=5 -DT=uint16_t --weak --preempt 2 covers:done
//@ run thorough requeue-weak2-p -DMODE=5 -DT=size_t --weak --preempt 4 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/sequence_mpsc.h>
#include <macoro/sequence_barrier.h>
using namespace macoro;
static constexpr int B = 4;
static constexpr T S0 = (T)~T(0) - 1;
static T at(int i) { return (T)(S0 + 1 + i); }
static int slot[B]; static std::atomic<int> resumed[3]; static sequence_barrier<T> cb(S0); static sequence_mpsc<T> sq(cb, B, S0);
Fire claimall() { auto r = co_await sq.claim_up_to(B); CHECK(r.size() == B && r.front() == at(0)); }
// waits for the off-th slot; all slots before it are checked to be written
Fire wait(int k, int off, T known = S0) { T t = co_await sq.wait_until_published(at(off), known); int n = (int)(T)(t - S0); CHECKM(n > off && n <= B, "a waiter is released only once its target is published"); for (int i = 0; i < n; i++) CHECKM(slot[i] == 1, "every number up to the position told is published"); CHECKM(resumed[k].fetch_add(1, std::memory_order_relaxed) == 0, "a waiter is resumed once"); }
#if MODE == 1   // any history: three waiters, four slots published in any order
int main() {
    claimall(); int n = 0, tgt[3]; auto upto = [] { int k = 0; while (k < B && slot[k]) k++; return k; };
    for (int i = 0; i < N + 2; i++) {
        if (n < 3 && vk_coin("wait")) { tgt[n] = (int)vk_choose("target", 4); int kn = (int)vk_choose("known", 2); int u = upto(); wait(n, tgt[n], kn ? at(u - 1) : S0); n++; }
        else { int k = (int)vk_choose("slot", 4); if (slot[k]) break; bool two = k < 3 && !slot[k + 1] && vk_coin("range"); slot[k] = 1; if (two) { slot[k + 1] = 1; sq.publish(sequence_range<T>(at(k), at(k + 2))); } else sq.publish(at(k)); if (upto() <= k) vk_cover("early"); }
        for (int k = 0; k < n; k++) { CHECKM(resumed[k] == (tgt[k] < upto() ? 1 : 0), "a waiter is released as soon as, and not before, everything up to its target is published"); if (!resumed[k]) vk_cover("suspended"); } vk_merge();
    }
    for (int k = 0; k < B; k++) if (!slot[k]) { slot[k] = 1; sq.publish(at(k)); } for (int k = 0; k < n; k++) CHECK(resumed[k] == 1);
}
#elif MODE == 2 // two producers publish out of order, two waiters with different targets arrive on their own threads
int main() {
    claimall(); int a = (int)vk_choose("ta", 3), b = (int)vk_choose("tb", 3); VkThread p([] { slot[1] = 1; sq.publish(at(1)); slot[2] = 1; sq.publish(at(2)); }); VkThread w([&] { wait(0, a); }); VkThread x([&] { wait(1, b); }); p.start(); w.start(); x.start(); slot[0] = 1; sq.publish(at(0)); p.join(); w.join(); x.join();
    CHECKM(resumed[0] == 1 && resumed[1] == 1, "no waiter is left suspended"); vk_cover("done"); }
#elif MODE == 3 // waiters with later targets are queued already; one more arrives while its number is published
int main() {
    claimall(); int a = (int)vk_choose("ta", 4), b = (int)vk_choose("tb", 4), c = (int)vk_choose("tc", 2); wait(0, a); wait(1, b); VkThread w([&] { wait(2, c); }); w.start(); slot[0] = 1; sq.publish(at(0)); slot[1] = 1; sq.publish(at(1)); w.join();
    CHECKM(resumed[0] == (a < 2) && resumed[1] == (b < 2) && resumed[2] == 1, "each waiter is held to its own target"); slot[2] = slot[3] = 1; sq.publish(sequence_range<T>(at(2), at(4))); CHECK(resumed[0] == 1 && resumed[1] == 1); vk_cover("done"); }
#elif MODE == 5 // queued waiters with different targets while two producers publish
int main() {
    claimall(); int t[3]; for (int k = 0; k < 3; k++) { t[k] = (int)vk_choose("target", 4); wait(k, t[k]); } vk_merge(); int first = (int)vk_choose("first", 2); VkThread p([&] { slot[first] = 1; sq.publish(at(first)); }); p.start(); slot[1 - first] = 1; sq.publish(at(1 - first)); p.join();
    for (int k = 0; k < 3; k++) CHECKM(resumed[k] == (t[k] < 2), "each waiter is resumed by the publication that completes its target"); slot[2] = slot[3] = 1; sq.publish(sequence_range<T>(at(2), at(4))); for (int k = 0; k < 3; k++) CHECK(resumed[k] == 1); vk_cover("done"); }
#else           // two producers are suspended on a full buffer while the consumer frees slots
static int st[3];
Fire prod(int k) { T t = co_await sq.claim_one(); int i = (int)(T)(t - S0) - 1; CHECK(i == 4 || i == 5); CHECKM(st[i - 4 + 0] == 1, "a slot still unread is handed out"); CHECKM(resumed[k].fetch_add(1, std::memory_order_relaxed) == 0, "a producer is resumed once"); }
int main() {
    claimall(); CHECK(!sq.any_available()); sq.publish(sequence_range<T>(at(0), at(4))); VkThread p([] { prod(0); }); VkThread q([] { prod(1); }); p.start(); q.start(); st[0] = 1; cb.publish(at(0)); st[1] = 1; cb.publish(at(1)); p.join(); q.join(); CHECKM(resumed[0] == 1 && resumed[1] == 1, "a producer is resumed once space is freed"); CHECK(!sq.any_available()); cb.publish(at(2)); CHECKM(sq.any_available(), "a free slot is available"); vk_cover("done"); }
#endif
