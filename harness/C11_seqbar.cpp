//@ run quick hist8 -DMODE=1 -DT=uint8_t -DN=4 covers:suspended,ready
//@ run quick hist64 -DMODE=1 -DT=size_t -DN=3 covers:suspended,ready
//@ run quick two -DMODE=2 -DT=uint8_t --preempt 3 covers:done
//@ run quick two-weak -DMODE=2 -DT=uint8_t --weak --preempt 4 covers:done
//@ run quick one-weak -DMODE=3 -DT=size_t --weak covers:done
//@ run quick gone -DMODE=4 -DT=uint16_t covers:done
//@ run quick gone-weak -DMODE=4 -DT=uint16_t --weak covers:done
//@ run quick order -DMODE=5 -DT=uint8_t -DNPUB=2 --preempt 3 covers:done
//@ run thorough order3 -DMODE=5 -DT=uint8_t -DNPUB=3 --preempt 4 covers:done
//@ run thorough order-weak -DMODE=5 -DT=uint8_t -DNPUB=2 --weak --preempt 3 covers:done
//@ run thorough two-all -DMODE=2 -DT=uint8_t covers:done
//@ run quick two-weak-all -DMODE=2 -DT=uint8_t --weak covers:done
//@ run quick three -DMODE=6 -DT=uint8_t --preempt 3 covers:done
//@ run thorough three-weak -DMODE=6 -DT=uint8_t --weak --preempt 2 covers:done
//@ run thorough hist5 -DMODE=1 -DT=uint8_t -DN=5 covers:suspended,ready
//@ run thorough hist5-l -DMODE=1 -DT=uint8_t -DN=6 covers:suspended,ready
//@ run thorough order-p -DMODE=5 -DT=uint8_t -DNPUB=2 --preempt 4 covers:done
//@ run quick order3-p -DMODE=5 -DT=uint8_t -DNPUB=3 --preempt 5 covers:done
//@ run quick order-weak-p -DMODE=5 -DT=uint8_t -DNPUB=2 --weak --preempt 4 covers:done
//@ run quick three-p -DMODE=6 -DT=uint8_t --preempt 4 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/sequence_barrier.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
using Bar = sequence_barrier<T>;
static constexpr T S0 = (T)~T(0) - 1;   // numbers wrap around during the test
static std::atomic<int> resumed[3]; static int slot[8]; static T got[3];
static T at(int i) { return (T)(S0 + i); }
// offset of the published number from S0; what lies up to it has been written
Fire wait(const Bar& b, int k, int off) { T r = co_await b.wait_until_published(at(off)); got[k] = r; int o = (int)(T)(r - S0); CHECKM(o >= off && o < 8, "a waiter is released only by a number at or past its target"); for (int i = 1; i <= o; i++) CHECKM(slot[i] == i, "what was written before publishing is visible"); CHECKM(resumed[k].fetch_add(1, std::memory_order_relaxed) == 0, "a waiter is resumed once"); }
#if MODE == 1   // any history on one thread: any start, targets and steps
Fire w1(const Bar& b, int k, T t) { T r = co_await b.wait_until_published(t); got[k] = r; resumed[k]++; }
int main() {
    T start = (T)vk_sym("start", sizeof(T) * 8), cur = start; Bar b(start); T tgt[3]; int n = 0; bool rel[3] = {}; T by[3] = {}; const T half = (T)1 << (sizeof(T) * 8 - 1);
    for (int i = 0; i < N; i++) {
        if (vk_coin("publish")) { T d = (T)vk_sym("step", sizeof(T) * 8); vk_assume(d < half / 4); cur = (T)(cur + d); b.publish(cur); }
        else if (n < 3) { T o = (T)vk_sym("target", sizeof(T) * 8); vk_assume((T)(o + half / 4) < half / 2); tgt[n] = (T)(cur + o); w1(b, n, tgt[n]); if (resumed[n]) vk_cover("ready"); else vk_cover("suspended"); n++; }
        CHECK(b.last_published() == cur);
        for (int k = 0; k < n; k++) { bool reached = (T)(cur - tgt[k]) < half; if (reached && !rel[k]) { rel[k] = true; by[k] = cur; } CHECKM(resumed[k] == (rel[k] ? 1 : 0), "released exactly when the target is reached"); if (rel[k]) CHECKM(got[k] == by[k], "receives the number it was released by"); }
    }
    for (int k = 0; k < n; k++) if (!rel[k]) { T d = (T)(tgt[k] - cur); if (d < half) { cur = tgt[k]; b.publish(cur); } CHECK(resumed[k] == 1); for (int j = 0; j < n; j++) if ((T)(cur - tgt[j]) < half) rel[j] = true; }
}
#elif MODE == 2 // two waiters with different targets, the publisher passes both
int main() { Bar b(S0); VkThread a([&] { wait(b, 0, 1); }); VkThread c([&] { wait(b, 1, 2); }); a.start(); c.start(); slot[1] = 1; b.publish(at(1)); slot[2] = 2; b.publish(at(2)); a.join(); c.join(); CHECKM(resumed[0] == 1 && resumed[1] == 1, "no waiter is left suspended"); CHECK(b.last_published() == at(2)); vk_cover("done"); }
#elif MODE == 3 // one waiter; published twice
int main() { Bar b(S0); int t = 1 + (int)vk_choose("target", 2); VkThread a([&] { wait(b, 0, t); }); a.start(); slot[1] = 1; b.publish(at(1)); slot[2] = 2; b.publish(at(2)); a.join(); CHECKM(resumed[0] == 1, "no waiter is left suspended"); vk_cover("done"); }
#elif MODE == 4 // the waiter frees its frame and the barrier as soon as it is through
task<> w(Bar* b, int off) { T r = co_await b->wait_until_published(at(off)); CHECK((T)(r - S0) >= off); CHECK(slot[1] == 1); }
int main() { auto* b = new Bar(S0); VkThread p([&] { slot[1] = 1; b->publish(at(1)); }); p.start(); sync_wait(w(b, 1)); p.join(); delete b; vk_cover("done"); }
#elif MODE == 5 // three waiters in any order of targets, one thread publishes while the last one arrives
int main() { Bar b(S0); int t[3]; for (int& x : t) x = 1 + (int)vk_choose("target", NPUB + 1); wait(b, 0, t[0]); wait(b, 1, t[1]); VkThread a([&] { wait(b, 2, t[2]); }); VkThread p([&] { for (int i = 1; i <= NPUB; i++) { slot[i] = i; b.publish(at(i)); } }); a.start(); p.start(); a.join(); p.join(); for (int k = 0; k < 3; k++) CHECKM(resumed[k] == (t[k] <= NPUB ? 1 : 0), "exactly the waiters whose number is published are released"); slot[NPUB + 1] = NPUB + 1; b.publish(at(NPUB + 1)); for (int k = 0; k < 3; k++) CHECKM(resumed[k] == 1, "no waiter is left suspended"); vk_cover("done"); }
#else
int main() { Bar b(S0); VkThread a([&] { wait(b, 0, 2); }); VkThread c([&] { wait(b, 1, 1); }); VkThread d([&] { wait(b, 2, 3); }); a.start(); c.start(); d.start(); for (int i = 1; i <= 3; i++) { slot[i] = i; b.publish(at(i)); } a.join(); c.join(); d.join(); for (int k = 0; k < 3; k++) CHECKM(resumed[k] == 1, "no waiter is left suspended"); vk_cover("done"); }
#endif
