//@ run quick hist -DMODE=1 -DT=size_t -DB=2 -DN=5 covers:full,batch,waited
//@ run quick hist8 -DMODE=1 -DT=uint8_t -DB=4 -DN=5 covers:batch,waited
//@ run quick one -DMODE=2 -DB=1 -DITEMS=3 -DT=size_t covers:done
//@ run quick one-weak -DMODE=2 -DB=1 -DITEMS=2 -DT=size_t --weak covers:done
//@ run quick batch -DMODE=3 -DB=2 -DITEMS=3 -DT=size_t --preempt 3 covers:done
//@ run quick batch-weak -DMODE=3 -DB=2 -DITEMS=3 -DT=uint8_t --weak --preempt 2 covers:done
//@ run quick mixed -DMODE=4 -DB=2 -DITEMS=4 -DT=uint16_t --preempt 2 covers:done
//@ run quick one4 -DMODE=2 -DB=2 -DITEMS=5 -DT=size_t covers:done
//@ run thorough one4-weak -DMODE=2 -DB=2 -DITEMS=4 -DT=size_t --weak --preempt 4 covers:done
//@ run quick batch-all -DMODE=3 -DB=2 -DITEMS=4 -DT=uint8_t covers:done
//@ run quick mixed4 -DMODE=4 -DB=4 -DITEMS=6 -DT=size_t --preempt 2 covers:done
//@ run quick mixed4-weak -DMODE=4 -DB=4 -DITEMS=6 -DT=size_t --weak --preempt 2 covers:done
//@ run quick hist6 -DMODE=1 -DT=size_t -DB=2 -DN=6 covers:full,batch,waited
//@ run quick hist6-l -DMODE=1 -DT=size_t -DB=2 -DN=7 covers:full,batch,waited
//@ run quick hist8-l -DMODE=1 -DT=uint8_t -DB=4 -DN=6 covers:batch,waited
//@ run quick one-l -DMODE=2 -DB=1 -DITEMS=4 -DT=size_t covers:done
//@ run thorough one-weak-l -DMODE=2 -DB=1 -DITEMS=3 -DT=size_t --weak covers:done
//@ run quick batch-l -DMODE=3 -DB=2 -DITEMS=4 -DT=size_t --preempt 3 covers:done
//@ run thorough batch-p -DMODE=3 -DB=2 -DITEMS=3 -DT=size_t --preempt 4 covers:done
//@ run quick batch-weak-l -DMODE=3 -DB=2 -DITEMS=4 -DT=uint8_t --weak --preempt 2 covers:done
//@ run thorough batch-weak-p -DMODE=3 -DB=2 -DITEMS=3 -DT=uint8_t --weak --preempt 3 covers:done
//@ run quick mixed-l -DMODE=4 -DB=2 -DITEMS=5 -DT=uint16_t --preempt 2 covers:done
//@ run quick mixed-p -DMODE=4 -DB=2 -DITEMS=4 -DT=uint16_t --preempt 3 covers:done
//@ run thorough one4-l -DMODE=2 -DB=2 -DITEMS=6 -DT=size_t covers:done
//@ run thorough one4-weak-l -DMODE=2 -DB=2 -DITEMS=5 -DT=size_t --weak --preempt 4 covers:done
//@ run thorough one4-weak-p -DMODE=2 -DB=2 -DITEMS=4 -DT=size_t --weak --preempt 5 covers:done
//@ run thorough batch-all-l -DMODE=3 -DB=2 -DITEMS=5 -DT=uint8_t covers:done
//@ run quick mixed4-l -DMODE=4 -DB=4 -DITEMS=7 -DT=size_t --preempt 2 covers:done
//@ run thorough mixed4-p -DMODE=4 -DB=4 -DITEMS=6 -DT=size_t --preempt 3 covers:done
//@ run thorough mixed4-weak-l -DMODE=4 -DB=4 -DITEMS=7 -DT=size_t --weak --preempt 2 covers:done
//@ run thorough mixed4-weak-p -DMODE=4 -DB=4 -DITEMS=6 -DT=size_t --weak --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/sequence_spsc.h>
#include <macoro/sequence_barrier.h>
#include <macoro/task.h>
using namespace macoro;
static constexpr T S0 = (T)~T(0) - 1;
static T at(int i) { return (T)(S0 + 1 + i); }      // the i-th slot's number
#if MODE == 1   // any history of claims, publishes and frees on one thread
using Seq = sequence_spsc<T>; using Bar = sequence_barrier<T>;
static int claimed, published, freed, waits, wtgt, want; static bool busy, wbusy;
Fire one(Seq& s) { busy = true; T t = co_await s.claim_one(); CHECKM(t == at(claimed), "claims are contiguous and in order"); CHECKM(claimed < freed + B, "a slot in use is handed out"); claimed++; busy = false; }
Fire many(Seq& s, int k) { busy = true; auto r = co_await s.claim_up_to(k); int n = r.size(); CHECKM(n >= 1 && n <= k, "a batch holds at least one and at most the requested number"); CHECK(r.front() == at(claimed)); CHECK(r.back() == at(claimed + n - 1)); CHECKM(claimed + n <= freed + B, "a slot in use is handed out"); if (n > 1) vk_cover("batch"); claimed += n; busy = false; }
Fire consume(Seq& s, int i) { wbusy = true; wtgt = i; T t = co_await s.wait_until_published(at(i), at(i - 1)); CHECKM((T)(t - at(i)) < B, "the wait ends at or after its target"); CHECK(t == at(published - 1)); wbusy = false; waits++; }
int main() {
    Bar c(S0); Seq s(c, B, S0); 
    for (int i = 0; i < N; i++) {
        switch (vk_choose("op", 5)) {
        case 0: if (busy) break; one(s); break;
        case 1: if (busy) break; many(s, 1 + vk_choose("count", 3)); break;
        case 2: if (published == claimed) break; if (vk_coin("all")) { int p = published; published = claimed; s.publish(sequence_range<T>(at(p), at(claimed))); } else { published++; s.publish(at(published - 1)); } CHECK(s.last_published() == at(published - 1)); break;
        case 3: if (wbusy || freed == published && waits && wtgt >= published) break; consume(s, freed + (int)vk_choose("ahead", 2)); vk_cover("waited"); break;
        case 4: if (freed == published) break; freed += vk_coin("freeall") ? published - freed : 1; c.publish(at(freed - 1)); break;
        }
        if (busy) { CHECKM(claimed == freed + B, "a producer is suspended only for lack of space"); vk_cover("full"); } if (wbusy) CHECKM(wtgt >= published, "a consumer is suspended only before its number is published");
        vk_merge();
    }
    while (published < claimed) { published++; s.publish(at(published - 1)); } while (freed < published || busy) { if (freed == published) { while (published < claimed) { published++; s.publish(at(published - 1)); } } if (freed < published) { freed++; c.publish(at(freed - 1)); } }
    if (wbusy) { while (wtgt >= published) { if (claimed == published) { if (freed < published) { freed = published; c.publish(at(freed - 1)); } one(s); } published++; s.publish(at(published - 1)); } CHECK(!wbusy); }
}
#else           // a producer and a consumer thread
static int ring[B]; static int produced, consumed; static sequence_barrier<T> cb(S0); static sequence_spsc<T> sq(cb, B, S0);
static int& cell(T t) { return ring[t & (B - 1)]; }
#if MODE == 2
Fire produce() { for (int i = 0; i < ITEMS; i++) { T t = co_await sq.claim_one(); CHECKM(t == at(i), "claims are contiguous and in order"); cell(t) = i + 1; sq.publish(t); produced++; } }
Fire consume() { for (int i = 0; i < ITEMS;) { T t = co_await sq.wait_until_published(at(i)); do { CHECKM(cell(at(i)) == i + 1, "each number's item is seen, once"); cell(at(i)) = 0; consumed++; cb.publish(at(i)); i++; } while ((T)(at(i - 1)) != t); } }
#else
Fire produce(unsigned k, bool mixed) { for (int i = 0; i < ITEMS;) { if (mixed && (i & 1)) { T t = co_await sq.claim_one(); CHECK(t == at(i)); cell(t) = i + 1; i++; sq.publish(t); } else { unsigned want = (int)k < ITEMS - i ? k : ITEMS - i; auto r = co_await sq.claim_up_to(want); CHECKM(r.size() >= 1 && r.size() <= want, "a batch holds at least one and at most the requested number"); for (T t : r) { CHECKM(t == at(i), "claims are contiguous and in order"); CHECKM(cell(t) == 0, "a slot in use is handed out"); cell(t) = i + 1; i++; } sq.publish(r); } } produced = ITEMS; }
Fire consume(bool batch) { for (int i = 0; i < ITEMS;) { T t = co_await sq.wait_until_published(at(i), at(i - 1)); int n = (int)(T)(t - at(i)) + 1; CHECKM(n >= 1 && n <= B, "never ahead of the consumer by more than the buffer size"); if (!batch) n = 1; for (int j = 0; j < n; j++) { CHECKM(cell(at(i)) == i + 1, "each number's item is seen, once"); cell(at(i)) = 0; i++; } consumed = i; cb.publish(at(i - 1)); } }
#endif
int main() {
#if MODE == 2
    VkThread p([] { produce(); }); VkThread c([] { consume(); });
#else
    unsigned k = 1 + vk_choose("count", 3); bool m = MODE == 4, b = vk_coin("batch"); VkThread p([&] { produce(k, m); }); VkThread c([&] { consume(b); });
#endif
    p.start(); c.start(); p.join(); c.join(); CHECKM(produced == ITEMS && consumed == ITEMS, "no claim and no wait is left suspended"); vk_cover("done"); }
#endif
