//@ run quick hist -DMODE=1 -DT=size_t -DB=2 -DN=5 covers:full,batch,gap
//@ run quick hist8 -DMODE=1 -DT=uint8_t -DB=4 -DN=5 covers:batch,gap
//@ run quick two -DMODE=2 -DT=size_t -DB=2 -DITEMS=2 --preempt 2 covers:done
//@ run quick two-weak -DMODE=2 -DT=size_t -DB=2 -DITEMS=2 --weak --preempt 1 covers:done
//@ run quick batch -DMODE=3 -DT=uint16_t -DB=4 -DITEMS=3 --preempt 2 covers:done
//@ run quick batch-weak -DMODE=3 -DT=uint32_t -DB=4 -DITEMS=3 --weak --preempt 1 covers:done
//@ run quick poll-weak -DMODE=4 -DT=size_t -DB=4 --weak covers:some,all
//@ run thorough two3 -DMODE=2 -DT=size_t -DB=2 -DITEMS=2 --preempt 3 covers:done
//@ run quick two-weak2 -DMODE=2 -DT=size_t -DB=2 -DITEMS=2 --weak --preempt 2 covers:done
//@ run quick batch3 -DMODE=3 -DT=uint16_t -DB=4 -DITEMS=4 --preempt 3 covers:done
//@ run quick batch-weak2 -DMODE=3 -DT=size_t -DB=2 -DITEMS=3 --weak --preempt 2 covers:done
//@ run thorough hist7 -DMODE=1 -DT=size_t -DB=2 -DN=7 covers:full,batch,gap
//@ run quick one-all -DMODE=2 -DT=size_t -DB=1 -DITEMS=1 covers:done
//@ run quick one-all-weak -DMODE=2 -DT=size_t -DB=2 -DITEMS=1 --weak covers:done
//@ run thorough hist8-l -DMODE=1 -DT=uint8_t -DB=4 -DN=6 covers:batch,gap
//@ run thorough two3-l -DMODE=2 -DT=size_t -DB=2 -DITEMS=3 --preempt 3 covers:done
//@ run thorough two3-p -DMODE=2 -DT=size_t -DB=2 -DITEMS=2 --preempt 4 covers:done
//@ run thorough two-weak2-l -DMODE=2 -DT=size_t -DB=2 -DITEMS=3 --weak --preempt 2 covers:done
//@ run thorough batch3-l -DMODE=3 -DT=uint16_t -DB=4 -DITEMS=5 --preempt 3 covers:done
//@ run thorough batch3-p -DMODE=3 -DT=uint16_t -DB=4 -DITEMS=4 --preempt 4 covers:done
//@ run quick batch-weak-l -DMODE=3 -DT=uint32_t -DB=4 -DITEMS=4 --weak --preempt 1 covers:done
//@ run thorough batch-weak-p -DMODE=3 -DT=uint32_t -DB=4 -DITEMS=3 --weak --preempt 2 covers:done
//@ run thorough batch-weak2-l -DMODE=3 -DT=size_t -DB=2 -DITEMS=4 --weak --preempt 2 covers:done
//@ run thorough batch-weak2-p -DMODE=3 -DT=size_t -DB=2 -DITEMS=3 --weak --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/sequence_mpsc.h>
#include <macoro/sequence_barrier.h>
using namespace macoro;
static constexpr T S0 = (T)~T(0) - 1;
static T at(int i) { return (T)(S0 + 1 + i); }      // the i-th slot's number
static int idx(T t) { return (int)(T)(t - S0 - 1); }
#if MODE == 1   // any history of two producers on one thread: claims, publishes in any order, frees
using Seq = sequence_mpsc<T>; using Bar = sequence_barrier<T>;
static int claimed, freed; static bool busy[2]; static int from[2], to[2], end[2]; static bool pub[24];
Fire one(Seq& s, int p) { busy[p] = true; from[p] = to[p] = claimed; end[p] = ++claimed; T t = co_await s.claim_one(); CHECKM(t == at(from[p]), "claims never overlap and are contiguous"); CHECKM(end[p] <= freed + B, "a slot still unread is handed out"); to[p] = end[p]; busy[p] = false; }
Fire many(Seq& s, int p, int k) { busy[p] = true; int n = k < B ? k : B; from[p] = to[p] = claimed; claimed += n; end[p] = claimed; auto r = co_await s.claim_up_to(k); CHECKM((int)r.size() == n, "a batch holds the requested number"); CHECKM(r.front() == at(from[p]) && r.back() == at(end[p] - 1), "claims never overlap and are contiguous"); CHECKM(end[p] <= freed + B, "a slot still unread is handed out"); if (n > 1) vk_cover("batch"); to[p] = end[p]; busy[p] = false; }
static int upto() { int n = 0; while (pub[n]) n++; return n; }
int main() {
    Bar c(S0); Seq s(c, B, S0); CHECK(s.buffer_size() == B);
    auto pubone = [&](int p, bool last) { if (from[p] == to[p]) return; if (last) { s.publish(at(--to[p])); pub[to[p]] = true; } else { s.publish(at(from[p])); pub[from[p]++] = true; } };
    for (int i = 0; i < N; i++) {
        unsigned op = vk_choose("op", 6), p = vk_choose("producer", 2);
        switch (op) {
        case 0: if (busy[p] || from[p] != to[p]) break; one(s, p); break;
        case 1: if (busy[p] || from[p] != to[p]) break; many(s, p, 1 + vk_choose("count", 3)); break;
        case 2: pubone(p, vk_coin("last")); break;
        case 3: if (busy[p]) break; { sequence_range<T> r(at(from[p]), at(to[p])); for (int j = from[p]; j < to[p]; j++) pub[j] = true; from[p] = to[p]; s.publish(r); } break;
        case 4: if (freed == upto()) break; freed += vk_coin("all") ? upto() - freed : 1; c.publish(at(freed - 1)); break;
        case 5: if (freed < upto() && vk_coin("known")) { CHECK(s.last_published_after(at(freed)) == at(upto() - 1)); } break;
        }
        CHECKM(s.last_published_after(at(freed - 1)) == at(upto() - 1), "the position told is the last before the first gap"); if (claimed > upto() && (pub[claimed - 1])) vk_cover("gap");
        CHECKM(s.any_available() == (claimed < freed + B), "any_available tells whether a slot can be claimed");
        for (int p = 0; p < 2; p++) if (busy[p]) { CHECKM(end[p] > freed + B, "a producer is suspended only while its slots are in use"); vk_cover("full"); }
        vk_merge();
    }
    for (int i = 0; i < 40 && (freed < claimed || busy[0] || busy[1]); i++) { for (int p = 0; p < 2; p++) if (!busy[p]) while (from[p] != to[p]) pubone(p, false); if (freed < upto()) c.publish(at(++freed - 1)); } CHECK(!busy[0] && !busy[1] && freed == claimed);
}
#elif MODE == 4 // a poll of the published position, while a batch and single slots are being published
static int slot[4]; static sequence_barrier<T> cb(S0); static sequence_mpsc<T> sq(cb, B, S0);
Fire claim(int n, T& f) { auto r = co_await sq.claim_up_to(n); f = r.front(); }
int main() {
    T a = 0, b = 0; claim(1, a); claim(3, b); CHECK(a == at(0) && b == at(1)); VkThread p([&] { slot[0] = 1; sq.publish(a); }); VkThread q([&] { for (int i = 1; i < 4; i++) slot[i] = 1; sq.publish(sequence_range<T>(at(1), at(4))); }); p.start(); q.start();
    T known = S0; for (int k = 0; k < 2; k++) { T t = sq.last_published_after(known); int n = (int)(T)(t - S0); CHECK(n >= 0 && n <= 4); for (int i = 0; i < n; i++) CHECKM(slot[i] == 1, "what was written into the published slots is seen"); if (n == 4) vk_cover("all"); else if (n) vk_cover("some"); CHECK(n >= (int)(T)(known - S0)); known = t; } p.join(); q.join(); CHECK(sq.last_published_after(known) == at(3)); }
#else           // two producers and a consumer on three threads
static int ring[B]; static int got[2 * ITEMS + 1], consumed, produced[2]; static sequence_barrier<T> cb(S0); static sequence_mpsc<T> sq(cb, B, S0);
static int& cell(T t) { return ring[t & (B - 1)]; }
#if MODE == 2
static constexpr int TOTAL = 2 * ITEMS;
Fire produce(int id) { for (int i = 0; i < ITEMS; i++) { T t = co_await sq.claim_one(); CHECKM(cell(t) == 0, "a slot still unread is handed out"); cell(t) = 10 * id + i + 1; sq.publish(t); produced[id]++; } }
#else
static constexpr int TOTAL = ITEMS + 1;
Fire produce(int id) { if (!id) { T t = co_await sq.claim_one(); CHECKM(cell(t) == 0, "a slot still unread is handed out"); cell(t) = 1; sq.publish(t); produced[0] = 1; } else { for (int i = 0; i < ITEMS;) { auto r = co_await sq.claim_up_to(i ? ITEMS - i : 2); CHECKM(r.size() >= 1 && (int)r.size() <= ITEMS - i, "a batch holds at least one and at most the requested number"); for (T t : r) { CHECKM(cell(t) == 0, "a slot still unread is handed out"); cell(t) = 10 + ++i; } sq.publish(r); produced[1] = i; } } }
#endif
Fire consume(bool batch) { T known = S0; int next[2] = {}; for (int i = 0; i < TOTAL;) { T t = co_await sq.wait_until_published(at(i), known); int n = (int)(T)(t - at(i)) + 1; CHECKM(n >= 1 && n <= B && i + n <= TOTAL, "the wait ends at or after its target"); known = t; if (!batch) { known = at(i); n = 1; } for (int j = 0; j < n; j++, i++) { int v = cell(at(i)); CHECKM(v, "every number up to the position told is published"); int id = v / 10; CHECKM(v % 10 == ++next[id], "each producer's items are seen once, in order"); cell(at(i)) = 0; } consumed = i; cb.publish(at(i - 1)); } }
int main() {
    bool b = vk_coin("batch"); VkThread p([] { produce(0); }); VkThread q([] { produce(1); }); VkThread c([&] { consume(b); }); p.start(); q.start(); c.start(); p.join(); q.join(); c.join(); CHECKM(produced[0] + produced[1] == TOTAL && consumed == TOTAL, "no claim and no wait is left suspended"); vk_cover("done"); }
#endif
