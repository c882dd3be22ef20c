//@ run quick bulk300 -DN=300 --insts 400 covers:done
#include "bulk.h"
#include <macoro/sequence_mpsc.h>
#include <macoro/sequence_barrier.h>
using namespace macoro;
// hundreds of waiters; published with a gap that is closed at any place
static std::size_t base; static int n[N], upto; static bool pub[N + 1];
Fire claim(sequence_mpsc<std::size_t>& s) { auto r = co_await s.claim_up_to(N); CHECK((int)r.size() == N); }
Fire wait(sequence_mpsc<std::size_t>& s, int k, int t) { auto r = co_await s.wait_until_published(base + t, base); CHECK(r - base >= (std::size_t)t && r - base <= (std::size_t)upto); n[k]++; }
int main() { base = start(); sequence_barrier<std::size_t> c(base); sequence_mpsc<std::size_t> s(c, 512, base); claim(s); int t[N]; for (int i = 0; i < N; i++) { t[i] = 1 + (i * 7) % N; wait(s, i, t[i]); } int gap = pick("gap") + 1;
    for (int i = 1; i <= N; i++) if (i != gap) { if (i < gap) upto = i; s.publish(base + i); if (i % 25 == 0) for (int k = 0; k < N; k++) CHECKM(n[k] == (t[k] <= upto), "released exactly when everything up to its target is published"); } upto = N; s.publish(base + gap); for (int k = 0; k < N; k++) CHECKM(n[k] == 1, "every waiter is resumed once"); vk_cover("done"); }
