//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run quick any-count -DMODE=2 -DN=16 --insts 400 covers:part,all
#include "bulk.h"
#include <macoro/sequence_mpsc.h>
#include <macoro/sequence_barrier.h>
using namespace macoro;
#ifndef MODE
// a large ring; published backwards
static std::size_t base; static int claimed;
Fire run(sequence_mpsc<std::size_t>& s, int k) { while (claimed < N) { if (claimed % 3 == 0) { auto r = co_await s.claim_up_to(k); CHECK((int)r.size() == (k < 256 ? k : 256) && r[0] == base + 1 + claimed); claimed += (int)r.size(); } else { auto t = co_await s.claim_one(); CHECKM(t == base + 1 + claimed, "claims are contiguous"); claimed++; } } }
static int told;
Fire wait(sequence_mpsc<std::size_t>& s, int t, int from) { auto r = co_await s.wait_until_published(base + t, base + from); CHECKM(r - base >= (std::size_t)t, "released at or past its target"); told = (int)(r - base); }
int main() { base = start(); sequence_barrier<std::size_t> c(base); constexpr std::size_t B = 256; sequence_mpsc<std::size_t> s(c, B, base); int k = 1 + pick("count"); run(s, k); CHECKM(claimed <= (int)B && claimed + k > (int)B, "a slot in use is not handed out, a free one is"); int was = claimed; wait(s, was, 0); for (int i = was; i >= 2; i--) s.publish(base + i); CHECKM(!told, "a gap is not passed over"); s.publish(base + 1); CHECKM(told == was, "released when all numbers are published"); 
    int freed = 0; while (claimed < N) { int a = claimed; freed += 7; c.publish(base + freed); CHECKM(claimed <= freed + (int)B && (claimed + k > freed + (int)B || claimed >= N), "freed slots are handed out"); for (int i = a + 1; i <= claimed; i++) s.publish(base + i); CHECK(s.last_published_after(base + a) == base + claimed); } vk_cover("done"); }
#else
int main() { std::size_t base = start(), k = vk_sym("count", 64), used = vk_choose("used", N); vk_assume(k <= N - used || !used); vk_assume(k > 0); sequence_barrier<std::size_t> c(base); sequence_mpsc<std::size_t> s(c, N, base); bool done = false; auto f = [&]() -> Fire { if (used) { auto r = co_await s.claim_up_to(used); CHECK(r.size() == used); } auto r = co_await s.claim_up_to(k); std::size_t room = N - used; CHECK(r.front() == base + 1 + used); CHECKM(r.size() == (k < room ? k : room), "a batch is as large as asked for, if there is room"); if (k < room) vk_cover("part"); else vk_cover("all"); done = true; }; f(); CHECK(done); }
#endif
