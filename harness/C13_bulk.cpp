//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run quick any-count -DMODE=2 -DN=1024 --insts 400 covers:part,all
#include "bulk.h"
#include <macoro/sequence_spsc.h>
#include <macoro/sequence_barrier.h>
using namespace macoro;
#ifndef MODE
// a large ring, claimed in batches and one at a time
static std::size_t base; static int claimed;
Fire run(sequence_spsc<std::size_t>& s, int k) { while (claimed < N) { if (claimed % 3 == 0) { auto r = co_await s.claim_up_to(k); CHECK(r.size() >= 1 && r.size() <= (std::size_t)k && r[0] == base + 1 + claimed); claimed += (int)r.size(); s.publish(r); } else { auto t = co_await s.claim_one(); CHECKM(t == base + 1 + claimed, "claims are contiguous"); claimed++; s.publish(t); } } }
int main() { base = start(); sequence_barrier<std::size_t> c(base); constexpr std::size_t B = 256; sequence_spsc<std::size_t> s(c, B, base); run(s, 1 + pick("count")); int freed = 0; while (freed + (int)B < N + 300 && claimed < N) { CHECKM(claimed == freed + (int)B, "a slot in use is not handed out, a free one is"); freed += 7; c.publish(base + freed); } CHECK(claimed >= N && s.last_published() == base + claimed); vk_cover("done"); }
#else
// a batch of any size
int main() { std::size_t base = vk_sym("start", 64), k = vk_sym("count", 64), used = vk_sym("used", 10); vk_assume(k > 0); sequence_barrier<std::size_t> c(base); sequence_spsc<std::size_t> s(c, N, base); bool done = false; auto f = [&]() -> Fire { if (used) { auto r = co_await s.claim_up_to(used); CHECK(r.size() == used); } auto r = co_await s.claim_up_to(k); std::size_t room = N - used; CHECK(r.front() == base + 1 + used); CHECKM(r.size() == (k < room ? k : room), "a batch is as large as asked for, if there is room"); if (k < room) vk_cover("part"); else vk_cover("all"); done = true; }; f(); CHECK(done); }
#endif
