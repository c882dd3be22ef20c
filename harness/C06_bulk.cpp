//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk5000 -DN=5000 --insts 400 covers:done
#include "bulk.h"
#include <macoro/async_scope.h>
#include <macoro/manual_reset_event.h>
#include <macoro/task.h>
using namespace macoro;
// hundreds of tasks: one ends during the join, each third fails, nobody awaits them
static Gate last; static async_manual_reset_event many; static int ended, joined, lost;
task<int> job(int i, int l) { Tok t(i); if (i == l) co_await last; else if (i & 4) co_await many; ended++; if (i % 3 == 0) throw Ex(i); co_return i; }
Fire joiner(async_scope& s) { try { co_await s.join(); } catch (async_scope_exception& e) { lost = (int)e.m_exceptions.size(); } joined++; CHECKM(ended == N, "the join ends after every task"); }
int main() { { async_scope s; int l = pick("last"); std::vector<scoped_task<int>> keep; for (int i = 0; i < N; i++) { auto h = s.add(job(i, l)); CHECK(h.is_ready() == (i != l && !(i & 4))); if (i % 3 == 1) keep.push_back(std::move(h)); } joiner(s); CHECKM(!joined, "the join waits for the tasks"); many.set(); CHECK(ended == N - 1); for (auto& h : keep) h = {}; CHECKM(!joined, "the join waits for the last task"); last.fire(); CHECKM(joined == 1, "joined once"); CHECKM(lost == (N + 2) / 3, "every lost exception is reported"); } CHECK(Tok::live == 0); vk_cover("done"); }
