//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk5000 -DN=5000 --insts 400 covers:done
#include "bulk.h"
#include <macoro/when_all_scope.h>
#include <macoro/manual_reset_event.h>
#include <macoro/task.h>
using namespace macoro;
// hundreds of tasks in one scope; the last to end is any of them
static Gate last; static async_manual_reset_event many; static int ended, resumed;
task<int> job(int i, int l) { Tok t(i); if (i == l) co_await last; else if (i % 50 != 7 && (i & 12)) co_await many; ended++; co_return i; }
when_all_scope body(int l) { Tok t(1); for (int i = 0; i < N; i++) { if (i % 50 == 7 && i != l) { int v = co_await (co_await scoped(job(i, l))); CHECK(v == i); } else co_await scoped(job(i, l)); } }
Fire par(int l) { co_await body(l); resumed++; CHECKM(ended == N, "ends after every task"); }
int main() { int l = pick("last"); par(l); CHECK(!resumed); many.set(); CHECKM(!resumed && ended == N - 1, "not resumed before every task has ended"); last.fire(); CHECKM(resumed == 1, "resumed once"); CHECK(Tok::live == 0); vk_cover("done"); }
