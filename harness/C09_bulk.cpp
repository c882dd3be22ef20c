//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk5000 -DN=5000 --insts 400 covers:done
#include "bulk.h"
#include <macoro/manual_reset_event.h>
using namespace macoro;
// hundreds of waiters, some of which wait again at once
static int n[N], again;
Fire wait(const async_manual_reset_event& e, int k, int twice) { co_await e; n[k]++; if (k == twice) { again++; const_cast<async_manual_reset_event&>(e).reset(); co_await e; n[k]++; } }
int main() { async_manual_reset_event e; int t = pick("waits again"); for (int i = 0; i < N; i++) wait(e, i, t); for (int x : n) CHECK(x == 0); e.set(); for (int i = 0; i < N; i++) CHECKM(n[i] == 1, "every waiter is resumed once"); CHECK(again == 1); e.set(); for (int i = 0; i < N; i++) CHECKM(n[i] == (i == t ? 2 : 1), "every waiter is resumed once"); vk_cover("done"); }
