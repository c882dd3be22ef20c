//@ run quick bulk100 -DN=100 --insts 400 covers:done
#include "bulk.h"
#include <macoro/task.h>
#include <macoro/trace.h>
using namespace macoro;
// a chain of hundreds, two coroutines in turn
static int asked, D;
task<int> other_level(int d);
task<int> level(int d) { if (!d) { trace t = co_await get_trace{}; asked++; CHECKM((int)t.stack.size() == D + 2, "one entry per awaiting coroutine"); for (int i = 1; i <= D; i++) { int up = i; CHECKM((int)t.stack[i].line() == (up & 1 ? 201 : 100), "the place where it awaits"); } co_return 1; }
#line 100
    int r = co_await other_level(d - 1); co_return r + 1; }
#line 200
task<int> other_level(int d) {
    int r = co_await level(d - 1); co_return r + 1; }
Fire top() { int r = co_await level(D); CHECK(r == D + 1); }
int main() { D = pick("depth") & ~1; top(); CHECK(asked == 1); vk_cover("done"); }
