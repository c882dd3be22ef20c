//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run quick bulk66000 -DN=66000 --insts 400 covers:done
#include "bulk.h"
#include <macoro/barrier.h>
using namespace macoro;
// large counts; a barrier used for many rounds
static int resumed;
Fire wait(barrier& b) { co_await b; resumed++; }
int main() { barrier b; uint64_t big = vk_sym("count", 48); vk_assume(big > 2); CHECK(b.add(big) == big); CHECK(b.count() == big); wait(b); CHECKM(!resumed, "not before the count reaches zero"); CHECK(b.decrement() == big - 1 && b.count() == big - 1); CHECKM(!resumed, "not before the count reaches zero"); CHECK(b.increment() == big);
    resumed = 0; { barrier c(N); wait(c); for (int i = 1; i < N; i++) { CHECK(c.decrement() == (uint64_t)(N - i)); CHECKM(!resumed, "not before the count reaches zero"); } CHECK(c.decrement() == 0); CHECKM(resumed == 1, "resumed once, at zero"); }
    { barrier c; for (int i = 0; i < N / 10; i++) { CHECK(c.add(3) == 3); wait(c); c.decrement(); c.decrement(); CHECK(resumed == 1 + i); c.decrement(); CHECK(resumed == 2 + i); } }
    vk_assume(big == 3); b.decrement(); b.decrement(); CHECK(resumed == 1 + N / 10); b.decrement(); CHECK(resumed == 2 + N / 10); vk_cover("done"); }
