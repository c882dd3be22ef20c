//@ run quick two -DMODE=1 covers:suspended
//@ run quick two-weak -DMODE=1 --weak
//@ run quick reuse -DMODE=2 covers:done
//@ run quick reuse-weak -DMODE=2 --weak covers:done
//@ run quick histories -DMODE=3 -DN=4 covers:ready,suspended
//@ run quick none -DMODE=4 covers:done
//@ run quick add-while -DMODE=5 covers:done
//@ run quick add-while-weak -DMODE=5 --weak covers:done
//@ run quick histories6 -DMODE=3 -DN=7 covers:ready,suspended
//@ run quick three -DMODE=6 covers:done
//@ run quick three-weak -DMODE=6 --weak --preempt 3 covers:done
//@ run quick histories6-l -DMODE=3 -DN=8 covers:ready,suspended
//@ run quick three-weak-p -DMODE=6 --weak --preempt 4 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/barrier.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static int w[3], resumed;
task<void> wait(barrier& b, int n) { co_await b; resumed++; for (int i = 0; i < n; i++) CHECK(w[i] == 1); }
#if MODE == 1    // two decrements on two threads, the third party waits and destroys the barrier as soon as it is released
int main() {
    auto* b = new barrier(2); VkThread t([&] { w[0] = 1; b->decrement(); }); VkThread u([&] { w[1] = 1; b->decrement(); }); t.start(); u.start();
    if (b->count()) vk_cover("suspended"); else CHECK(w[0] == 1 && w[1] == 1); sync_wait(wait(*b, 2)); CHECK(resumed == 1); CHECK(b->count() == 0); delete b; t.join(); u.join();
}
#elif MODE == 2  // reached, then used again at once: the first round's thread may still be leaving decrement()
int main() {
    auto* b = new barrier; CHECK(b->add(1) == 1); VkThread t([&] { w[0] = 1; b->decrement(); }); VkThread u([&] { w[1] = 1; b->decrement(); }); t.start(); sync_wait(wait(*b, 1)); CHECK(resumed == 1);
    CHECK(b->increment() == 1); u.start(); sync_wait(wait(*b, 2)); CHECK(resumed == 2); delete b; t.join(); u.join(); vk_cover("done");
}
#elif MODE == 3  // histories on one thread
Fire aw(barrier& b) { co_await b; resumed++; }
int main() {
    unsigned c = vk_choose("initial", 3); barrier b(c); bool waiting = false; 
    for (int i = 0; i < N; i++) {
        unsigned op = vk_choose("op", 4), k = vk_choose("amount", 3); resumed = 0;
        switch (op) {
        case 0: CHECK(b.add(k) == c + k); c += k; CHECK(resumed == 0); break;
        case 1: CHECK(b.increment() == c + 1); c++; CHECK(resumed == 0); break;
        case 2: if (!c) break; CHECK(b.decrement() == c - 1); c--; if (waiting && !c) { CHECK(resumed == 1); waiting = false; } else CHECK(resumed == 0); break;
        case 3: if (waiting) break; aw(b); if (c) { CHECK(resumed == 0); waiting = true; vk_cover("suspended"); } else { CHECK(resumed == 1); vk_cover("ready"); } break;
        }
        CHECK(b.count() == c); vk_merge();
    }
    while (c) { resumed = 0; b.decrement(); c--; CHECK(resumed == (waiting && !c)); }
}
#elif MODE == 4  // the decrement races with a waiter that may come first or last; then it is gone
int main() {
    { barrier b(1); VkThread t([&] { w[0] = 1; b.decrement(); }); t.start(); sync_wait(wait(b, 1)); CHECK(resumed == 1); t.join(); CHECK(b.count() == 0); resumed = 0; sync_wait(wait(b, 1)); CHECK(resumed == 1); }
    vk_cover("done");
}
#elif MODE == 5  // a worker adds more work while it still holds the barrier
int main() {
    auto* b = new barrier(1); VkThread u([&] { w[1] = 1; b->decrement(); }); VkThread t([&] { b->increment(); u.start(); w[0] = 1; b->decrement(); }); t.start(); sync_wait(wait(*b, 2)); CHECK(resumed == 1); delete b; t.join(); u.join(); vk_cover("done");
}
#else
int main() {
    auto* b = new barrier(3); VkThread t([&] { w[0] = 1; b->decrement(); }); VkThread u([&] { w[1] = 1; b->decrement(); }); VkThread v([&] { w[2] = 1; b->decrement(); }); t.start(); u.start(); v.start(); sync_wait(wait(*b, 3)); CHECK(resumed == 1); delete b; t.join(); u.join(); v.join(); vk_cover("done");
}
#endif
