//@ run quick hist -DMODE=1 -DN=5 covers:suspended,ready
//@ run quick race -DMODE=2 covers:suspended,ready
//@ run quick race-weak -DMODE=2 --weak covers:suspended,ready
//@ run quick setters -DMODE=3 covers:done
//@ run quick setters-weak -DMODE=3 --weak --preempt 2 covers:done
//@ run quick reset -DMODE=4 covers:left,through
//@ run quick reset-weak -DMODE=4 --weak covers:left,through
//@ run quick gone -DMODE=5 covers:done
//@ run quick publish -DMODE=6 covers:set,unset
//@ run quick publish-weak -DMODE=6 --weak covers:set,unset
//@ run quick hist8 -DMODE=1 -DN=8 covers:suspended,ready
//@ run quick setters-weak-all -DMODE=3 --weak covers:done
//@ run quick three -DMODE=7 covers:done
//@ run quick three-weak -DMODE=7 --weak --preempt 2 covers:done
//@ run quick hist8-l -DMODE=1 -DN=9 covers:suspended,ready
//@ run quick three-weak-p -DMODE=7 --weak --preempt 3 covers:done
#include "hx.h"
#include <cassert>
#include <macoro/manual_reset_event.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
static std::atomic<int> resumed[3]; static int data; static bool begun[3];
Fire wait(const async_manual_reset_event& e, int k, bool look = true) { begun[k] = true; co_await e; if (look) CHECKM(data == 1, "what happened before set is visible after the wait"); CHECKM(resumed[k].fetch_add(1, std::memory_order_relaxed) == 0, "a waiter is resumed once"); }
#if MODE == 1   // any history on one thread
int main() {
    data = 1; bool set = vk_coin("initially"), waiting[3] = {}; int next = 0; async_manual_reset_event e(set);
    for (int i = 0; i < N; i++) {
        switch (vk_choose("op", 3)) {
        case 0: e.set(); set = true; for (int k = 0; k < next; k++) waiting[k] = false; break;
        case 1: e.reset(); set = false; break;
        case 2: if (next == 3) break; wait(e, next); if (set) vk_cover("ready"); else vk_cover("suspended"); waiting[next] = !set; next++; break;
        }
        CHECK(e.is_set() == set); for (int k = 0; k < next; k++) CHECK(resumed[k] == !waiting[k]); vk_merge();
    }
    e.set(); for (int k = 0; k < next; k++) CHECK(resumed[k] == 1); vk_assume(e.is_set()); 
}
#elif MODE == 2 // two waiters on two threads, one set
int main() {
    async_manual_reset_event e; VkThread a([&] { wait(e, 0); }); VkThread b([&] { wait(e, 1); }); a.start(); b.start(); CHECK(!e.is_set() && resumed[0] == 0); data = 1; e.set(); CHECK(e.is_set());
    if (resumed[0]) vk_cover("suspended"); else vk_cover("ready"); a.join(); b.join(); CHECKM(resumed[0] == 1 && resumed[1] == 1, "no waiter is lost"); }
#elif MODE == 3 // two threads set at once while two wait
int main() {
    async_manual_reset_event e; data = 1; VkThread a([&] { wait(e, 0); }); VkThread s([&] { e.set(); }); VkThread t([&] { e.set(); }); a.start(); s.start(); t.start(); wait(e, 1); a.join(); s.join(); t.join(); CHECK(e.is_set()); CHECKM(resumed[0] == 1 && resumed[1] == 1, "no waiter is lost"); vk_cover("done"); }
#elif MODE == 4 // set, then reset, racing with a waiter: it went through, or waits for the next set
int main() {
    async_manual_reset_event e; data = 1; VkThread a([&] { wait(e, 0); }); VkThread s([&] { e.set(); e.reset(); }); a.start(); s.start(); a.join(); s.join(); CHECK(!e.is_set()); if (resumed[0]) vk_cover("through"); else vk_cover("left"); wait(e, 1); CHECK(resumed[1] == 0); e.set(); CHECK(resumed[0] == 1 && resumed[1] == 1); }
#elif MODE == 5 // the waiter destroys the event as soon as it is through
task<> w(async_manual_reset_event& e) { co_await e; }
int main() { auto* e = new async_manual_reset_event; VkThread s([&] { e->set(); }); s.start(); sync_wait(w(*e)); delete e; s.join(); vk_cover("done"); }
#elif MODE == 6 // is_set publishes as well; reset does not disturb a waiter
int main() {
    async_manual_reset_event e; VkThread s([&] { data = 1; e.set(); }); VkThread r([&] { e.reset(); }); s.start(); if (vk_flag("reset")) { r.start(); r.join(); } if (e.is_set()) { CHECK(data == 1); vk_cover("set"); } else vk_cover("unset"); s.join(); }
#else
int main() {
    async_manual_reset_event e; VkThread a([&] { wait(e, 0); }); VkThread b([&] { wait(e, 1); }); VkThread c([&] { wait(e, 2); }); a.start(); b.start(); c.start(); data = 1; e.set(); e.reset(); a.join(); b.join(); c.join(); e.set(); for (int k = 0; k < 3; k++) CHECK(resumed[k] == 1); vk_cover("done"); }
#endif
