//@ run quick hist -DMODE=1 -DN=5 -DK=3 covers:ran,late,gone
//@ run quick race -DMODE=2 covers:ran,gone,late
//@ run quick race-weak -DMODE=2 --weak --preempt 2 covers:ran,gone
//@ run quick reg2 -DMODE=3 covers:ran,late
//@ run quick reg2-weak -DMODE=3 --weak --preempt 1 covers:ran,late
//@ run quick reg2-same-weak -DMODE=3 -DSAME --weak --preempt 1 covers:ran,late
//@ run thorough reg2-same-weak3 -DMODE=3 -DSAME --weak --preempt 3 covers:ran,late
//@ run quick chunk -DMODE=4 -DPRE=16 -DMORE=2 covers:ran
//@ run quick chunk33 -DMODE=4 -DPRE=47 -DMORE=2 covers:ran
//@ run quick grow -DMODE=5 -DPRE=16 --preempt 1 covers:done
//@ run quick chain -DMODE=9 -DPRE=16 -DMORE=33 -DONE=1 --preempt 1 covers:done
//@ run quick tail -DMODE=9 -DPRE=16 -DMORE=1 -DONE=2 --preempt 1 covers:done
//@ run quick grow-weak1 -DMODE=5 -DPRE=16 --weak --preempt 1 covers:done
//@ run quick inside -DMODE=6 covers:self,other,new
//@ run quick inside-threads -DMODE=7 covers:ran,gone
//@ run quick reuse -DMODE=8 -DPRE=12 -DN=6 -DK=3 covers:done
//@ run quick reuse30 -DMODE=8 -DPRE=12 -DN=9 -DK=3 covers:done
//@ run quick hist7 -DMODE=1 -DN=7 -DK=3 covers:ran,late,gone
//@ run quick race-weak4 -DMODE=2 --weak --preempt 4 covers:ran,gone
//@ run quick reg2-weak3 -DMODE=3 --weak --preempt 3 covers:ran,late
//@ run quick grow3 -DMODE=5 -DPRE=16 --preempt 3 covers:done
//@ run thorough grow-weak -DMODE=5 -DPRE=16 --weak --preempt 2 covers:done
//@ run thorough chunk-all -DMODE=4 -DPRE=16 -DMORE=4 covers:ran
//@ run thorough inside-threads-weak -DMODE=7 --weak --preempt 3 covers:ran,gone
//@ run thorough hist7-l -DMODE=1 -DN=8 -DK=3 covers:ran,late,gone
//@ run thorough race-weak4-p -DMODE=2 --weak --preempt 5 covers:ran,gone
//@ run thorough reg2-weak3-p -DMODE=3 --weak --preempt 4 covers:ran,late
//@ run thorough reg2-same-weak3-p -DMODE=3 -DSAME --weak --preempt 4 covers:ran,late
//@ run thorough grow3-p -DMODE=5 -DPRE=16 --preempt 4 covers:done
//@ run thorough chain-p -DMODE=9 -DPRE=16 -DMORE=33 -DONE=1 --preempt 2 covers:done
//@ run quick tail-p -DMODE=9 -DPRE=16 -DMORE=1 -DONE=2 --preempt 2 covers:done
//@ run thorough grow-weak-p -DMODE=5 -DPRE=16 --weak --preempt 3 covers:done
//@ run quick reuse30-l -DMODE=8 -DPRE=12 -DN=10 -DK=3 covers:done
//@ run quick inside-threads-weak-p -DMODE=7 --weak --preempt 4 covers:ran,gone
#include "hx.h"
#include <macoro/stop.h>
using namespace macoro; using Cb = optional_stop_callback;
struct Log { int runs = 0; bool gone = false; void hit() { CHECKM(!gone, "a deregistered callback runs"); runs++; CHECKM(runs == 1, "a callback runs twice"); } };
#if MODE == 1    // any history on one thread
int main() { { auto sp = std::make_unique<stop_source>(); auto tp = std::make_unique<stop_token>(sp->get_token()); stop_source& s = *sp; stop_token& t = *tp; Cb cb[K]; Log log[N * 2]; int id[K], next = 0; bool req = false; for (int& i : id) i = -1;
    for (int n = 0; n < N; n++) { int k = (int)vk_choose("which", K); switch (vk_choose("op", 3)) {
        case 0: if (id[k] >= 0) break; id[k] = next++; { Log* l = &log[id[k]]; cb[k].emplace(t, [l] { l->hit(); }); CHECKM(l->runs == (req ? 1 : 0), "a callback runs at its registration iff stop was requested"); if (req) vk_cover("late"); } break;
        case 1: if (id[k] < 0) break; { int i = id[k]; id[k] = -1; int r = log[i].runs; cb[k].reset(); CHECK(log[i].runs == r); log[i].gone = true; if (!r) vk_cover("gone"); } break;
        case 2: s.request_stop(); req = true; break; }
        for (int i = 0; i < K; i++) if (id[i] >= 0) { CHECKM(log[id[i]].runs == (req ? 1 : 0), "exactly the registered callbacks have run"); if (req) vk_cover("ran"); } vk_merge(); }
    if (vk_coin("callbacks last")) { sp = nullptr; tp = nullptr; } for (int i = 0; i < K; i++) if (id[i] >= 0) { CHECKM(log[id[i]].runs == (req ? 1 : 0), "losing the source runs nothing"); int r = id[i]; cb[i].reset(); log[r].gone = true; } }
}
#elif MODE == 2  // a callback registered earlier is deregistered, another registered, while stop is requested
int main() { stop_source s; stop_token t = s.get_token(); int seen = 0; Log l1, l2, l3; stop_callback keep(t, [&] { l3.hit(); }); int pub = 0; Cb c1(std::in_place, t, [&] { l1.hit(); seen += pub; });
    VkThread a([&] { pub = 5; s.request_stop(); CHECKM(l3.runs == 1, "request_stop returns after the callbacks"); }); VkThread b([&] { c1.reset(); int r = l1.runs; l1.gone = true; if (r) vk_cover("ran"); else vk_cover("gone"); CHECK(!r || seen == 5); Cb c2(std::in_place, t, [&] { l2.hit(); }); bool was = t.stop_requested(); c2.reset(); l2.gone = true; if (l2.runs) vk_cover("late"); (void)was; });
    a.start(); b.start(); a.join(); b.join(); CHECKM(l3.runs == 1, "a registered callback runs"); }
#elif MODE == 3  // two threads register while a third requests stop; both callbacks run exactly once
int main() { stop_source s; stop_token t = s.get_token(); Log l[2]; Cb c[2]; bool early[2] = {}; auto reg = [&](int i) { int me = vk_tid(); c[i].emplace(t, [&l, i, me, &early] { l[i].hit(); if (vk_tid() == me) early[i] = true; }); };
    VkThread a([&] { s.request_stop(); }); VkThread b([&] { reg(0); }); VkThread d([&] { reg(1); }); 
#ifdef SAME   // both share a list: it is chosen by the thread's number modulo two
    b.start(); a.start(); d.start();
#else
    a.start(); b.start(); d.start();
#endif
    b.join(); d.join(); a.join(); CHECKM(l[0].runs == 1 && l[1].runs == 1, "callbacks registered around the request run exactly once"); if (early[0]) vk_cover("late"); else vk_cover("ran"); for (int i = 0; i < 2; i++) { c[i].reset(); l[i].gone = true; } s.request_stop(); }
#elif MODE == 4  // more callbacks than a chunk holds; any of them removed before, its place taken again
int main() { { stop_source s; stop_token t = s.get_token(); constexpr int K = PRE + 2 * MORE; static Log l[K]; auto c = std::make_unique_for_overwrite<Cb[]>(K); auto reg = [&](int i) { c[i].emplace(t, [i] { l[i].hit(); }); }; for (int i = 0; i < PRE; i++) reg(i);
    for (int j = 0; j < MORE; j++) { reg(PRE + j); unsigned k = vk_choose("removed", PRE + 2 * MORE); if (c[k]) { c[k].reset(); l[k].gone = true; } reg(PRE + MORE + j); vk_merge(); }
    s.request_stop(); for (int i = 0; i < K; i++) CHECKM(l[i].runs == (l[i].gone ? 0 : 1), "exactly the registered callbacks run"); for (int i = 0; i < K; i++) c[i].reset(); vk_cover("ran"); } }
#elif MODE == 5  // the storage grows on two threads at the same time as stop is requested
int main() { { stop_source s; stop_token t = s.get_token(); static Log l[2 * PRE + 2]; static Cb c[2 * PRE + 2]; auto reg = [&](int i) { c[i].emplace(t, [i] { l[i].hit(); }); }; 
    VkThread b([&] { for (int i = 0; i < PRE; i++) reg(PRE + i); }); b.start(); b.join(); for (int i = 0; i < PRE; i++) reg(i);   // fill every list
    VkThread d([&] { reg(2 * PRE); }); VkThread a([&] { s.request_stop(); }); d.start(); a.start(); reg(2 * PRE + 1); d.join(); a.join(); for (auto& x : l) CHECKM(x.runs == 1, "every callback runs once"); for (auto& x : c) x.reset(); vk_cover("done"); } }
#elif MODE == 9  // threads that share a list register while one of them appends to it, perhaps more than once
int main() { { stop_source s; stop_token t = s.get_token(); static Log l[PRE + MORE + ONE]; static Cb c[PRE + MORE + ONE]; auto reg = [&](int i) { c[i].emplace(t, [i] { l[i].hit(); }); }; for (int i = 0; i < PRE; i++) reg(i);
    VkThread d0([] {}); VkThread a([&] { for (int i = 0; i < MORE; i++) reg(PRE + i); }); VkThread d1([] {}); VkThread b([&] { reg(PRE + MORE); }); VkThread d2([] {}); VkThread d([&] { if (ONE > 1) reg(PRE + MORE + 1); });
    d0.start(); d0.join(); a.start(); d1.start(); d1.join(); b.start(); d2.start(); d2.join(); d.start(); a.join(); b.join(); d.join(); s.request_stop(); for (auto& x : l) CHECKM(x.runs == 1, "every callback runs once"); for (auto& x : c) x.reset(); vk_cover("done"); } }
#elif MODE == 6  // callbacks that deregister themselves, others, and register new ones
int main() { { stop_source s; stop_token t = s.get_token(); static Log l[4]; static Cb c[4]; int what = (int)vk_choose("what", 4); 
    auto act = [&](int i) { if (what == 0) { l[i].gone = true; vk_cover("self"); c[i].reset(); } else if (what == 1) { int o = 1 - i; if (c[o]) { bool ran = l[o].runs; c[o].reset(); l[o].gone = true; if (!ran) vk_cover("other"); } } else if (what == 2 && !c[2]) { c[2].emplace(t, [&] { l[2].hit(); }); CHECKM(l[2].runs == 1, "a callback registered during the request runs at once"); vk_cover("new"); } else s.request_stop(); };
    for (int i = 0; i < 2; i++) c[i].emplace(t, [&, i] { l[i].hit(); act(i); }); s.request_stop(); CHECKM(l[0].runs + l[1].runs == (what == 1 ? 1 : 2), "a callback deregistered by another does not run"); for (auto& x : c) x.reset(); } }
#elif MODE == 8  // places of deregistered callbacks are used again: no growth while few are registered at a time
int main() { { stop_source s; stop_token t = s.get_token(); auto c = std::make_unique_for_overwrite<Cb[]>(PRE + K); int ran = 0; auto reg = [&](int i) { c[i].emplace(t, [&ran] { ran++; }); }; for (int i = 0; i < PRE; i++) reg(i); int had = vk_liveheap(); for (int n = 0; n < N; n++) { int k = (int)PRE + (int)vk_choose("which", K); if (c[k]) c[k].reset(); else reg(k); CHECKM(vk_liveheap() == had, "registering again needs no more memory"); vk_merge(); } int on = 0; for (int i = 0; i < PRE + K; i++) on += c[i].has_value(); s.request_stop(); CHECKM(ran == on, "exactly the registered callbacks run"); vk_cover("done"); } CHECK(vk_liveheap() == 0); }
#else            // a callback deregisters itself while another thread deregisters others
int main() { stop_source s; stop_token t = s.get_token(); Log l[3]; Cb c[3]; c[0].emplace(t, [&] { l[0].hit(); l[0].gone = true; c[0].reset(); }); c[1].emplace(t, [&] { l[1].hit(); }); c[2].emplace(t, [&] { l[2].hit(); });
    VkThread a([&] { s.request_stop(); }); VkThread b([&] { c[1].reset(); l[1].gone = true; if (l[1].runs) vk_cover("ran"); else vk_cover("gone"); s.request_stop(); }); a.start(); b.start(); c[2].reset(); l[2].gone = true; a.join(); b.join(); CHECK(l[0].runs == 1 && !c[0]); }
#endif
