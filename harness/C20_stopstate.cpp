//@ run quick hist -DMODE=1 -DM=3 -DN=3 covers:stopped,hopeless,live
//@ run quick hist2 -DMODE=1 -DM=2 -DN=4 covers:stopped,hopeless,live
//@ run quick two -DMODE=2 covers:saw,unsaw
//@ run quick two-weak -DMODE=2 --weak --preempt 2 covers:saw,unsaw
//@ run quick drop -DMODE=3 covers:done
//@ run quick drop-weak -DMODE=3 --weak --preempt 2 covers:done
//@ run quick twice -DMODE=4 --preempt 3 covers:done
//@ run quick self -DMODE=5 covers:done
//@ run quick many -DMODE=6 -DN=300 covers:done
//@ run quick last -DMODE=7 covers:stopped,not
//@ run thorough hist4 -DMODE=1 -DM=3 -DN=4 covers:stopped,hopeless,live
//@ run thorough hist2-6 -DMODE=1 -DM=2 -DN=6 covers:stopped,hopeless,live
//@ run quick drop-weak4 -DMODE=3 --weak --preempt 4 covers:done
//@ run quick twice-weak -DMODE=4 --weak --preempt 3 covers:done
//@ run thorough hist2-6-l -DMODE=1 -DM=2 -DN=7 covers:stopped,hopeless,live
//@ run quick two-weak-p -DMODE=2 --weak --preempt 3 covers:saw,unsaw
//@ run thorough drop-weak4-p -DMODE=3 --weak --preempt 5 covers:done
//@ run quick twice-p -DMODE=4 --preempt 4 covers:done
//@ run quick many-l -DMODE=6 -DN=301 covers:done
//@ run quick twice-weak-p -DMODE=4 --weak --preempt 4 covers:done
#include "hx.h"
#include <macoro/stop.h>
#include <macoro/detail/operation_cancelled.h>
using namespace macoro;
#if MODE == 1   // any history of two stop states, three sources and three tokens
int main() { { stop_source s[M]; stop_token t[M]; int si[M], ti[M]; for (int i = 0; i < M; i++) { si[i] = i; ti[i] = -1; } bool req[M] = {};
    for (int n = 0; n < N; n++) { int a = (int)vk_choose("a", M), b = (int)vk_choose("b", M); switch (vk_choose("op", 10)) {
        case 0: s[a] = s[b]; si[a] = si[b]; break;
        case 1: s[a] = std::move(s[b]); if (a != b) { si[a] = si[b]; si[b] = -1; } break;
        case 2: t[a] = s[b].get_token(); ti[a] = si[b]; break;
        case 3: t[a] = t[b]; ti[a] = ti[b]; break;
        case 4: t[a] = std::move(t[b]); if (a != b) { ti[a] = ti[b]; ti[b] = -1; } break;
        case 5: s[a].request_stop(); if (si[a] >= 0) req[si[a]] = true; break;
        case 6: swap(t[a], t[b]); std::swap(ti[a], ti[b]); break;
        case 7: { stop_source x(s[a]); stop_source y(std::move(x)); CHECK(y.stop_possible() == (si[a] >= 0) && !x.stop_possible()); s[b] = y; si[b] = si[a]; } break;
        case 8: { stop_token x(t[a]); stop_token y(std::move(x)); t[b] = y; ti[b] = ti[a]; CHECK(!x.stop_possible()); } break;
        case 9: t[a] = stop_token(); ti[a] = -1; break; }
        bool alive[M] = {}; for (int i = 0; i < M; i++) { if (si[i] >= 0) alive[si[i]] = true; CHECKM(s[i].stop_possible() == (si[i] >= 0), "a source can request unless it was moved from"); CHECKM(s[i].stop_requested() == (si[i] >= 0 && req[si[i]]), "sources agree on the request"); }
        for (int i = 0; i < M; i++) { bool r = ti[i] >= 0 && req[ti[i]]; CHECKM(t[i].stop_requested() == r, "tokens agree on the request"); CHECKM(t[i].stop_possible() == (r || (ti[i] >= 0 && alive[ti[i]])), "a token can be stopped while a source exists or stop was requested");
            bool thrown = false; try { t[i].throw_if_stop_requested(); } catch (operation_cancelled&) { thrown = true; } CHECKM(thrown == r, "throw_if_stop_requested throws iff stop was requested"); if (r) vk_cover("stopped"); else if (ti[i] >= 0 && !alive[ti[i]]) vk_cover("hopeless"); else if (ti[i] >= 0) vk_cover("live"); }
        bool used = false; for (int i = 0; i < M; i++) used |= ti[i] >= 0 || si[i] >= 0; if (!used) CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); vk_merge(); } }
    CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); }
#elif MODE == 2 // what was written before the request is visible to whoever sees it
int main() { stop_source s; stop_token t = s.get_token(); int data = 0; VkThread a([&, s2 = s]() mutable { data = 7; s2.request_stop(); CHECK(s2.stop_requested()); }); VkThread b([&, t2 = t] { bool r = t2.stop_requested(); if (r) { CHECK(data == 7); CHECKM(t2.stop_requested(), "a request is not taken back"); vk_cover("saw"); } else vk_cover("unsaw"); CHECK(t2.stop_possible()); }); a.start(); b.start(); a.join(); b.join(); CHECK(t.stop_requested() && s.stop_requested()); }
#elif MODE == 3 // users disappear on three threads in any order
int main() { { auto* s = new stop_source; auto* t = new stop_token(s->get_token()); auto* t2 = new stop_token(*t); VkThread a([=] { { stop_source c(*s); stop_token d = c.get_token(); } delete s; }); VkThread b([=] { { stop_token c(*t); stop_token d; d = std::move(c); } delete t; }); a.start(); b.start(); { bool p = t2->stop_possible(); stop_token e = *t2; if (!p) CHECKM(!e.stop_possible(), "stop stays impossible"); optional_stop_callback cb(std::in_place, *t2, [] { vk_fail("nobody requested"); }); delete t2; } a.join(); b.join(); } CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); vk_cover("done"); }
#elif MODE == 4 // two requests at a time
int main() { { stop_source s; stop_source s2 = s; stop_token t = s.get_token(); int n = 0; stop_callback cb(t, [&] { n++; CHECK(t.stop_requested()); }); VkThread a([&] { s.request_stop(); CHECK(t.stop_requested()); }); a.start(); s2.request_stop(); CHECK(t.stop_requested() && s.stop_requested()); a.join(); CHECKM(n == 1, "a second request changes nothing"); } vk_cover("done"); }
#elif MODE == 6 // many sources and tokens at a time
int main() { { auto s = std::make_unique<stop_source[]>(N); auto t = std::make_unique<stop_token[]>(N); bool both = vk_flag("both"); t[0] = s[0].get_token(); for (int i = 1; i < N; i++) { s[i] = stop_source(std::as_const(s[0])); CHECKM(t[0].stop_possible(), "a source exists"); } for (int i = 0; i < N; i++) { t[i] = s[i].get_token(); CHECK(s[0].stop_possible() && !t[i].stop_requested() && t[0].stop_possible()); } 
    bool req = vk_flag("request"); if (req) s[N / 2].request_stop(); for (int i = 0; i < N; i++) { CHECK(t[i].stop_requested() == req && s[i].stop_requested() == req); } if (both) t = nullptr; s = nullptr; if (!both) for (int i = 0; i < N; i++) CHECKM(t[i].stop_possible() == req && t[i].stop_requested() == req, "no source is left"); else CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); } CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); vk_cover("done"); }
#elif MODE == 7 // source, token and callback, with or without a request and a callback that ran, leave in any order
int main() { { auto s = std::make_unique<stop_source>(); auto t = std::make_unique<stop_token>(s->get_token()); int n = 0; int when = (int)vk_choose("request", 3); if (when == 1) s->request_stop(); auto c = std::make_unique<stop_callback>(*t, [&] { n++; }); if (vk_flag("callback")) c = nullptr; bool had = (bool)c || when == 1; if (when == 2) s->request_stop(); unsigned o = vk_choose("order", 6); static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int i = 0; i < 3; i++) { if (P[o][i] == 0) s = nullptr; else if (P[o][i] == 1) t = nullptr; else c = nullptr; if (t) CHECK(t->stop_requested() == (when > 0) && t->stop_possible() == (when > 0 || s)); CHECK(n == (when && had)); } if (when) vk_cover("stopped"); } CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); vk_cover("not"); }
#else           // assignments onto itself and to and from empty ones
int main() { { stop_source s; auto& r = s; stop_token t = s.get_token(); auto& q = t; s = r; t = q; s = std::move(r); t = std::move(q); t.swap(q); CHECK(s.stop_possible() && t.stop_possible()); { stop_source u; t = u.get_token(); CHECK(t.stop_possible()); } CHECK(!t.stop_possible() && !t.stop_requested()); { stop_source u = s; t = u.get_token(); } CHECK(t.stop_possible()); { optional_stop_callback cb(std::in_place, t, [] {}); stop_source e(std::move(s)); t = stop_token(); s = std::move(e); e = s; } stop_callback c2(stop_token(), [] { vk_fail("an empty token never stops"); }); s.request_stop(); } CHECK(vk_liveheap() == 0); vk_cover("done"); }
#endif
