// Native replay: runs the real machine code of the library under the schedule, inputs and choices the solver returned.
// Threads are real pthreads but only the one named by the script runs. Atomics, plain accesses and synchronisation calls arrive
// through the hooks of LLVM's ThreadSanitizer pass and through renamed pthread_*/malloc symbols.
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <cxxabi.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
static const int NT = 8;
struct VC { u32 c[NT] = {}; void join(const VC& o) { for (int i = 0; i < NT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Step { int tid; bool end; u32 stop; int pend; };
struct Th { pthread_t p; u32 ops = 0; int status = 0; VC vc, facq, frel; char* sp = nullptr; char* lo = nullptr; char* hi = nullptr; u32 nsym = 0; int blk = 0; void* obj = nullptr; void* mtx = nullptr; bool timed = false, signalled = false, yielded = false; };
static Th T[NT]; static int nth = 1; static std::vector<Step> script; static size_t pos = 0; static std::map<std::pair<int, u32>, u64> choices, inputs, timeouts; static std::string expectKind; 
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t GC[NT]; static int running = 0; static thread_local int me = 0; static thread_local int inrt = 0;
static bool scripted = true; static int64_t nowNs = 0; static std::set<std::string> covers; static bool leakcheck = true; static bool inMain = false;
struct Enter { Enter() { inrt++; } ~Enter() { inrt--; } };
[[noreturn]] static void done(int rc) { fflush(stdout); _exit(rc); }
[[noreturn]] static void report(const char* kind, const std::string& msg) { inrt++; printf("REPRODUCED kind=%s thread=%d step=%zu: %s\n", kind, me, pos, msg.c_str()); done(1); }
[[noreturn]] static void diverge(const std::string& m) { inrt++; printf("DIVERGED thread=%d step=%zu ops=%u: %s\n", me, pos, T[me].ops, m.c_str()); done(3); }
static void onsig(int s, siginfo_t* si, void*) { char b[160]; int n = snprintf(b, sizeof b, "REPRODUCED kind=%s thread=%d step=%zu: signal %d at address %p\n", s == SIGALRM ? "hang" : "crash", me, pos, s, si ? si->si_addr : nullptr); (void)!write(1, b, n); _exit(s == SIGALRM ? 4 : 1); }
// ---- shadow
struct Rec { int tid; bool w, at; u32 clk; }; static std::map<u64, std::vector<Rec>>* shadow; 
struct Blk { u64 n; bool live; u8 how; bool pre; }; static std::map<u64, Blk>* heap; struct AMsg { u64 v; VC rel; }; static std::map<u64, std::vector<AMsg>>* hist;
struct Mx { int owner = -1; VC vc; int depth = 0; }; static std::map<void*, Mx>* mxs;
static void onAccess(u64 a, u64 n, bool w, bool at) {
    if (inrt || !inMain) return; Enter e; Th& t = T[me];
    auto it = heap->upper_bound(a); if (it != heap->begin()) { --it; if (a < it->first + it->second.n + 16) { if (!it->second.live) report("use-after-free", std::string(w ? "write" : "read") + " of freed memory"); if (a + n > it->first + it->second.n) report("out-of-bounds", "heap access past the end"); } }
    if (a < 65536) report("null-deref", "access near address 0");
    char* pa = (char*)a; for (int i = 0; i < nth; i++) if (pa >= T[i].lo && pa < T[i].hi) { if (T[i].status >= 2) report("use-after-free", "access to the stack of a finished thread"); if (i != me && T[i].sp && pa < T[i].sp) report("use-after-free", "access to a dead stack frame of another thread"); }
    for (u64 k = 0; k < n; k++) { auto& v = (*shadow)[a + k]; size_t o = 0; for (size_t i = 0; i < v.size(); i++) { Rec& r = v[i]; bool hb = r.tid == me || t.vc.c[r.tid] >= r.clk; if (!hb && (r.w || w) && !(r.at && at)) report("data-race", std::string(w ? "write" : "read") + (at ? " (atomic)" : "") + " is not ordered after a " + (r.w ? "write" : "read") + (r.at ? " (atomic)" : "") + " by thread " + std::to_string(r.tid)); if (!(hb && ((w && (!at || r.at)) || (r.tid == me && r.w == w && r.at == at)))) v[o++] = r; } v.resize(o); v.push_back({me, w, at, t.vc.c[me]}); } }
// ---- scheduling
static void waitBaton() { while (running != me) pthread_cond_wait(&GC[me], &G); }
static bool blockedNow(int i); static u32 loops = 0;
static void give() { // choose the next thread according to the script
    if (pos < script.size()) { running = script[pos].tid; if (running >= nth) diverge("script names a thread that does not exist"); pthread_cond_signal(&GC[running]); return; }
    if (expectKind == "deadlock") { for (int i = 0; i < nth; i++) if (T[i].status == 1 && !blockedNow(i)) diverge("expected a deadlock but thread " + std::to_string(i) + " can run"); report("deadlock", "every live thread is blocked"); }
    if (expectKind == "livelock" && !loops) { int r = -1; for (int i = 0; i < nth; i++) if (T[i].status == 1 && !blockedNow(i)) { if (r >= 0) diverge("expected a livelock but two threads can run"); r = i; } if (r >= 0) { loops = 1; running = r; pthread_cond_signal(&GC[r]); return; } }
    printf("NOT-REPRODUCED: the script ended without the violation\n"); done(0); }
static bool blockedNow(int i) { switch (T[i].blk) { case 1: return (*mxs)[T[i].obj].owner >= 0; case 2: return !T[i].signalled || (*mxs)[T[i].mtx].owner >= 0; case 3: return T[(long)T[i].obj].status < 2; case 4: return T[i].yielded; default: return false; } }
// called before every counted operation
static void point(int blk = 0, void* obj = nullptr, void* mtx = nullptr) {
    if (!inMain) return; Th& t = T[me]; if (pos >= script.size()) { t.blk = blk; t.obj = obj; t.mtx = mtx; if (loops && (blk == 4 || !blockedNow(me))) { for (int i = 0; i < nth; i++) if (i != me && T[i].status == 1 && !blockedNow(i)) diverge("expected a livelock but another thread can run"); t.blk = 0; if (++loops > 100000) report("livelock", "the only runnable thread has passed 100000 synchronisation points without ending or blocking"); return; } t.blk = 0; give(); }
    Step& s = script[pos]; if (s.tid != me) diverge("running out of turn"); if (s.end || t.ops != s.stop) { if (!s.end && t.ops > s.stop) diverge("more operations than recorded"); return; }
    t.blk = blk; t.obj = obj; t.mtx = mtx; t.sp = (char*)__builtin_frame_address(0); if (blk == 4) t.yielded = true; pos++; pthread_mutex_lock(&G); give(); waitBaton(); pthread_mutex_unlock(&G); for (int i = 0; i < nth; i++) if (i != me) T[i].yielded = false; t.sp = nullptr; t.blk = 0; }
static bool choice(u64& v) { auto it = choices.find({me, T[me].ops}); if (it == choices.end()) return false; v = it->second; return true; }
static void fin() { Th& t = T[me]; t.status = 2; if (pos < script.size() && script[pos].tid == me && !script[pos].end) diverge("the thread ended earlier than recorded"); pos++; pthread_mutex_lock(&G); give(); pthread_mutex_unlock(&G); }
struct Start { void (*f)(void*); void* a; int id; };
static void bounds(int i) { pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* b; size_t n; pthread_attr_getstack(&at, &b, &n); T[i].lo = (char*)b; T[i].hi = (char*)b + n; pthread_attr_destroy(&at); }
static void altstack() { stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr); }
static void* tmain(void* p) { inrt++; Start* s = (Start*)p; me = s->id; bounds(me); altstack(); pthread_mutex_lock(&G); waitBaton(); pthread_mutex_unlock(&G); auto f = s->f; auto a = s->a; delete s; T[me].sp = nullptr; inrt--;
    try { f(a); } catch (abi::__forced_unwind&) { throw; } catch (...) { report("uncaught-exception", "exception leaves a thread"); } inrt++; fin(); pthread_mutex_lock(&G); while (true) pthread_cond_wait(&GC[me], &G); return nullptr; }
extern "C" int vk_user_main(int, char**);
extern "C" {
u64 vk_sym(const char*, u64 bits) { Enter e; auto it = inputs.find({me, T[me].nsym++}); u64 v = it == inputs.end() ? 0 : it->second; return bits < 64 ? v & ((1ull << bits) - 1) : v; }
void vk_assume(bool c) { if (!c) { Enter e; diverge("assumption does not hold"); } }
void vk_assert(bool c, const char* m) { if (!c) { Enter e; report("assertion", m); } }
void vk_fail(const char* m) { Enter e; report("assertion", m); }
void vk_cover(const char* m) { Enter e; covers.insert(m); }
void vk_noleak() { leakcheck = false; } int vk_tid() { return me; } int64_t vk_now() { return nowNs; } void vk_tick(int64_t n) { nowNs += n; }
__attribute__((noinline)) u64 vk_depth() { return ~(u64)__builtin_frame_address(0); }
u64 vk_liveheap() { Enter e; u64 n = 0; for (auto& b : *heap) n += b.second.live && !b.second.pre; return n; }
int vk_spawn(void (*f)(void*), void* a) { Enter e; point(); int n = nth; if (n >= NT) diverge("too many threads"); T[n].status = 1; T[n].vc = T[me].vc; T[n].vc.c[n] = 1; T[me].vc.c[me]++; T[me].ops++; pthread_cond_init(&GC[n], nullptr); nth++; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20); pthread_create(&T[n].p, &at, tmain, new Start{f, a, n}); return n; }
void vk_join(int n) { Enter e; if (n <= 0 || n >= nth) report("bad-join", "join of an unknown thread"); point(3, (void*)(long)n); if (T[n].status < 2) diverge("join of a running thread"); if (T[n].status == 3) report("bad-join", "thread joined twice"); T[n].status = 3; T[me].vc.join(T[n].vc); T[me].ops++; }
void vk_yield() { Enter e; point(4); T[me].ops++; }
extern "C" void vk_threadend() {}
void vk_merge() { Enter e; point(); T[me].ops++; }
int vkn_sched_yield() { vk_yield(); return 0; }
u64 vkn_self() { return me + 1; }
int64_t vkn_clock() { return nowNs; }
unsigned vkn_hwc() { return 2; }
static bool mxMine(void* m) { return (*mxs)[m].owner == me && ((pthread_mutex_t*)m)->__data.__kind == 1; }
static void mxLock(void* m) { Mx& x = (*mxs)[m]; if (x.owner == me && mxMine(m)) { x.depth++; return; } if (x.owner >= 0) diverge("lock of an owned mutex"); x.owner = me; T[me].vc.join(x.vc); }
static void mxUnlock(void* m) { Mx& x = (*mxs)[m]; if (x.owner != me) report("bad-unlock", "mutex unlocked by a thread that does not own it"); if (x.depth) { x.depth--; return; } x.owner = -1; x.vc.join(T[me].vc); T[me].vc.c[me]++; }
static void mxAcc(void* m) { int s = inrt; inrt = 0; onAccess((u64)m, 8, false, true); inrt = s; }
int vkn_lock(void* m) { Enter e; mxAcc(m); if (!inMain) return 0; if (mxMine(m)) { mxLock(m); T[me].ops++; return 0; } if ((*mxs)[m].owner == me && expectKind != "deadlock") report("deadlock", "a thread locks a mutex it already owns"); point(1, m); mxAcc(m); mxLock(m); T[me].ops++; return 0; }
int vkn_trylock(void* m) { Enter e; mxAcc(m); point(); mxAcc(m); T[me].ops++; if ((*mxs)[m].owner >= 0 && !mxMine(m)) return 16; mxLock(m); return 0; }
int vkn_unlock(void* m) { Enter e; if (!inMain) return 0; mxAcc(m); point(); T[me].ops++; mxUnlock(m); return 0; }
int vkn_mdestroy(void* m) { Enter e; auto it = mxs->find(m); if (it != mxs->end()) { if (it->second.owner >= 0) report("mutex-destroyed", "a locked mutex is destroyed"); mxs->erase(it); } return 0; }
static int cwait(void* c, void* m, bool timed, int64_t dl) { Enter e; mxAcc(c); point(); T[me].ops++; mxUnlock(m); T[me].signalled = false; T[me].timed = timed; point(2, c, m); T[me].obj = nullptr; int rv = 0; 
    if (!T[me].signalled) { auto w = timeouts.find({me, T[me].ops}); if (w == timeouts.end()) diverge("condition wait continued without a signal"); if (w->second != 2) { if (nowNs < dl) nowNs = dl; rv = 110; } } T[me].ops++; T[me].timed = false; mxAcc(m); mxLock(m); return rv; }
int vkn_cwait(void* c, void* m) { return cwait(c, m, false, 0); }
int vkn_ctimed(void* c, void* m, const struct timespec* ts) { return cwait(c, m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int vkn_cclock(void* c, void* m, int, const struct timespec* ts) { return cwait(c, m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
static int csig(void* c, bool all) { Enter e; mxAcc(c); point(); mxAcc(c); std::vector<int> w; for (int i = 0; i < nth; i++) if (T[i].status == 1 && T[i].blk == 2 && T[i].obj == c && !T[i].signalled) w.push_back(i); u64 k; if (!all && w.size() > 1) { if (!choice(k)) k = 0; w = {w[std::min<u64>(k, w.size() - 1)]}; } T[me].ops++; for (int i : w) T[i].signalled = true; return 0; }
int vkn_csignal(void* c) { return csig(c, false); } int vkn_cbcast(void* c) { return csig(c, true); }
int vkn_zero() { return 0; }
static void* allocp(u64 n, u64 al, u8 how) { Enter e; if (al < 16) al = 16; void* p = aligned_alloc(al, (n + 32 + al - 1) / al * al); memset(p, 0xA5, n); if (inMain) for (u64 k = 0; k < n; k++) shadow->erase((u64)p + k); (*heap)[(u64)p] = Blk{n, true, how, !inMain}; return p; }
static void freep(void* p, u8 how) { if (!p) return; auto* h = heap; { Enter e; auto it = h->find((u64)p); if (it == h->end()) { free(p); return; } if (!it->second.live) report("double-free", "object freed twice"); if (it->second.how != how) report("alloc-dealloc-mismatch", "mismatched deallocation"); } 
    int s = inrt; inrt = 0; onAccess((u64)p, std::max<u64>(1, (*h)[(u64)p].n), true, false); inrt = s; Enter e; (*h)[(u64)p].live = false; memset(p, 0xDD, (*h)[(u64)p].n); }
void* vkn_malloc(u64 n) { return allocp(n, 16, 0); } void* vkn_calloc(u64 a, u64 b) { void* p = allocp(a * b, 16, 0); memset(p, 0, a * b); return p; } void vkn_free(void* p) { freep(p, 0); }
void* vk_malloc(u64 n) { return allocp(n, 16, 0); } void* vk_new(u64 n) { return allocp(n, 16, 1); } void* vk_newarr(u64 n) { return allocp(n, 16, 2); }
void* vkn_new(u64 n) { return allocp(n, 16, 1); } void* vkn_newal(u64 n, u64 al) { return allocp(n, al, 1); } __attribute__((weak)) void* vkn_newarr(u64 n) { return allocp(n, 16, 2); } void* vkn_newarral(u64 n, u64 al) { return allocp(n, al, 2); } void vkn_del(void* p) { freep(p, 1); } void vkn_delarr(void* p) { freep(p, 2); }
void vkn_assert_fail(const char* m, const char* f, unsigned l, const char*) { Enter e; report("assert", std::string("library assertion failed: ") + m + " (" + f + ":" + std::to_string(l) + ")"); }
void vkn_abort() { Enter e; report("abort", "abort called"); }
void vkn_terminate() { Enter e; report("terminate", "std::terminate called"); }
// ---- ThreadSanitizer pass hooks
#define RW(n) void __tsan_read##n(void* a) { onAccess((u64)a, n, false, false); } void __tsan_write##n(void* a) { onAccess((u64)a, n, true, false); } void __tsan_unaligned_read##n(void* a) { onAccess((u64)a, n, false, false); } void __tsan_unaligned_write##n(void* a) { onAccess((u64)a, n, true, false); } void __tsan_read_write##n(void* a) { onAccess((u64)a, n, false, false); onAccess((u64)a, n, true, false); } void __tsan_unaligned_read_write##n(void* a) { onAccess((u64)a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*) { onAccess((u64)a, 8, true, false); } void __tsan_vptr_read(void** a) { onAccess((u64)a, 8, false, false); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void __tsan_read_range(void* a, u64 n) { onAccess((u64)a, n, false, false); } void __tsan_write_range(void* a, u64 n) { onAccess((u64)a, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, u64 n) { onAccess((u64)s, n, false, false); onAccess((u64)d, n, true, false); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, u64 n) { onAccess((u64)s, n, false, false); onAccess((u64)d, n, true, false); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, u64 n) { onAccess((u64)d, n, true, false); return memset(d, c, n); }
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } static bool rel(int mo) { return mo >= 3; }
static std::vector<AMsg>& H(u64 a, u64 cur) { auto& v = (*hist)[a]; if (v.empty() || v.back().v != cur) { if (!v.empty()) v.clear(); v.push_back({cur, VC()}); } return v; }
static void doAcq(const AMsg& m, int mo) { if (acq(mo)) T[me].vc.join(m.rel); else T[me].facq.join(m.rel); }
static void push(u64 a, u64 v, int mo, bool rmw) { auto& h = (*hist)[a]; AMsg m; m.v = v; m.rel = rel(mo) ? T[me].vc : T[me].frel; if (rmw && !h.empty()) m.rel.join(h.back().rel); h.push_back(m); if (rel(mo)) T[me].vc.c[me]++; }
template<class U> static U aload(volatile U* p, int mo) { if (inrt || !inMain) return *p; onAccess((u64)p, sizeof(U), false, true); { Enter e; point(); } onAccess((u64)p, sizeof(U), false, true); Enter e; auto& h = H((u64)p, (u64)*p); u64 back = 0; choice(back); if (back >= h.size()) diverge("stale read is not available"); AMsg m = h[h.size() - 1 - back]; doAcq(m, mo); T[me].ops++; return (U)m.v; }
template<class U> static void astore(volatile U* p, U v, int mo) { if (inrt || !inMain) { *p = v; return; } onAccess((u64)p, sizeof(U), true, true); { Enter e; point(); } onAccess((u64)p, sizeof(U), true, true); Enter e; H((u64)p, (u64)*p); push((u64)p, (u64)v, mo, false); *p = v; T[me].ops++; }
template<class U, class F> static U armw(volatile U* p, int mo, F f) { if (inrt || !inMain) { U o = *p; *p = f(o); return o; } onAccess((u64)p, sizeof(U), true, true); { Enter e; point(); } onAccess((u64)p, sizeof(U), true, true); Enter e; auto& h = H((u64)p, (u64)*p); AMsg m = h.back(); U o = (U)m.v, n = f(o); doAcq(m, mo); push((u64)p, (u64)n, mo, true); *p = n; T[me].ops++; return o; }
template<class U> static U acas(volatile U* p, U exp, U nv, int mo, int fmo) { if (inrt || !inMain) { U o = *p; if (o == exp) *p = nv; return o; } onAccess((u64)p, sizeof(U), true, true); { Enter e; point(); } onAccess((u64)p, sizeof(U), true, true); Enter e; auto& h = H((u64)p, (u64)*p); u64 c = 0; choice(c); if (c) { u64 k = 0; for (size_t i = h.size() - 1; i-- > 0;) if ((U)h[i].v != exp && ++k == c) { AMsg m = h[i]; doAcq(m, fmo); T[me].ops++; return (U)m.v; } diverge("stale compare-exchange read is not available"); }
    AMsg m = h.back(); U o = (U)m.v; if (o == exp) { doAcq(m, mo); push((u64)p, (u64)nv, mo, true); *p = nv; } else doAcq(m, fmo); T[me].ops++; return o; }
extern "C" {
#define AT(B, U) U __tsan_atomic##B##_load(const volatile U* p, int mo) { return aload<U>((volatile U*)p, mo); } void __tsan_atomic##B##_store(volatile U* p, U v, int mo) { astore<U>(p, v, mo); } \
 U __tsan_atomic##B##_exchange(volatile U* p, U v, int mo) { return armw<U>(p, mo, [=](U) { return v; }); } U __tsan_atomic##B##_fetch_add(volatile U* p, U v, int mo) { return armw<U>(p, mo, [=](U o) { return (U)(o + v); }); } U __tsan_atomic##B##_fetch_sub(volatile U* p, U v, int mo) { return armw<U>(p, mo, [=](U o) { return (U)(o - v); }); } U __tsan_atomic##B##_fetch_and(volatile U* p, U v, int mo) { return armw<U>(p, mo, [=](U o) { return (U)(o & v); }); } U __tsan_atomic##B##_fetch_or(volatile U* p, U v, int mo) { return armw<U>(p, mo, [=](U o) { return (U)(o | v); }); } U __tsan_atomic##B##_fetch_xor(volatile U* p, U v, int mo) { return armw<U>(p, mo, [=](U o) { return (U)(o ^ v); }); } \
 U __tsan_atomic##B##_compare_exchange_val(volatile U* p, U e, U n, int mo, int f) { return acas<U>(p, e, n, mo, f); }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { if (inrt || !inMain) return; Enter e; Th& t = T[me]; if (acq(mo)) t.vc.join(t.facq); if (rel(mo)) { t.frel = t.vc; t.vc.c[me]++; } t.ops++; }
void __tsan_atomic_signal_fence(int) {}
}
static void init() { if (heap) return; heap = new std::map<u64, Blk>; shadow = new std::map<u64, std::vector<Rec>>; hist = new std::map<u64, std::vector<AMsg>>; mxs = new std::map<void*, Mx>; }
__attribute__((constructor(101))) static void early() { init(); }
int main(int argc, char** argv) {
    inrt++; init(); if (argc < 2) { printf("usage: replay script\n"); return 2; } std::ifstream f(argv[1]); std::string line;
    while (std::getline(f, line)) { std::istringstream is(line); std::string k; is >> k; if (k == "step") { int t; std::string e; int p; is >> t >> e >> p; script.push_back({t, e == "end", e == "end" ? 0u : (u32)std::stoul(e), p}); } else if (k == "choice" || k == "input" || k == "timeout") { int t; u32 o; u64 v; is >> t >> o >> v; (k == "choice" ? choices : k == "input" ? inputs : timeouts)[{t, o}] = v; } else if (k == "expect") is >> expectKind; }
    bounds(0); altstack(); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr); alarm(20); std::set_terminate([] { inrt++; auto* t = abi::__cxa_current_exception_type(); report("terminate", t ? std::string("uncaught exception of type ") + t->name() : "std::terminate called"); });
    T[0].status = 1; T[0].vc.c[0] = 1; pthread_cond_init(&GC[0], nullptr); for (auto& b : *heap) b.second.pre = true; inMain = true; inrt--;
    try { vk_user_main(0, nullptr); } catch (abi::__forced_unwind&) { throw; } catch (std::exception& e) { report("uncaught-exception", e.what()); } catch (...) { report("uncaught-exception", "exception leaves main"); }
    inrt++; u64 n = 0; for (auto& b : *heap) n += b.second.live && !b.second.pre; if (leakcheck && n) report("leak", std::to_string(n) + " heap object(s) never freed");
    printf("NOT-REPRODUCED: main returned normally\n"); done(0); }
