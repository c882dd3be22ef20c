// Thin implementations of out-of-line libstdc++ functions in terms of vk_*/pthread_* (used by the engine and by the native replay).
#include "vk.h"
#include <thread>
#include <mutex>
#include <condition_variable>
extern "C" char vk_lst; char vk_lst = 0;
namespace std {
thread::_State::~_State() = default;
static void vk_thread_main(void* p) { thread::_State_ptr s{ static_cast<thread::_State*>(p) }; s->_M_run(); s.reset(); vk_threadend(); }
void thread::_M_start_thread(_State_ptr st, void (*)()) { int n = vk_spawn(&vk_thread_main, st.release()); *reinterpret_cast<unsigned long*>(&_M_id) = (unsigned long)n + 1; }
void thread::join() { unsigned long v = *reinterpret_cast<unsigned long*>(&_M_id); vk_assert(v != 0, "std::thread::join on a thread that is not joinable"); vk_join((int)(v - 1)); _M_id = id(); }
void thread::detach() { _M_id = id(); }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { _M_cond.wait(*l.mutex()); }
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); }
void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { (void)seed; size_t h = 0; for (size_t i = n; i-- > 0;) h = h * 257 + static_cast<const unsigned char*>(p)[i]; return h; } // any deterministic function
}
#include <time.h>
extern "C" int nanosleep(const timespec* r, timespec*) { // sleeps in model time
    std::mutex m; std::condition_variable c; long long d = vk_now() + r->tv_sec * 1000000000ll + r->tv_nsec; timespec at = { d / 1000000000ll, d % 1000000000ll }; std::unique_lock<std::mutex> l(m);
    while (vk_now() < d) pthread_cond_clockwait(c.native_handle(), m.native_handle(), CLOCK_MONOTONIC, &at);
    return 0; }

long vk_syscall(long, int* a, int op, int v) asm("syscall");
long vk_syscall(long, int* a, int op, int v) { // futex (std::atomic::wait, std::counting_semaphore): a waiter may also wake without cause
    static std::mutex m; static pthread_cond_t c = PTHREAD_COND_INITIALIZER; op &= 127; pthread_mutex_lock(m.native_handle());
    if (op == 0 || op == 9) { if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) pthread_cond_wait(&c, m.native_handle()); } else { vk_assert(op == 1, "a system call that is not encoded"); pthread_cond_broadcast(&c); }
    pthread_mutex_unlock(m.native_handle()); return 0; }

// std::call_once, std::shared_mutex, std::timed_mutex, destructors of thread_local objects
#include <pthread.h>
static std::mutex vk_om; static pthread_cond_t vk_oc = PTHREAD_COND_INITIALIZER;
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) {   // 0, 1 running, 2 done
    pthread_mutex_lock(vk_om.native_handle()); while (*o == 1) pthread_cond_wait(&vk_oc, vk_om.native_handle()); bool mine = *o == 0; if (mine) *o = 1; pthread_mutex_unlock(vk_om.native_handle());
    if (mine) { int r = 0; struct Set { pthread_once_t* o; int to; ~Set() { pthread_mutex_lock(vk_om.native_handle()); *o = to; pthread_cond_broadcast(&vk_oc); pthread_mutex_unlock(vk_om.native_handle()); } } s{ o, 0 }; f(); s.to = 2; (void)r; }
    return 0; }
struct VkRw { int readers; int writer; };
static int vk_rw(pthread_rwlock_t* l, bool w, bool wait) { VkRw* r = (VkRw*)l; int rc = 0; pthread_mutex_lock(vk_om.native_handle()); while (r->writer || (w && r->readers)) { if (!wait) { rc = 16; break; } pthread_cond_wait(&vk_oc, vk_om.native_handle()); } if (!rc) { if (w) r->writer = 1; else r->readers++; } pthread_mutex_unlock(vk_om.native_handle()); return rc; }
extern "C" {
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { *(VkRw*)l = {}; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { vk_assert(!((VkRw*)l)->readers && !((VkRw*)l)->writer, "a locked mutex is destroyed"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return vk_rw(l, false, true); } int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return vk_rw(l, true, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return vk_rw(l, false, false); } int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return vk_rw(l, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { VkRw* r = (VkRw*)l; pthread_mutex_lock(vk_om.native_handle()); if (r->writer) r->writer = 0; else { vk_assert(r->readers > 0, "unlock of a mutex that is not locked"); r->readers--; } pthread_cond_broadcast(&vk_oc); pthread_mutex_unlock(vk_om.native_handle()); return 0; }
}
// operations on atomic objects whose alignment the compiler does not know
template<class T> static T vk_at(T* p, int op, T v, T* e, bool* ok) { switch (op) { case 0: return __atomic_load_n(p, __ATOMIC_SEQ_CST); case 1: __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return v; case 2: return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); default: *ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return v; } }
template<class T> static bool vk_am(void* p, int op, void* in, void* out) { T v = in ? *(T*)in : T(); bool ok = true; T r = vk_at<T>((T*)p, op, v, (T*)out, &ok); if (op != 3 && out) *(T*)out = r; return ok; }
static bool vk_an(size_t n, void* p, int op, void* in, void* out) { switch (n) { case 1: return vk_am<unsigned char>(p, op, in, out); case 2: return vk_am<unsigned short>(p, op, in, out); case 4: return vk_am<unsigned>(p, op, in, out); case 8: return vk_am<unsigned long>(p, op, in, out); default: vk_assert(false, "an atomic object of this size is not encoded"); return false; } }
void vk_a_load(size_t n, void* p, void* r, int) asm("__atomic_load"); void vk_a_load(size_t n, void* p, void* r, int) { vk_an(n, p, 0, nullptr, r); }
void vk_a_store(size_t n, void* p, void* v, int) asm("__atomic_store"); void vk_a_store(size_t n, void* p, void* v, int) { vk_an(n, p, 1, v, nullptr); }
void vk_a_xchg(size_t n, void* p, void* v, void* r, int) asm("__atomic_exchange"); void vk_a_xchg(size_t n, void* p, void* v, void* r, int) { vk_an(n, p, 2, v, r); }
#include <bits/atomic_futex.h>
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { vk_syscall(0, (int*)a, 0, (int)v); return true; }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { vk_syscall(0, (int*)a, 1, 1 << 30); }
bool vk_a_cas(size_t n, void* p, void* e, void* d, int, int) asm("__atomic_compare_exchange"); bool vk_a_cas(size_t n, void* p, void* e, void* d, int, int) { return vk_an(n, p, 3, d, e); }
