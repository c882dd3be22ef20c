// Harness interface of the symbolic executor (implemented by the engine) and of the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vk_sym(const char* name, uint64_t bits);   // an arbitrary value of the given width
void vk_assume(bool c);
void vk_assert(bool c, const char* msg);
[[noreturn]] void vk_fail(const char* msg);
void vk_cover(const char* tag);                     // reachability witness
int vk_spawn(void (*f)(void*), void* a);
void vk_join(int t);
void vk_yield();                                    // spin-wait: not rescheduled before another thread moved
void vk_merge();                                    // states with equal contents are merged here
int vk_tid();
void vk_noleak();                                   // do not check for leaks when main returns
int64_t vk_now();                                   // model time, ns
void vk_tick(int64_t ns);
uint64_t vk_liveheap();                             // live heap objects
void* vk_malloc(unsigned long n); void* vk_new(uint64_t n); void* vk_newarr(uint64_t n);    // what operator new does, for harnesses that define their own
uint64_t vk_depth();                                // how deep the calling thread's stack is (comparable within a run)
}
#define VK_STR2(x) #x
#define VK_STR(x) VK_STR2(x)
#define CHECK(c) vk_assert(static_cast<bool>(c), "line " VK_STR(__LINE__) ": " #c)
#define CHECKM(c, m) vk_assert(static_cast<bool>(c), m)
extern "C" void vk_threadend();
template<class F> struct VkThread {   // a thread running f
    F f; int id;
    static void entry(void* p) { static_cast<VkThread*>(p)->f(); vk_threadend(); }
    VkThread(F g) : f(static_cast<F&&>(g)), id(0) {}
    void start() { id = vk_spawn(&entry, this); }
    void join() { vk_join(id); }
};
template<class F> VkThread(F) -> VkThread<F>;
inline unsigned vk_choose(const char* n, unsigned k) { // 0..k-1; one path per value
    unsigned v = (unsigned)vk_sym(n, k <= 2 ? 1 : k <= 4 ? 2 : k <= 16 ? 4 : 8); vk_assume(v < k);
    unsigned i = 0; while (i + 1 < k && v != i) i++; return i; }
inline bool vk_coin(const char* n) { return vk_choose(n, 2) != 0; } // a flag, one path per value
