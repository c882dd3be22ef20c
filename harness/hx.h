// Shared pieces of the harnesses.
#pragma once
#include "vk.h"
#include <atomic>
#include <exception>
#include <memory>
#include <utility>
#include <coroutine>
#include <macoro/coroutine_handle.h>
// A value that knows whether it is alive: constructed, used and destroyed exactly once.
struct Tok {
    static inline int live = 0;
    uint32_t state = 0xA11FE; int v = 0;
    void up(int d) { __atomic_fetch_add(&live, d, __ATOMIC_RELAXED); }
    explicit Tok(int x) : v(x) { up(1); }
    Tok() : v(0) { up(1); }
    Tok(Tok&& o) noexcept : v(o.get()) { o.state = 0x30FED; up(1); }
    Tok(const Tok& o) : v(o.get()) { up(1); }
    Tok& operator=(Tok&& o) noexcept { CHECKM(ok(), "assignment to a destroyed object"); int x = o.get(); o.state = 0x30FED; v = x; state = 0xA11FE; return *this; }
    Tok& operator=(const Tok& o) { CHECKM(ok(), "assignment to a destroyed object"); v = o.get(); state = 0xA11FE; return *this; }
    bool ok() const { return state == 0xA11FE || state == 0x30FED; }
    int get() const { CHECKM(state == 0xA11FE, "use of a moved-from or destroyed object"); return v; }
    ~Tok() { CHECKM(ok(), "object destroyed twice"); state = 0xDEAD; up(-1); }
};
// a value that must not be copied (copying it compiles, so that code that does is reported)
struct Mov : Tok { using Tok::Tok; Mov(Mov&&) = default; Mov& operator=(Mov&&) = default; Mov(const Mov& o) : Tok(o) { vk_fail("copied where it can only be moved"); } Mov& operator=(const Mov& o) { Tok::operator=(o); vk_fail("copied where it can only be moved"); return *this; } };
struct Ex { Tok t; explicit Ex(int v) : t(v) {} int v() const { return t.get(); } };
// run a coroutine to its first suspension; nobody waits for it
struct Fire {
    struct promise_type {
        Fire get_return_object() { return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() {} void unhandled_exception() { vk_fail("exception leaves a driver coroutine"); } };
};
// a suspension point resumed by hand (same thread)
struct Gate {
    std::coroutine_handle<> h; int susp = 0, res = 0; int val = 0;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> c) noexcept { CHECKM(!h, "gate awaited twice"); susp++; h = c; }
    void await_suspend(macoro::coroutine_handle<> c) noexcept { CHECKM(!h, "gate awaited twice"); susp++; h = c.std_cast(); }
    int await_resume() noexcept { res++; return val; }
    bool waiting() const { return (bool)h; }
    void fire() { auto c = std::exchange(h, nullptr); c.resume(); }
};
// a suspension point resumed by another thread
struct XGate {
    std::atomic<void*> h{nullptr};
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> c) noexcept { h.store(c.address(), std::memory_order_release); }
    void await_suspend(macoro::coroutine_handle<> c) noexcept { h.store(c.std_cast().address(), std::memory_order_release); }
    void await_resume() noexcept {}
    void fire() { void* p; while (!(p = h.load(std::memory_order_acquire))) vk_yield(); std::coroutine_handle<>::from_address(p).resume(); }
};
// an lvalue that is awaited where it is: copying or moving it compiles, and is reported
struct Here {
    int v; int co = 0; Gate g; explicit Here(int v) : v(v) { g.val = v; } Here(const Here& o) : v(o.v) { vk_fail("an awaited lvalue is copied"); }
    Gate& operator co_await() & { co++; return g; } Gate& operator co_await() && { vk_fail("an lvalue is awaited as an rvalue"); return g; }
};
inline bool vk_flag(const char* n) { return vk_sym(n, 1) != 0; }
inline int vk_int(const char* n) { return (int)vk_sym(n, 32); }
struct Once { int n = 0; void hit() { n++; CHECKM(n == 1, "happened more than once"); } };
#ifndef N
#define N 3
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
