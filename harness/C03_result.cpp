//@ run quick histories -DMODE=1 -DN=3 covers:value,error,copied,moved
//@ run quick void -DMODE=2 -DN=3 covers:value,error
//@ run quick same-type -DMODE=3 covers:value,error
//@ run quick coro -DMODE=4 covers:ok,inner-error,own-error,thrown
//@ run quick access -DMODE=5 covers:value,error
//@ run quick deep-ex -DMODE=6 covers:done
//@ run thorough histories5 -DMODE=1 -DN=5 covers:value,error,copied,moved
//@ run thorough void5 -DMODE=2 -DN=6 covers:value,error
//@ run thorough histories5-l -DMODE=1 -DN=6 covers:value,error,copied,moved
//@ run thorough void5-l -DMODE=2 -DN=7 covers:value,error
#include "hx.h"
#include <macoro/result.h>
#include <macoro/task.h>
#include <macoro/sync_wait.h>
using namespace macoro;
struct ErrT { Tok t; explicit ErrT(int v) : t(v) {} ErrT() = default; int v() const { return t.get(); } bool operator==(const ErrT& o) const { return v() == o.v(); } };
struct Val : Tok { using Tok::Tok; bool operator==(const Val& o) const { return get() == o.get(); } };
#if MODE == 1
typedef result<Val, ErrT> R;
struct M { bool ok = true; int v = 0; bool moved = false; };
static void look(R& r, const M& m) {
    CHECK(r.has_value() == m.ok); CHECK(r.has_error() == !m.ok); CHECK((bool)r == m.ok); if (m.moved) return;
    const R& c = r;
    if (m.ok) { CHECK(r.value().get() == m.v); CHECK((*r).get() == m.v); CHECK(c.value().get() == m.v); CHECK((*c).get() == m.v); CHECK(&r.value() == &c.value()); vk_cover("value"); }
    else { CHECK(r.error().v() == m.v); CHECK(c.error().v() == m.v); vk_cover("error"); }
}
int main() {
    {
        R r[2]; M m[2]; CHECK(r[0].has_value() && r[0].value().get() == 0); look(r[0], m[0]);
        for (int i = 0; i < N; i++) {
            unsigned op = vk_choose("op", 10), a = vk_choose("which", 2), b = 1 - a; int x = vk_int("x"); Val v(x); ErrT e(x);
            switch (op) {
            case 0: r[a] = Ok(v); CHECK(v.get() == x); m[a] = {true, x}; break;
            case 1: r[a] = Ok(std::move(v)); m[a] = {true, x}; break;
            case 2: r[a] = Err(e); CHECK(e.v() == x); m[a] = {false, x}; break;
            case 3: r[a] = Err(std::move(e)); m[a] = {false, x}; break;
            case 4: { if (m[b].moved) break; r[a] = r[b]; m[a] = m[b]; look(r[b], m[b]); vk_cover("copied"); break; }
            case 5: { if (m[b].moved) break; r[a] = std::move(r[b]); m[a] = m[b]; m[b].moved = true; vk_cover("moved"); break; }
            case 6: { if (m[b].moved) break; R c(r[b]); look(c, m[b]); R d(std::move(c)); look(d, m[b]); look(r[b], m[b]); break; }
            case 7: { const Val cv(x); const ErrT ce(x); R c(Ok(cv)); look(c, {true, x}); R d(Err(ce)); look(d, {false, x}); CHECK(cv.get() == x && ce.v() == x); r[a] = Ok(cv); m[a] = {true, x}; break; }
            case 8: { R c(Ok(v)); CHECK(v.get() == x); look(c, {true, x}); R d(Err(e)); CHECK(e.v() == x); look(d, {false, x}); R f(Ok(std::move(v))); look(f, {true, x}); R g(Err(std::move(e))); look(g, {false, x}); break; }
            case 9: { if (m[a].moved) break; bool q = m[a].ok && m[a].v == x, w = !m[a].ok && m[a].v == x; 
                CHECK((r[a] == Ok(v)) == q); CHECK((r[a] != Ok(v)) == !q); CHECK((r[a] == Err(e)) == w); CHECK((r[a] != Err(e)) == !w); CHECK(v.get() == x && e.v() == x);
                CHECK((r[a] == Ok(Val(x))) == q); CHECK((r[a] != Ok(Val(x))) == !q); CHECK((r[a] == Err(ErrT(x))) == w); CHECK((r[a] != Err(ErrT(x))) == !w); break; }
            }
            look(r[0], m[0]); look(r[1], m[1]); vk_merge();
        }
    }
    CHECK(Tok::live == 0);
}
#elif MODE == 2
typedef result<void, ErrT> R;
static void look(R& r, bool ok, int v) {
    const R& c = r; CHECK(r.has_value() == ok); CHECK(r.has_error() == !ok); CHECK((bool)r == ok);
    bool thrown = false; try { r.value(); } catch (ErrT& e) { thrown = true; CHECK(e.v() == v); } CHECK(thrown == !ok);
    thrown = false; try { *c; } catch (ErrT& e) { thrown = true; CHECK(e.v() == v); } CHECK(thrown == !ok);
    if (!ok) { CHECK(r.error().v() == v && c.error().v() == v); vk_cover("error"); } else { vk_cover("value"); thrown = false; try { (void)r.error(); } catch (std::exception&) { thrown = true; } CHECK(thrown); thrown = false; try { (void)c.error(); } catch (std::exception&) { thrown = true; } CHECK(thrown); }
    CHECK((c == Ok()) == ok); CHECK((c != Ok()) == !ok);
}
int main() {
    {
        R r[2]; bool ok[2] = {true, true}; int mv[2] = {};
        for (int i = 0; i < N; i++) {
            unsigned op = vk_choose("op", 6), a = vk_choose("which", 2), b = 1 - a; int x = vk_int("x"); ErrT e(x);
            switch (op) {
            case 0: r[a] = Ok(); ok[a] = true; break;
            case 1: r[a] = Err(e); CHECK(e.v() == x); ok[a] = false; mv[a] = x; break;
            case 2: r[a] = Err(std::move(e)); ok[a] = false; mv[a] = x; break;
            case 3: r[a] = r[b]; ok[a] = ok[b]; mv[a] = mv[b]; break;
            case 4: { R c(Err(e)); look(c, false, x); CHECK(e.v() == x); R d = Ok(); look(d, true, 0); R f(std::move(c)); look(f, false, x); r[a] = std::move(f); ok[a] = false; mv[a] = x; break; }
            case 5: { bool w = !ok[a] && mv[a] == x; CHECK((r[a] == Err(e)) == w); CHECK((r[a] != Err(e)) == !w); CHECK((r[a] == Err(ErrT(x))) == w); CHECK((r[a] != Err(ErrT(x))) == !w);
                ErrT alt(x); CHECK(r[a].error_or(alt).v() == (ok[a] ? x : mv[a])); const R& cr = r[a]; const ErrT calt(x); CHECK(cr.error_or(calt).v() == (ok[a] ? x : mv[a])); CHECK(alt.v() == x); CHECK(r[a].error_or(ErrT(x)).v() == (ok[a] ? x : mv[a])); break; }
            }
            look(r[0], ok[0], mv[0]); look(r[1], ok[1], mv[1]); vk_merge();
        }
    }
    CHECK(Tok::live == 0);
}
#elif MODE == 3    // value and error of the same (or mutually convertible) type
template<class T, class E> void one(int x, bool ok) {
    typedef result<T, E> R; T v = (T)x; E e = (E)x;
    R a = ok ? R(Ok(v)) : R(Err(e)); CHECK(a.has_value() == ok); R b = ok ? R(Ok(T(v))) : R(Err(E(e))); CHECK(b.has_value() == ok);
    if (ok) { CHECK(a.value() == v && b.value() == v); vk_cover("value"); } else { CHECK(a.error() == e && b.error() == e); vk_cover("error"); }
    if (ok) { b = Err(e); CHECK(b.has_error() && b.error() == e); b = Ok(v); CHECK(b.has_value() && b.value() == v); } else { b = Ok(T(v)); CHECK(b.has_value() && b.value() == v); b = Err(E(e)); CHECK(b.has_error() && b.error() == e); }
    CHECK((a == Ok(v)) == ok); CHECK((a == Err(e)) == !ok);
}
int main() { int x = vk_int("x"); bool ok = vk_flag("ok"); switch (vk_choose("types", 5)) { case 0: one<int, int>(x, ok); break; case 1: one<long, int>(x, ok); break; case 2: one<int, long>(x, ok); break; case 3: one<unsigned, int>(x, ok); break; case 4: one<bool, int>(x & 1, ok); break; } }
#elif MODE == 4   // result as a coroutine return type
static int reached, lvl;
template<class T> using Re = result<T, std::exception_ptr>;
Re<int> inner(int v, unsigned k) { Tok l(v); lvl++; if (k == 1) throw Ex(v); if (k == 2) co_return macoro::Err(std::make_exception_ptr(Ex(v + 1))); co_return Ok(v + 2); }
Re<void> innerV(int v, unsigned k) { Tok l(v); lvl++; if (k == 1) throw Ex(v); if (k == 2) co_return macoro::Err(std::make_exception_ptr(Ex(v + 1))); co_return Ok(); }
Re<Val> outer(int v, unsigned k, bool lv, bool vd, bool ownThrow) {
    Val g(v); reached = 1; int x = 0;
    if (vd) { if (lv) { auto r = innerV(v, k); co_await r; } else co_await innerV(v, k); x = v + 2; }
    else if (lv) { auto r = inner(v, k); x = co_await r; } else x = co_await inner(v, k);
    reached = 2; CHECK(x == v + 2); if (ownThrow) throw Ex(v + 5);
    co_return Ok(Val(x + 1));
}
int main() {
    int v = vk_int("v"); unsigned k = vk_choose("k", 3); bool lv = vk_flag("lv"), vd = vk_flag("void"), ot = vk_flag("own");
    {
        auto r = outer(v, k, lv, vd, ot); CHECK(lvl == 1); CHECK(reached == (k ? 1 : 2)); bool ok = !k && !ot; CHECK(r.has_value() == ok);
        if (ok) { CHECK(r.value().get() == v + 3); vk_cover("ok"); }
        else { int got = 0; try { r.value(); } catch (Ex& e) { got = e.v(); } int want = k == 1 ? v : k == 2 ? v + 1 : v + 5; CHECK(got == want); got = 0; try { std::rethrow_exception(r.error()); } catch (Ex& e) { got = e.v(); } CHECK(got == want); vk_cover(k == 1 ? "thrown" : k == 2 ? "inner-error" : "own-error"); }
    }
    CHECK(Tok::live == 0);
}
#elif MODE == 5   // throwing accessors and the _or family
int main() {
    int x = vk_int("x"), y = vk_int("y"); bool ok = vk_flag("ok");
    {
        result<Val, ErrT> r; if (ok) r = Ok(Val(x)); else r = Err(ErrT(x)); const auto& c = r; bool t; int got;
        t = false; try { r.value(); } catch (ErrT& e) { t = true; CHECK(e.v() == x); } CHECK(t == !ok);
        t = false; try { c.value(); } catch (ErrT& e) { t = true; CHECK(e.v() == x); } CHECK(t == !ok);
        t = false; try { *r; } catch (ErrT& e) { t = true; CHECK(e.v() == x); } CHECK(t == !ok);
        t = false; try { *c; } catch (ErrT& e) { t = true; CHECK(e.v() == x); } CHECK(t == !ok);
        t = false; try { (void)r.error(); } catch (std::runtime_error&) { t = true; } CHECK(t == ok);
        t = false; try { (void)c.error(); } catch (std::runtime_error&) { t = true; } CHECK(t == ok);
        Val av(y); ErrT ae(y); const Val cav(y); const ErrT cae(y);
        CHECK(&r.value_or(av) == (ok ? &r.value() : &av)); CHECK(&c.value_or(cav) == (ok ? &c.value() : &cav)); CHECK(r.value_or(Val(y)).get() == (ok ? x : y));
        CHECK(&r.error_or(ae) == (ok ? &ae : &r.error())); CHECK(&c.error_or(cae) == (ok ? &cae : &c.error())); CHECK(r.error_or(ErrT(y)).v() == (ok ? y : x));
        CHECK(av.get() == y && ae.v() == y); if (ok) CHECK(r.value().get() == x); else CHECK(r.error().v() == x); vk_cover(ok ? "value" : "error");
        // the value may be changed through the reference
        if (ok) { r.value() = Val(y); CHECK(c.value().get() == y); } else { r.error() = ErrT(y); CHECK(c.error().v() == y); }
    }
    CHECK(Tok::live == 0);
    { result<Mov, ErrT> r = Ok(Mov(x)); result<Mov, ErrT> s = std::move(r); CHECK(s.value().get() == x); r = Err(ErrT(y)); CHECK(r.error().v() == y); s = std::move(r); CHECK(s.has_error() && s.error().v() == y); }
    CHECK(Tok::live == 0);
}
#else             // awaiting a result from a task; errors of other types
struct NoDef { Tok t; NoDef(int v) : t(v) {} };
int main() {
    int x = vk_int("x"); bool ok = vk_flag("ok"), lv = vk_flag("lv");
    {
        auto f = [&]() -> task<int> { result<Val, ErrT> r; if (ok) r = Ok(Val(x)); else r = Err(ErrT(x)); Val g = lv ? co_await r : co_await std::move(r); co_return g.get(); };
        int got; bool e = false; try { got = sync_wait(f()); } catch (ErrT& q) { e = true; got = q.v(); } CHECK(e == !ok && got == x);
        auto g = [&]() -> task<int> { result<void> r; if (!ok) r = macoro::Err(std::make_exception_ptr(Ex(x))); co_await r; co_return x; };
        e = false; try { got = sync_wait(g()); } catch (Ex& q) { e = true; got = q.v(); } CHECK(e == !ok && got == x);
        result<NoDef, ErrT> d; CHECK(d.has_error() && d.error().v() == 0); result<Val, NoDef> d2; CHECK(d2.has_value() && d2.value().get() == 0); vk_cover("done");
    }
    CHECK(Tok::live == 0);
}
#endif
