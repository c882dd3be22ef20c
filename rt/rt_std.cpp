// Out-of-line parts of libstdc++ for the engine only (the native replay uses the real ones).
#include "vk.h"
#include <map>
#include <list>
#include <unordered_map>
#include <future>
#include <cstring>
#include <system_error>
#include <any>
void* vk_memchr(const void* p, int c, size_t n) asm("memchr");
void* vk_memchr(const void* p, int c, size_t n) { auto q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
extern "C" { [[noreturn]] void vk_fail(const char*); }
namespace std {
using B = _Rb_tree_node_base;
B* _Rb_tree_increment(B* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { B* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const B* _Rb_tree_increment(const B* x) throw() { return _Rb_tree_increment(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { B* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const B* _Rb_tree_decrement(const B* x) throw() { return _Rb_tree_decrement(const_cast<B*>(x)); }
// A plain search tree: the balance of the tree does not matter for what it contains. The header is red, nodes are black.
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
B* _Rb_tree_rebalance_for_erase(B* z, B& h) throw() {
    if (h._M_left == z) h._M_left = z == h._M_right ? &h : _Rb_tree_increment(z);
    if (h._M_right == z) { B* d = nullptr; if (z->_M_left) { d = z->_M_left; while (d->_M_right) d = d->_M_right; } else d = z->_M_parent; h._M_right = d; }
    auto put = [&](B* at, B* n) { if (h._M_parent == at) h._M_parent = n; else if (at->_M_parent->_M_left == at) at->_M_parent->_M_left = n; else at->_M_parent->_M_right = n; if (n) n->_M_parent = at->_M_parent; };
    if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
    else { B* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (!h._M_parent) { h._M_left = h._M_right = &h; }
    return z; }
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t t[] = { 13, 29, 59, 127, 257, 541, 1109 }; for (size_t x : t) if (x >= n) { _M_next_resize = x; return x; } _M_next_resize = n | 1; return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b || _M_next_resize == 0) { if (b == 1 || e + i > b) return { true, _M_next_bkt(e + i > 2 * b ? e + i : 2 * b) }; } return { false, 0 }; }
}
__thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy() { __once_call(); }
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
struct VkCat final : error_category { const char* name() const noexcept override { return "errors"; } string message(int) const override { return "error"; } };
static const VkCat vkGen{}, vkSys{};
const error_category& generic_category() noexcept { return vkGen; }
const error_category& system_category() noexcept { return vkSys; }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept = default;
nested_exception::~nested_exception() noexcept = default;
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
}

// destructors of thread_local objects (those of the main thread do not run)
struct VkTd { void (*f)(void*); void* o; VkTd* next; }; static thread_local VkTd* vkTd = nullptr;
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* o, void*) noexcept { if (vk_tid() == 0) return 0; vkTd = new VkTd{ f, o, vkTd }; return 0; }
extern "C" void vk_threadend() { while (vkTd) { VkTd* t = vkTd; vkTd = t->next; t->f(t->o); delete t; } }
